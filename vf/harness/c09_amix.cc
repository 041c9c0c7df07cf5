// C09: the real audio mixer in a real graph; every block it is given and every block it publishes is recorded and compared with a model mix.
#define VF_MOCK_DEFINE
#include "mockfilters.hh"
#include "AudioCircularBuffer.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include <deque>
#include <cmath>
using namespace pbt;
const char *pbt::RULE = "1..6 channels fed with audio of generated amplitude, block sizes, start offsets, gaps, jumps and reconnections through real queues, with gain / mute / solo / master "
    "changes, against a sample-by-sample model of the mix. Non-trivial: a published block contains samples of at least two channels, or a gain was changed between published blocks";
void pbt::setup() { quietLog(); }
namespace {
const int64_t BUF = 4800, THR = 2880, OUT = 960;
struct Src : public HeadFilter {
    std::function<bool(Frame *)> fn;
    Src() : HeadFilter(1, REGULAR, true) { fType = RECEIVER; }
    FrameQueue *allocQueue(ConnectionData cd) { return AudioCircularBuffer::createNew(cd, 2, 48000, 2000, FLTP); }
    bool doProcessFrame(std::map<int, Frame *> &d, int &) { if (d.empty()) return false; bool r = fn(d.begin()->second); d.begin()->second->setConsumed(r); return r; }
    void doGetState(Jzon::Object &) {} bool specificReaderConfig(int, FrameQueue *) { return true; } bool specificReaderDelete(int) { return true; }
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
};
struct Blk { int id; int64_t pts; std::vector<float> s[2]; };
struct Mix : public AudioMixer {
    std::vector<Blk> in; bool called = false, ret = false; Blk out; unsigned outLen = 0, outSamples = 0, outCh = 0, outRate = 0; bool consumed = false;
    Mix(int n) : AudioMixer(n) {}
    bool doProcessFrame(std::map<int, Frame *> &o, Frame *d, std::vector<int> nf) {
        called = true; in.clear();
        for (int id : nf) { AudioFrame *f = dynamic_cast<AudioFrame *>(o[id]); Blk b; b.id = id; b.pts = f->getPresentationTime().count(); for (int c = 0; c < 2; c++) { float *p = (float *)f->getPlanarDataBuf()[c]; b.s[c].assign(p, p + f->getSamples()); } in.push_back(b); }
        ret = AudioMixer::doProcessFrame(o, d, nf);
        if (ret) { AudioFrame *f = dynamic_cast<AudioFrame *>(d); out.pts = f->getPresentationTime().count(); outLen = f->getLength(); outSamples = f->getSamples(); outCh = f->getChannels(); outRate = f->getSampleRate(); consumed = f->getConsumed();
            for (int c = 0; c < 2; c++) { float *p = (float *)f->getPlanarDataBuf()[c]; out.s[c].assign(p, p + OUT); } }
        return ret;
    }
};
struct Model {
    std::map<int, float> gains; float master = 0.6f; int64_t sync = -1, front = 0, rear = 0; std::vector<float> mix[2]; std::vector<int> who[2]; bool resynced = false; int drops = 0; bool loud = false;
    Model() { clear(); }
    void clear() { for (int c = 0; c < 2; c++) { mix[c].assign(BUF, 0); who[c].assign(BUF, 0); } }
    void shift() { for (int c = 0; c < 2; c++) { mix[c].erase(mix[c].begin(), mix[c].begin() + OUT); mix[c].resize(BUF, 0); who[c].erase(who[c].begin(), who[c].begin() + OUT); who[c].resize(BUF, 0); } front += OUT; }
    static float lim(float x) { const float th = 0.6f; if (x > th) return ((1 - th) / (2 - th)) * x + th / (2 - th); if (x < -th) return ((1 - th) / (2 - th)) * x - th / (2 - th); return x; }
    void push(const Blk &b) {
        int64_t n = (int64_t)b.s[0].size(); if (rear - front + n > BUF) { drops++; return; }
        if (sync < 0) sync = b.pts;
        int64_t pos = (b.pts - sync) * 48000 / 1000000;
        if (pos >= 0 && pos < front) { drops++; return; }
        if (pos < 0 || pos + n > front + BUF) { front = rear = pos = 0; sync = b.pts; clear(); resynced = true; }
        float gain = gains[b.id];
        for (int c = 0; c < 2; c++) for (int64_t j = 0; j < n; j++) {
            float w = b.s[c][j] * gain * master; if (w == 0) continue;
            size_t at = (size_t)(pos - front + j); float x = mix[c][at] + w; if (std::fabs(x) > 0.6f) loud = true; mix[c][at] = lim(x); who[c][at] |= 1 << b.id;
        }
        rear = std::max(rear, pos + n);
    }
};
}
void pbt::property(Gen &g) {
    if (g.raw(999999) == 999999) {      // a day of audio: more samples than 32 bits count. One sample per run at the end of the window keeps it affordable
        g.label("longrun"); g.log() << "longrun"; Mix m(1); std::unique_ptr<PlanarAudioFrame> f(PlanarAudioFrame::createNew(2, 48000, 4800, PCM, FLTP)), o(PlanarAudioFrame::createNew(2, 48000, 4800, PCM, FLTP));
        struct Raw : AudioMixer { using AudioMixer::doProcessFrame; } r; f->setSamples(1); f->setLength(4); int64_t n = (1LL << 32) / OUT + 100, off = 3000; std::vector<int> nf(1, 1); std::map<int, Frame *> org; org[1] = f.get();
        f->setPresentationTime(us(0)); r.doProcessFrame(org, o.get(), nf);
        for (int64_t k = 0; k < n; k++) { f->setPresentationTime(us(k * 20000 + off * 1000000 / 48000)); PBT_CHECK(r.doProcessFrame(org, o.get(), nf), "block %lld of a contiguous stream was not mixed", (long long)k);
            PBT_CHECK(o->getPresentationTime().count() == k * 20000, "block %lld stamped %ld", (long long)k, (long)o->getPresentationTime().count()); }
        g.nontrivial(); return;
    }
    int nch = (int)g.range(1, 6), amp = (int)g.range(0, 3); Mix mixer(nch); mixer.setId(100); mock::Tail tail(1, false); tail.setId(200);
    Blk got; int gotN = 0; tail.fn = [&](std::map<int, Frame *> &o, std::vector<int> n, int &) { for (int k : n) { AudioFrame *f = dynamic_cast<AudioFrame *>(o[k]); gotN++; got.pts = f->getPresentationTime().count(); for (int c = 0; c < 2; c++) { float *p = (float *)f->getPlanarDataBuf()[c]; got.s[c].assign(p, p + f->getSamples()); } } return true; };
    PBT_CHECK(mixer.connectOneToOne(&tail), "output refused");
    struct Ch { std::unique_ptr<Src> src; int64_t next; bool on; int gen; }; std::vector<Ch> ch(nch); Model m; int nextFid = 1000;
    int64_t base = (int64_t)g.edge(0, 1L << 40); float peak = amp == 0 ? 0.1f : amp == 1 ? 0.4f : amp == 2 ? 1.0f : 1.0f;
    auto attach = [&](int i) { ch[i].src.reset(new Src()); ch[i].src->setId(nextFid++); PBT_CHECK(ch[i].src->connectOneToMany(&mixer, i + 1), "channel %d refused", i + 1); ch[i].on = true; m.gains[i + 1] = 1; };
    for (int i = 0; i < nch; i++) { attach(i); ch[i].next = base + (g.chance(50) ? 0 : (int64_t)g.edge(0, 70000)); }
    int64_t clock = base; bool changed = false, nontriv = false; int ops = (int)g.range(5, 40), outs = 0; int64_t lastOut = -1; bool everResync = false; std::vector<int> starve;
    for (int k = 0; k < ops; k++) {
        int what = (int)g.range(0, 19);
        if (what < 14) {     // a round: feed some channels about one block, run the mixer until it has nothing new
            for (int i = 0; i < nch; i++) {
                if (!ch[i].on || g.chance(8)) continue;
                int n = g.chance(75) ? 960 : (int)g.edge(1, 4800); int64_t pts = ch[i].next;
                if (g.chance(4)) pts += 20000 * g.range(1, 6);                 // gap: the queue fills it with silence
                else if (g.chance(2)) pts += (int64_t)g.edge(1400, 3000000);   // jump
                uint64_t s = g.raw(0xffff) * 0x9e3779b97f4a7c15ULL + 7; bool zero = amp == 3 && g.chance(30);
                ch[i].src->fn = [&](Frame *f) { PlanarAudioFrame *a = dynamic_cast<PlanarAudioFrame *>(f); for (int c = 0; c < 2; c++) { float *p = (float *)a->getPlanarDataBuf()[c]; for (int q = 0; q < n; q++) p[q] = zero ? 0 : peak * ((int64_t)(splitmix(s) >> 40) - (1 << 23)) / (float)(1 << 23); }
                    a->setSamples(n); a->setLength(n * 4); a->setPresentationTime(us(pts)); return true; };
                int ret; ch[i].src->processFrame(ret); ch[i].next = pts + (int64_t)n * 1000000 / 48000; g.log() << " " << i + 1 << ":" << n << "@" << pts - base;
            }
            clock += 20000;
        } else if (what < 18) {
            // ids of channels that do not exist must change nothing
            int id = g.chance(10) ? nch + 1 + (int)g.range(0, 3) : (int)g.range(1, nch); changed = true; bool have = m.gains.count(id);
            switch (g.range(0, 4)) {
                case 0: { float v = (float)(g.chance(80) ? g.range(0, 100) : g.range(-100, 300)) / 100.f; mixer.changeChannelGain(id, v); if (have) m.gains[id] = v > 1 ? 1 : v < 0 ? 0 : v; g.log() << " gain" << id << "=" << v; break; }
                case 1: mixer.muteChannel(id); if (have) m.gains[id] = 0; g.log() << " mute" << id; break;
                case 2: mixer.soloChannel(id); if (have) for (auto &x : m.gains) x.second = x.first == id ? 1 : 0; g.log() << " solo" << id; break;
                case 3: { float v = (float)g.range(0, 100) / 100.f; mixer.changeMasterGain(v); m.master = v; g.log() << " master=" << v; break; }
                default: if (g.chance(30)) { mixer.muteMaster(); m.master = 0; g.log() << " mutemaster"; } break;
            }
        } else if (what == 18 && g.chance(50)) {
            int i = (int)g.range(0, nch - 1);
            if (ch[i].on) { ch[i].src->disconnectWriter(DEFAULT_ID); mixer.disconnectReader(i + 1); m.gains.erase(i + 1); ch[i].on = false; g.log() << " leave" << i + 1; }
            else { attach(i); ch[i].next = clock + (g.chance(50) ? 0 : (int64_t)g.edge(0, 100000)); g.log() << " join" << i + 1; }
        }
        for (int rounds = 0; rounds < 4; rounds++) {
            mixer.called = false; int ret; mixer.processFrame(ret); if (!mixer.called) break;
            for (auto &b : mixer.in) m.push(b);
            bool want = m.rear - m.front >= THR; PBT_CHECK(mixer.ret == want, "the mixer %s a block with %lld samples in its window", mixer.ret ? "published" : "did not publish", (long long)(m.rear - m.front));
            if (m.resynced) { everResync = true; lastOut = -1; m.resynced = false; }
            if (!want) continue;
            int64_t ts = m.sync + m.front * 1000000 / 48000; int mask = 0;
            PBT_CHECK(mixer.outSamples == OUT && mixer.outLen == OUT * 4 && mixer.outCh == 2 && mixer.outRate == 48000 && mixer.consumed, "block of %u samples, %u bytes, %u channels", mixer.outSamples, mixer.outLen, mixer.outCh);
            PBT_CHECK(mixer.out.pts == ts, "block stamped %lld, its first sample is at %lld", (long long)mixer.out.pts, (long long)ts);
            if (lastOut >= 0) PBT_CHECK(mixer.out.pts - lastOut == 20000, "block at %lld follows block at %lld", (long long)mixer.out.pts, (long long)lastOut);
            lastOut = mixer.out.pts;
            for (int c = 0; c < 2; c++) { for (int64_t j = 0; j < OUT; j++) { float w = m.mix[c][j]; mask |= m.who[c][j];
                    float o = mixer.out.s[c][j]; PBT_CHECK(std::fabs(o - w) <= 2e-5f, "channel %d sample %lld of the block is %g, the mix is %g", c, (long long)j, o, w); PBT_CHECK(std::fabs(o) <= 1.0001f, "sample %g outside full scale", o); } }
            m.shift(); outs++; if ((mask & (mask - 1)) || changed) nontriv = true;
            gotN = 0; int r2; tail.processFrame(r2);
            if (!everResync) { PBT_CHECK(gotN == 1, "%d blocks reached the consumer", gotN); for (int c = 0; c < 2; c++) PBT_CHECK(got.s[c] == mixer.out.s[c], "the consumer's block is not the one mixed"); PBT_CHECK(std::llabs(got.pts - mixer.out.pts) <= 1, "consumer sees time %lld, mixed %lld", (long long)got.pts, (long long)mixer.out.pts); }
        }
    }
    { int ret; mixer.processFrame(ret); }    // pending events
    Jzon::Object st; mixer.getState(st); const Jzon::Array &ga = st.Get("gains").AsArray(); PBT_CHECK(ga.GetCount() == m.gains.size(), "%zu gains reported, %zu channels", (size_t)ga.GetCount(), m.gains.size());
    for (size_t i = 0; i < ga.GetCount(); i++) { const Jzon::Object &o = ga.Get(i).AsObject(); int id = o.Get("id").ToInt(); PBT_CHECK(m.gains.count(id) && std::fabs(o.Get("gain").ToFloat() - m.gains[id]) < 1e-3, "gain of channel %d reported %g, set to %g", id, o.Get("gain").ToFloat(), m.gains[id]); }
    PBT_CHECK(std::fabs(st.Get("masterGain").ToFloat() - m.master) < 1e-3, "master gain reported %g", st.Get("masterGain").ToFloat());
    if (m.loud) g.label("limiter active"); if (m.drops) g.label("blocks out of the window"); if (everResync) g.label("window restarted"); if (outs) g.label("published");
    if (nontriv && outs) g.nontrivial();
}
