// C27: the adapters between the pipeline and live555 (RTP sources, sinks, filters and packetisers), over a stand-in for live555.
#include "common.hh"
#include <liveMedia.hh>
#include <cmath>
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "modules/transmitter/H264or5QueueSource.hh"
#include "modules/transmitter/H264or5StartCodeInjector.hh"
#include "modules/transmitter/ADTSStreamParser.hh"
#include "modules/transmitter/H264VideoStreamSampler.hh"
#include "modules/transmitter/UltraGridVideoRTPSink.hh"
#include "modules/transmitter/UltraGridAudioRTPSink.hh"
#include "modules/transmitter/CustomMPEG4GenericRTPSink.hh"
#include "modules/receiver/QueueSink.hh"
#include "modules/receiver/H264VideoSdpParser.hh"
using namespace pbt;
namespace { bool differ(const void *a, const void *b, size_t n) { return n && memcmp(a, b, n); } }
const char *pbt::RULE = "frames handed to RTP sources whose reader asks, stops and comes back at any time (buffers of any size, start codes or none, up to 70 sources living one after the other); extradata of any parameter sets; frames passed through the "
    "start code injector and the ADTS parser; received frames of any size stored by a queue sink that is connected and disconnected at any time, with parameter sets from the session description; pictures and audio cut to packets. Non-trivial: at least "
    "three frames were compared, with a stop, a disconnection, a truncation, a second source or a second fragment among them";
void pbt::setup() { quietLog(); }
unsigned OutPacketBuffer::maxSize = 60000;
SPropRecord *parseSPropParameterSets(char const *str, unsigned &n) {   // comma separated, hexadecimal here
    n = 0; if (!str) return NULL; std::vector<std::string> v(1); for (const char *p = str; *p; p++) if (*p == ',') v.push_back(""); else v.back() += *p;
    SPropRecord *r = new SPropRecord[v.size()]; n = v.size(); for (unsigned i = 0; i < n; i++) { r[i].sPropLength = v[i].size() / 2; r[i].sPropBytes = new unsigned char[v[i].size() / 2 + 1]; for (size_t k = 0; k + 1 < v[i].size(); k += 2) r[i].sPropBytes[k / 2] = (unsigned char)strtol(v[i].substr(k, 2).c_str(), NULL, 16); } return r;
}
namespace {
typedef std::vector<unsigned char> V;
struct Msg { V d; long pts; };
V noise(Gen &g, size_t n) { V v(n); uint64_t s = g.raw(1 << 20); for (size_t i = 0; i < n; i += 8) { uint64_t x = splitmix(s); for (size_t k = i; k < n && k < i + 8; k++) v[k] = (unsigned char)(x >> (8 * (k - i))); } return v; }
// bytes no start code can be found in
V body(Gen &g, size_t n) { V v = noise(g, n); for (auto &b : v) b |= 4; return v; }
struct timeval tv(long us) { struct timeval t; t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; return t; }
long un(struct timeval t) { return t.tv_sec * 1000000L + t.tv_usec; }
// what arrives from below, delivered when it is asked for
struct Net : public FramedSource {
    std::deque<Msg> q; bool closed;
    Net(UsageEnvironment &e) : FramedSource(e), closed(false) {}
    ~Net() {}
    void give() { if (!isCurrentlyAwaitingData()) return; if (q.empty()) { if (closed) handleClosure(); return; } Msg m = q.front(); q.pop_front(); fFrameSize = std::min<size_t>(m.d.size(), fMaxSize); fNumTruncatedBytes = m.d.size() - fFrameSize; if (fFrameSize) memcpy(fTo, &m.d[0], fFrameSize); fPresentationTime = tv(m.pts); fDurationInMicroseconds = 7; afterGetting(this); }
    void push(const Msg &m) { q.push_back(m); give(); }
    void doGetNextFrame() { give(); }
};
// a reader that asks when told to
struct Tap {
    FramedSource *s; std::unique_ptr<unsigned char[]> buf; unsigned max; bool waiting, again, closed; struct Got { V d; long pts; unsigned trunc, dur; }; std::vector<Got> got; std::function<void()> on;
    Tap(FramedSource *x) : s(x), max(0), waiting(false), again(false), closed(false) {}
    void ask(unsigned m) { max = m; buf.reset(new unsigned char[m]); waiting = true; s->getNextFrame(buf.get(), m, sGot, this, sClose, this); }
    static void sGot(void *d, unsigned n, unsigned t, struct timeval p, unsigned du) { Tap *x = (Tap *)d; x->waiting = false; PBT_CHECK(n <= x->max, "a frame of %u bytes in a buffer of %u", n, x->max); Got k = {V(x->buf.get(), x->buf.get() + n), un(p), t, du}; x->got.push_back(k); PBT_CHECK(x->got.size() < 1000, "frames go on for ever"); if (x->on) x->on(); if (x->again && !x->waiting) x->ask(x->max); }
    static void sClose(void *d) { Tap *x = (Tap *)d; x->waiting = false; x->closed = true; }
    void stop() { waiting = false; s->stopGettingFrames(); }
};
std::string hex(const V &v) { std::string s; for (unsigned char c : v) s += fmt("%02x", c); return s; }
const unsigned char SC[] = {0, 0, 0, 1};

// ---- transmitter: frames of the pipeline offered to an RTP source
void sources(Gen &g) {
    TaskScheduler ts; UsageEnvironment env(ts); int lives = g.chance(10) ? (int)g.range(30, 70) : (int)g.range(1, 3), compared = 0; bool special = lives > 1;
    for (int life = 0; life < lives; life++) {
        int kind = (int)g.range(0, 2); std::unique_ptr<StreamInfo> si(new StreamInfo(kind ? VIDEO : AUDIO)); if (kind) { si->video.codec = kind == 1 ? H264 : H265; si->video.h264or5.annexb = true; }
        V want[3]; bool all = true;
        if (kind && g.chance(70)) { V ex; int n = (int)g.range(0, 6); for (int i = 0; i < n; i++) { if (g.chance(50)) ex.push_back(0); ex.insert(ex.end(), SC + 1, SC + 4); int t = kind == 1 ? g.pick({7, 8, 6, 9}) : g.pick({32, 33, 34, 39}); V nal = body(g, g.edge(1, g.chance(20) ? 2000 : 60)); if (kind == 1) nal[0] = 0x60 | t; else nal[0] = t << 1; ex.insert(ex.end(), nal.begin(), nal.end()); int k = kind == 1 ? (t == 7 ? 1 : t == 8 ? 2 : -1) : t == 39 ? -1 : t - 32; if (k >= 0) want[k] = nal; }
            if (g.chance(5)) ex = body(g, g.edge(0, 5)), want[0] = want[1] = want[2] = V(); if (g.chance(10)) { int k = (int)g.range(1, 4); ex.insert(ex.end(), SC + 4 - k, SC + 4); if (k < 3) want[0] = want[1] = want[2] = V(), all = false; } std::unique_ptr<unsigned char[]> exact(new unsigned char[ex.size() + 1]); if (ex.size()) { exact.reset(new unsigned char[ex.size()]); memcpy(exact.get(), &ex[0], ex.size()); si->setExtraData(exact.get(), ex.size()); } g.log() << " extradata " << ex.size(); }
        QueueSource *q = kind ? H264or5QueueSource::createNew(env, si.get()) : QueueSource::createNew(env, si.get());
        if (kind && all) { H264or5QueueSource *h = (H264or5QueueSource *)q; for (int again = 0; again < (g.chance(20) ? 2 : 1); again++) { if (again) h->parseExtradata(); V got[3] = {V(h->getVPS(), h->getVPS() + h->getVPSSize()), V(h->getSPS(), h->getSPS() + h->getSPSSize()), V(h->getPPS(), h->getPPS() + h->getPPSSize())}; for (int i = 0; i < 3; i++) PBT_CHECK(got[i] == want[i], "parameter set %d of the extradata: %zu bytes %.40s, expected %zu bytes %.40s", i, got[i].size(), hex(got[i]).c_str(), want[i].size(), hex(want[i]).c_str()); } }
        Tap tap(q); std::unique_ptr<VideoFrame> f(InterleavedVideoFrame::createNew(H264, 1000)); bool set = false, done = false, playing = false; Msg cur; std::deque<Msg> expect; size_t seen = 0; tap.again = g.chance(30); std::vector<unsigned> maxes; unsigned want1 = 0; int ops = lives > 3 ? (int)g.range(0, 6) : (int)g.range(0, 40);
        auto deliver = [&]() { if (!set || done || !playing || !tap.waiting) return false; return true; };
        auto check = [&](bool exp) { size_t n = tap.got.size(); if (!exp) { PBT_CHECK(n == seen, "a frame came out that was not expected (%zu bytes)", tap.got.back().d.size()); return; } PBT_CHECK(n > seen, "the frame does not come out"); PBT_CHECK(n == seen + 1, "one frame came out %zu times", n - seen); seen = n; done = true; compared++; Tap::Got &x = tap.got.back(); size_t off = 0; const V &d = cur.d; if (kind) { if (d.size() >= 4 && !memcmp(&d[0], SC, 4)) off = 4; else if (d.size() >= 3 && !memcmp(&d[0], SC + 1, 3)) off = 3; } size_t len = d.size() - off, k = std::min<size_t>(len, want1); if (k < len) special = true;
            PBT_CHECK(x.d.size() == k && x.trunc == len - k, "%zu bytes (%u cut off), expected %zu (%zu)", x.d.size(), x.trunc, k, len - k); PBT_CHECK(!differ(x.d.data(), d.data() + off, k), "the payload differs"); PBT_CHECK(x.pts == cur.pts, "presentation time %ld, expected %ld", x.pts, cur.pts); };
        for (int o = 0; o < ops; o++) {
            int op = (int)g.range(0, 9); bool exp = false;
            if (op <= 2) { V d; int sc = (int)g.range(0, 2); if (sc) d.insert(d.end(), SC + sc - 1, SC + 4); V b = body(g, g.edge(0, g.chance(50) ? 4 : 900)); d.insert(d.end(), b.begin(), b.end()); long pts = (long)g.edge(0, 4000000000000L);
                if (!set) { memset(f->getDataBuf(), g.chance(30) ? 1 : 0, 8); if (d.size()) memcpy(f->getDataBuf(), &d[0], d.size()); f->setLength(d.size()); f->setPresentationTime(us(pts)); } bool r = q->setFrame(f.get()); PBT_CHECK(r == !set, "setFrame returned %d", r); if (r) { set = true; done = false; cur.d = d; cur.pts = pts; QueueSource::signalNewFrameData(&ts, q); } g.log() << " set" << d.size(); }
            else if (op <= 5) { if (!tap.waiting) { unsigned m = (unsigned)g.edge(1, g.chance(30) ? 30 : 1000); want1 = m; bool was = playing; playing = true; (void)was; exp = set && !done; g.log() << " ask" << m; tap.ask(m); } }
            else if (op <= 7) { exp = deliver(); uint32_t t = ts.triggered; exp = exp && (t & q->getTriggerId()); g.log() << " turn"; ts.turn(); }
            else if (op == 8) { bool r = q->gotFrame(), e = set && (done || !playing); g.log() << " got" << r; PBT_CHECK(r == e, "gotFrame returned %d, expected %d", r, e); if (r) { set = false; done = false; } }
            else { if (playing && g.chance(50)) { g.log() << " stop"; tap.stop(); playing = false; special = true; } }
            check(exp);
        }
        if (playing) { // whatever happened, what is offered from now on comes out
            ts.turn(); if (tap.got.size() > seen) check(true); if (!tap.waiting) { want1 = 500; bool e = set && !done; tap.ask(500); check(e); } if (set && !done) { QueueSource::signalNewFrameData(&ts, q); ts.turn(); check(true); } if (set) { PBT_CHECK(q->gotFrame(), "a delivered frame is not given back"); set = done = false; } }
        for (int i = 0; i < (playing ? 1 : 0); i++) { if (!tap.waiting) { want1 = 500; tap.ask(500); } cur.d = body(g, 20); cur.pts = 77; memcpy(f->getDataBuf(), &cur.d[0], 20); f->setLength(20); f->setPresentationTime(us(77)); PBT_CHECK(q->setFrame(f.get()), "no new frame is taken"); set = true; QueueSource::signalNewFrameData(&ts, q); ts.turn(); check(true); }
        if (g.chance(30) && set) QueueSource::signalNewFrameData(&ts, q); Medium::close(q); ts.turn();
    }
    if (compared >= 3 && special) g.nontrivial(); g.label("source");
}

// ---- transmitter: filters between an RTP source and what sends it
void filters(Gen &g) {
    TaskScheduler ts; UsageEnvironment env(ts); bool adts = g.chance(50); int hn = g.chance(50) ? 264 : 265; Net *net = new Net(env); FramedFilter *f; H264or5StartCodeInjector *inj = NULL; ADTSStreamParser *ap = NULL; if (adts) f = ap = ADTSStreamParser::createNew(env, net); else { if (g.chance(10)) PBT_CHECK(!H264or5StartCodeInjector::createNew(env, net, VP8), "a start code injector for VP8"); f = inj = H264or5StartCodeInjector::createNew(env, net, hn == 264 ? H264 : H265); }
    Tap tap(f); std::string conf; bool special = false, end = false; int n = (int)g.range(1, 20); if (adts) PBT_CHECK(ap->getConfigString() == NULL || !*ap->getConfigString(), "a configuration string before any frame");
    for (int i = 0; i < n; i++) {
        Msg m; m.pts = (long)g.edge(0, 4000000000000L); unsigned max = (unsigned)g.edge(5, g.chance(30) ? 40 : 1000);
        if (adts) { m.d = noise(g, g.edge(0, 600)); if (g.chance(85) && m.d.size() >= 7) { int prof = (int)g.range(0, 3), fi = (int)g.range(0, 12), ch = (int)g.range(0, 7); m.d[0] = 0xFF; m.d[1] = 0xF1; m.d[2] = prof << 6 | fi << 2 | (m.d[2] & 2) | ch >> 2; m.d[3] = (m.d[3] & 0x3f) | (ch & 3) << 6; if (max >= 7) conf = fmt("%04x", (prof + 1) << 11 | fi << 7 | ch << 3); } else if (m.d.size() > 0) m.d[0] &= 0x7F; }
        else m.d = body(g, g.edge(0, 600)), end = m.d.size() >= (hn == 264 ? 1u : 2u) && max > 4 && std::min<size_t>(m.d.size(), max - 4) >= (hn == 264 ? 1u : 2u) && (hn == 264 ? (m.d[0] & 31) >= 1 && (m.d[0] & 31) <= 5 : (m.d[0] >> 1 & 63) <= 31);
        bool before = g.chance(50); if (before) net->push(m); tap.ask(max); if (!before) { PBT_CHECK((int)tap.got.size() == i, "a frame out of nothing"); net->push(m); } PBT_CHECK((int)tap.got.size() == i + 1, "%zu frames out, %d in", tap.got.size(), i + 1);
        Tap::Got &x = tap.got.back(); V want; if (!adts) want.assign(SC, SC + 4); size_t k = std::min<size_t>(m.d.size(), max - want.size()); want.insert(want.end(), m.d.begin(), m.d.begin() + k); if (k < m.d.size()) special = true; g.log() << " " << m.d.size() << "/" << max;
        PBT_CHECK(x.d == want && x.trunc == m.d.size() - k, "the frame differs: %zu bytes (%u cut off), expected %zu (%zu)", x.d.size(), x.trunc, want.size(), m.d.size() - k); PBT_CHECK(x.pts == m.pts && x.dur == 7, "times differ");
        if (adts) { const char *c = ap->getConfigString(); std::string s = c ? c : ""; for (auto &ch : s) ch = tolower(ch); PBT_CHECK(s == conf, "configuration '%s', the header says '%s'", s.c_str(), conf.c_str()); }
        else { PBT_CHECK((bool)inj->pictureEndMarker() == end, "picture end marker %d", inj->pictureEndMarker()); inj->pictureEndMarker() = False; }
    }
    net->closed = true; if (!tap.waiting) tap.ask(100); if (!tap.closed) net->give(); PBT_CHECK(tap.closed, "the end of the stream is not passed on"); Medium::close(f); if (n >= 3 && special) g.nontrivial(); g.label(adts ? "adts" : "start codes");
}

// ---- receiver: frames stored in the pipeline's queue
void receive(Gen &g) {
    SPropRecord::alive() = 0; TaskScheduler ts; UsageEnvironment env(ts); Net *net = new Net(env); H264VideoSdpParser *par = NULL; std::string sdp; V extra; bool special = false; int nsets = 0;
    if (g.chance(50)) { nsets = (int)g.range(0, 4); for (int i = 0; i < nsets; i++) { V s = body(g, g.edge(1, g.chance(20) ? 300 : 40)); if (i) sdp += ","; sdp += hex(s); extra.insert(extra.end(), SC, SC + 4); extra.insert(extra.end(), s.begin(), s.end()); } std::unique_ptr<char[]> c(new char[sdp.size() + 1]); strcpy(c.get(), sdp.c_str()); par = H264VideoSdpParser::createNew(env, net, nsets || g.chance(50) ? c.get() : NULL); if (!nsets) { extra.clear(); } g.log() << " sets" << nsets; }
    QueueSink *s = QueueSink::createNew(env, 5000, par); PBT_CHECK(s->getPort() == 5000 && s->getFilter() == par, "port or filter"); unsigned maxLen = (unsigned)g.edge(8, g.chance(20) ? 300000 : 2000); FramedSource *top = par ? (FramedSource *)par : net;
    std::vector<std::unique_ptr<VideoFrame>> ring; size_t at = 0; bool linked = false; std::deque<Msg> sent; int published = 0;
    PBT_CHECK(s->startPlaying(*top, NULL, NULL), "start");
    auto cut = [&](const Msg &m) { V w; if (par) w.assign(SC, SC + 4); w.insert(w.end(), m.d.begin(), m.d.end()); return w; };
    bool early = g.chance(50); auto step = [&]() { if (early) net->give(); ts.turn(); if (!early) net->give(); };   // what arrives is taken by the event loop
    // one run of the filter: offers its frame, makes one step, publishes what is complete
    auto run = [&]() {
        bool r = false; if (linked) { VideoFrame *f = ring[at].get(); f->setConsumed(false); s->setFrame(f); }
        step();
        if (linked && ring[at]->getConsumed()) { VideoFrame *f = ring[at].get(); r = true; published++; PBT_CHECK(!sent.empty(), "a frame of %u bytes was published though none arrived", f->getLength()); Msg m = sent.front(); sent.pop_front(); V w = cut(m); bool big = w.size() > maxLen; if (big) { w.resize(maxLen); special = true; }
            PBT_CHECK(f->getLength() <= f->getMaxLength(), "%u bytes in a buffer of %u", f->getLength(), f->getMaxLength()); PBT_CHECK(f->getLength() == w.size() && !differ(f->getDataBuf(), w.data(), w.size()), "the frame stored has %u bytes, %zu arrived, or their content differs", f->getLength(), w.size()); PBT_CHECK(f->getPresentationTime().count() == m.pts && f->getDecodeTime() == us(-1), "times of the frame stored"); at = (at + 1) % ring.size(); }
        return r;
    };
    auto join = [&]() { ring.clear(); at = 0; for (int i = 0; i < 3; i++) { ring.push_back(std::unique_ptr<VideoFrame>(InterleavedVideoFrame::createNew(H264, maxLen))); memset(ring.back()->getDataBuf(), 0x5A, maxLen); } linked = true; g.log() << " join"; run(); };
    int ops = (int)g.range(1, 50); int joins = 0;
    for (int o = 0; o < ops; o++) {
        int op = (int)g.range(0, 9);
        if (op <= 3) { Msg m; m.pts = (long)g.edge(0, 4000000000000L); m.d = noise(g, g.edge(0, g.chance(10) ? std::min(maxLen * 2, 150000u) : std::min(maxLen, 400u))); g.log() << " in" << m.d.size(); sent.push_back(m); net->q.push_back(m); }
        else if (op <= 7) { g.log() << " run"; run(); }
        else if (op == 8 && !linked) { // what is left from before joining was thrown away, except for what waits to be read
            for (int i = 0; i < 3; i++) step(); while (sent.size() > net->q.size()) sent.pop_front(); join(); joins++; if (joins > 1) special = true; }
        else if (op == 9 && linked) { g.log() << " leave"; run(); s->disconnect(); linked = false; ring.clear(); special = true; for (int i = 0; i < 3; i++) step(); }
        if (!linked) { for (int i = 0; i < 2; i++) step(); while (sent.size() > net->q.size()) sent.pop_front(); }
    }
    if (linked) { for (size_t k = 0, n = sent.size() + 5; k < 4 * n && !sent.empty(); k++) run(); PBT_CHECK(sent.empty(), "%zu frames that arrived are not stored", sent.size()); }
    if (par) { for (int i = 0; i < 3; i++) step(); V got(par->getExtradata(), par->getExtradata() + par->getExtradataSize()); if (published || !linked) PBT_CHECK(got == extra, "extradata of %zu bytes, the description has %zu", got.size(), extra.size()); }
    s->stopPlaying(); Medium::close(s); Medium::close(top); PBT_CHECK(SPropRecord::alive() == 0, "%d parameter sets read from the description are never freed", SPropRecord::alive()); if (published >= 3 && special) g.nontrivial(); g.label(par ? "receive h264" : "receive");
}

// ---- transmitter: packets
struct BW { V s; int n = 0; void bit(int b) { if (n % 8 == 0) s.push_back(0); if (b) s.back() |= 0x80 >> (n % 8); n++; } void u(int k, uint64_t v) { for (int i = k - 1; i >= 0; i--) bit(v >> i & 1); } void ue(uint64_t v) { v++; int k = 0; while (v >> (k + 1)) k++; u(k, 0); u(k + 1, v); } };
V sps(int mw, int mh, unsigned units, unsigned scale) { BW b; b.u(8, 0x67); b.u(8, 66); b.u(8, 0); b.u(8, 30); b.ue(0); b.ue(0); b.ue(2); b.ue(1); b.u(1, 0); b.ue(mw - 1); b.ue(mh - 1); b.u(1, 1); b.u(1, 1); b.u(1, 0); b.u(1, units > 0); if (units) { b.u(1, 0); b.u(1, 0); b.u(1, 0); b.u(1, 0); b.u(1, 1); b.u(32, units); b.u(32, scale); b.u(1, 1); b.u(1, 0); b.u(1, 0); b.u(1, 0); b.u(1, 0); } b.bit(1);
    V o; int z = 0; for (unsigned char c : b.s) { if (z == 2 && c <= 3) { o.push_back(3); z = 0; } o.push_back(c); z = c ? 0 : z + 1; } return o; }
void ugVideo(Gen &g) {
    TaskScheduler ts; UsageEnvironment env(ts); std::deque<Msg> in; int n = (int)g.range(1, 25); bool special = false; long pts = (long)g.edge(0, 4000000000000L);
    for (int i = 0; i < n; i++) { Msg m; m.pts = pts; pts += g.range(0, 100000); m.d = {9, 0x10}; in.push_back(m); if (i == 0 ? g.chance(80) : g.chance(15)) { static const unsigned FPS[][2] = {{0, 0}, {1, 50}, {1001, 60000}, {1, 60}, {1001, 48000}, {2, 30}}; int k = (int)g.range(0, 5); m.d = sps((int)g.range(1, 120), (int)g.range(1, 68), FPS[k][0], FPS[k][1]); in.push_back(m); } for (int s = (int)g.range(0, 3); s > 0; s--) { m.d = body(g, g.edge(1, g.chance(20) ? 20000 : 1500)); m.d[0] = g.pick({0x41, 0x65, 0x06}); in.push_back(m); } }
    // the same stream read directly
    struct F { V d; long pts; int w, h; double fps; bool end; }; std::vector<F> ref; { Net *net = new Net(env); net->q = in; net->closed = true; H264VideoStreamSampler *s = H264VideoStreamSampler::createNew(env, net, false); Tap t(s); t.on = [&]() { F f = {t.got.back().d, t.got.back().pts, s->getWidth(), s->getHeight(), s->getFrameRate(), (bool)s->pictureEndMarker()}; s->pictureEndMarker() = False; ref.push_back(f); }; t.again = false; while (!t.closed) t.ask(UG_FRAME_MAX_SIZE > 200000 ? 200000 : UG_FRAME_MAX_SIZE); Medium::close(s); }
    size_t skip = 0; while (skip < ref.size() && (ref[skip].w <= 0 || ref[skip].h <= 0)) skip++; skip++; // frames until the size is known are not sent
    OutPacketBuffer::maxSize = (unsigned)g.edge(1460, 60000); Net *net = new Net(env); net->q = in; net->closed = true; H264VideoStreamSampler *s = H264VideoStreamSampler::createNew(env, net, false); Groupsock gs; UltraGridVideoRTPSink *k = UltraGridVideoRTPSink::createNew(env, &gs); unsigned packet = (unsigned)g.edge(60, 1456); k->setPacketSizes(packet, packet); PBT_CHECK(k->startPlaying(*s, NULL, NULL), "start"); for (int i = 0; i < 20000 && !ts.tasks.empty(); i++) ts.turn();
    size_t p = 0; uint32_t bufId = 0; double fps = 25; int frames = 0; g.log() << " packet " << packet << " frames " << ref.size();
    for (size_t i = skip; i < ref.size(); i++) {
        F &f = ref[i]; if (f.fps > 0) fps = f.fps; if (f.d.empty()) continue; size_t off = 0; frames++;
        while (off < f.d.size()) { PBT_CHECK(p < k->sent.size(), "frame %zu of %zu bytes is not sent beyond byte %zu", i, f.d.size(), off); Packet &x = k->sent[p++]; const V &y = x.payload; PBT_CHECK(y.size() > 24 && y.size() <= packet - 12, "a packet of %zu bytes", y.size()); uint32_t w[6]; for (int j = 0; j < 6; j++) w[j] = y[4 * j] << 24 | y[4 * j + 1] << 16 | y[4 * j + 2] << 8 | y[4 * j + 3];
            PBT_CHECK(w[0] == (bufId & 0x3fffff), "buffer %u, expected %u", w[0], bufId); PBT_CHECK(w[1] == off, "offset %u, expected %zu", w[1], off); PBT_CHECK(w[2] == f.d.size(), "length %u, expected %zu", w[2], f.d.size()); PBT_CHECK(w[3] == ((uint32_t)f.w << 16 | (uint32_t)f.h), "size %ux%u, expected %dx%d", w[3] >> 16, w[3] & 0xffff, f.w, f.h); PBT_CHECK(w[4] == 0x41564331, "codec %08x", w[4]);
            uint32_t fr = (uint32_t)lround(fps) << 19 | 1 << 15 | (fabs(fps - lround(fps) / 1.001) < 0.005 ? 1 << 14 : 0); PBT_CHECK(w[5] == fr, "rate word %08x, expected %08x (%g)", w[5], fr, fps); size_t len = y.size() - 24; PBT_CHECK(off + len <= f.d.size() && !memcmp(&y[24], &f.d[off], len), "the fragment at %zu differs", off); if (off) special = true; off += len; PBT_CHECK(un(x.ts) == f.pts, "time of a packet"); PBT_CHECK(x.marker == (off == f.d.size() && f.end), "marker %d at %zu of %zu", x.marker, off, f.d.size()); }
        bufId++;
    }
    PBT_CHECK(p == k->sent.size(), "%zu packets too many", k->sent.size() - p); Medium::close(k); Medium::close(s); if (frames >= 3 && special) g.nontrivial(); g.label("ultragrid video");
}
void audioPackets(Gen &g) {
    TaskScheduler ts; UsageEnvironment env(ts); Net *net = new Net(env); Groupsock gs; bool ug = g.chance(60); OutPacketBuffer::maxSize = 60000; MultiFramedRTPSink *k; unsigned hs = ug ? 20 : 4; bool swap = false; uint32_t rate = (uint32_t)g.pick({8000, 16000, 44100, 48000}), tag = 0, bps = 0; ADTSStreamParser *ap = NULL; FramedSource *src = net;
    if (ug) { ACodecType c = g.pick({PCM, PCMU, MP3, OPUS}); SampleFmt sf = g.pick({U8, S16, S16P, U8P}); k = UltraGridAudioRTPSink::createNew(env, &gs, c, 1, rate, sf); tag = c == PCM ? 1 : c == PCMU ? 7 : c == MP3 ? 0x55 : 0x7375704F; bps = sf == S16 || sf == S16P ? 16 : 8; swap = c == PCM && bps == 16; if (g.chance(5)) { AudioRTPSink *b = UltraGridAudioRTPSink::createNew(env, &gs, g.chance(50) ? AAC : PCM, 1, rate, FLT); PBT_CHECK(!b->startPlaying(*src, NULL, NULL), "an audio format UltraGrid has no name for was accepted"); Medium::close(b); } }
    else { k = CustomMPEG4GenericRTPSink::createNew(env, &gs, 97, rate, "audio", "aac-hbr", 2); PBT_CHECK(!CustomMPEG4GenericRTPSink::createNew(env, &gs, 97, rate, "video", "aac-hbr", 2), "a video sink"); src = ap = ADTSStreamParser::createNew(env, net); }
    unsigned packet = (unsigned)g.edge(60, 1456) & ~1u; k->setPacketSizes(packet, packet); PBT_CHECK(k->startPlaying(*src, NULL, NULL), "start"); size_t p = 0; uint32_t id = 0; int n = (int)g.range(1, 12); bool special = false; std::string conf; g.log() << " packet " << packet;
    for (int i = 0; i < n; i++) {
        Msg m; m.pts = (long)g.edge(0, 4000000000000L); size_t len = (size_t)g.edge(1, ug ? 6000 : 2000); if (swap && !g.chance(10)) len = (len + 1) & ~1ul; m.d = noise(g, len); if (ap && len >= 7) { int fi = (int)g.range(0, 12), ch = (int)g.range(0, 7); m.d[0] = 0xFF; m.d[1] = 0xF1; m.d[2] = 1 << 6 | fi << 2 | ch >> 2; m.d[3] = (m.d[3] & 0x3f) | (ch & 3) << 6; conf = fmt("%04x", 2 << 11 | fi << 7 | ch << 3); } else if (ap) m.d[0] = 0; net->push(m); for (int t = 0; t < 400 && (t < 2 || net->q.size() || !net->isCurrentlyAwaitingData()); t++) ts.turn(); V w = m.d; if (swap) for (size_t j = 0; j + 1 < w.size(); j += 2) std::swap(w[j], w[j + 1]); g.log() << " " << len;
        size_t off = 0; while (off < len) { PBT_CHECK(p < k->sent.size(), "the frame is not sent beyond byte %zu of %zu", off, len); Packet &x = k->sent[p++]; PBT_CHECK(off + x.payload.size() <= len && x.payload.size() && x.payload.size() <= x.room, "a packet of %zu bytes", x.payload.size()); PBT_CHECK(!memcmp(&x.payload[0], &w[off], x.payload.size()), "the fragment at %zu differs", off); PBT_CHECK(un(x.ts) == m.pts, "time of a packet"); bool last = off + x.payload.size() == len; PBT_CHECK(x.marker == last, "marker %d at %zu of %zu", x.marker, off, len);
            if (ug) { uint32_t h[5]; for (int j = 0; j < 5; j++) h[j] = x.header[4 * j] << 24 | x.header[4 * j + 1] << 16 | x.header[4 * j + 2] << 8 | x.header[4 * j + 3]; PBT_CHECK(h[0] == (id & 0x3fffff) && h[1] == off && h[2] == len && h[3] == (bps << 26 | rate) && h[4] == tag, "header %08x %08x %08x %08x %08x of frame %u, offset %zu, %zu bytes", h[0], h[1], h[2], h[3], h[4], id, off, len); }
            else { PBT_CHECK(x.header[0] == 0 && x.header[1] == 16 && (x.header[2] << 5 | x.header[3] >> 3) == (int)(len & 0x1fff) && !(x.header[3] & 7), "access unit header %s for %zu bytes", hex(x.header).c_str(), len); }
            if (off) special = true; off += x.payload.size(); }
        id++; if (ap && !conf.empty()) { const char *l = k->auxSDPLine(); std::string s = l ? l : ""; for (auto &c : s) c = tolower(c); PBT_CHECK(s.find("config=" + conf + "\r\n") != std::string::npos && s.find("a=fmtp:97 ") == 0, "description line '%s' for configuration %s", s.c_str(), conf.c_str()); }
    }
    PBT_CHECK(p == k->sent.size(), "%zu packets too many", k->sent.size() - p); k->stopPlaying(); Medium::close(k); Medium::close(src); if (n >= 3 && special) g.nontrivial(); g.label(ug ? "ultragrid audio" : "mpeg4 audio");
}
}
void pbt::property(Gen &g) {
    switch (g.range(0, 5)) { case 0: case 1: sources(g); break; case 2: filters(g); break; case 3: receive(g); break; case 4: ugVideo(g); break; default: audioPackets(g); }
}
