// C14: the real AVC/HEVC segmenters driven as Dasher drives them; every segment is parsed back and compared with the access units fed in.
#include "mp4.hh"
#include "VideoFrame.hh"
#include "modules/dasher/DashVideoSegmenter.hh"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include <memory>
using namespace pbt;
const char *pbt::RULE = "NAL unit streams (H.264/H.265; any frame intervals, gaps and key-frame distances; 1..5 slices; delimiters or not; parameter sets, SEI and ignored NAL types anywhere legal; 3/4-byte or no start code; truncated units; "
    "timestamps with a constant composition offset or without decode time; wall-clock bases; access units up to the segment buffer's size). Non-trivial: at least two segments were generated";
void pbt::setup() { quietLog(); }
namespace {
const long TB = 12800;
struct Au { long pts, dts; int w, h; bool key; std::vector<unsigned char> d; };
struct Nal { std::vector<unsigned char> d; int au; bool first, junk; };
}
void pbt::property(Gen &g) {
    bool hevc = g.chance(50); int segDur = (int)g.range(1, g.chance(20) ? 10 : 3); bool big = g.chance(2); bool wall = g.chance(40); long base = wall ? 1400000000000000l + g.range(0, 1000000000000l) : g.chance(30) ? 0 : (long)g.range(0, 10000000);
    int tmode = (int)g.range(0, 2); long cto = tmode == 2 ? (long)g.edge(1, 200000) : 0; // 0: no DTS, 1: dts = pts, 2: constant offset
    long offs = base - (tmode == 2 ? cto : 0); if (g.chance(30)) { long back = (long)g.edge(0, 1000000000l); offs -= std::min(back, offs); } if (!wall && g.chance(20)) offs = 0; if (offs < 0) offs = 0; if (base < cto) base = cto;
    bool aud = g.chance(60); bool late = g.chance(15); std::vector<Au> aus; std::vector<Nal> nals; int n = big ? (int)g.range(8, 40) : (int)g.range(2, g.chance(30) ? 400 : 60); long t = base; long step = g.pick({33366l, 40000l, 16683l, 100000l, 250000l, 41708l, 500000l}); int jit = g.chance(30) ? (int)g.range(1, 90) : 0; int gop = (int)g.edge(1, 60), left = g.chance(15) ? (int)g.range(1, 5) : 0; bool varGop = g.chance(30); int nSl = (int)g.range(1, 4); int gaps = g.chance(15) ? 10 : 0;
    g.log() << (hevc ? "hevc " : "avc ") << segDur << "s off=" << offs << " base=" << base << (tmode == 0 ? " nodts" : tmode == 1 ? "" : fmt(" cto=%ld", cto)) << (aud ? " aud" : "") << ":";
    auto put = [&](int type, size_t body, int au, bool &first, bool junk) {
        Nal k; k.au = au; k.first = false; k.junk = junk; int sc = (int)g.range(0, 2); std::vector<unsigned char> raw; if (hevc) { raw.push_back(type << 1); raw.push_back(1); } else raw.push_back((unsigned char)(type | (g.range(0, 3) << 5))); size_t h = raw.size(); std::vector<unsigned char> b = g.bytes(body); raw.insert(raw.end(), b.begin(), b.end()); (void)h;
        if (sc == 0) k.d = {0, 0, 0, 1}; else if (sc == 1) k.d = {0, 0, 1}; k.d.insert(k.d.end(), raw.begin(), raw.end()); if (!junk) { k.first = first; first = false; } nals.push_back(k);
        bool slice = hevc ? (type == 0 || type == 1 || type == 19 || type == 20 || type == 21) : (type == 1 || type == 5); if (slice) { Au &a = aus[au]; size_t L = raw.size(); a.d.push_back(L >> 24); a.d.push_back(L >> 16 & 255); a.d.push_back(L >> 8 & 255); a.d.push_back(L & 255); a.d.insert(a.d.end(), raw.begin(), raw.end()); } };
    auto junk = [&](int au) { bool f = true; if (g.chance(50)) { put(hevc ? g.pick({41, 38, 47, 10, 22}) : g.pick({12, 14, 19, 0, 24}), (size_t)g.range(0, 30), au, f, true); } else { Nal k; k.au = au; k.first = false; k.junk = true; typedef std::vector<unsigned char> V; k.d = hevc ? g.pick({V{}, V{0, 0, 1}, V{0, 0, 0, 1}}) : g.pick({V{}, V{0, 0, 1}, V{0, 0, 0, 1}, V{0}, V{0, 0}}); nals.push_back(k); } };
    bool junky = g.chance(20); int W = 320, H = 180;
    for (int i = 0; i < n; i++) {
        Au a; a.pts = t; a.dts = tmode == 0 ? -1 : t - cto; a.key = i == 0 ? !late : left <= 0; if (a.key && g.chance(5)) { W = (int)g.range(1, 2000) * 2; H = (int)g.range(1, 1000) * 2; } a.w = W; a.h = H; if (a.key) left = varGop ? (int)g.edge(1, 60) : gop; left--; aus.push_back(a); bool first = true; int au = i;
        if (aud) put(hevc ? 35 : 9, 1, au, first, false); if (junky && g.chance(15) && !first) junk(au);
        if (a.key ? g.chance(80) || i == 0 : g.chance(3)) { if (hevc) put(32, (size_t)g.range(4, 30), au, first, false); put(hevc ? 33 : 7, (size_t)g.range(4, 40), au, first, false); put(hevc ? 34 : 8, (size_t)g.range(1, 10), au, first, false); }
        if (g.chance(15)) put(hevc ? 39 : 6, (size_t)g.range(1, 40), au, first, false);
        int sl = (int)g.range(1, nSl); int kt = hevc ? g.pick({19, 20, 21}) : 5, nt = hevc ? (int)g.range(0, 1) : 1; for (int s = 0; s < sl; s++) { put(a.key ? kt : nt, big && g.chance(40) ? (size_t)g.range(100000, 2000000 / nSl) : (size_t)g.edge(1, 200), au, first, false); if (junky && g.chance(5)) junk(au); }
        if (hevc && g.chance(10)) put(40, (size_t)g.range(1, 20), au, first, false);
        long d = step; if (jit) d = std::max(1000l, step + step * (long)g.range(-jit, jit) / 100); if (gaps && g.chance(gaps)) d = (long)g.range(500000, segDur * 2500000l); t += d;
    }
    static DashSegment *out = new DashSegment(), *init = new DashSegment(); 
    size_t before = mp4::heap(); DashVideoSegmenterHEVC *sh = hevc ? new DashVideoSegmenterHEVC(std::chrono::seconds(segDur), us(offs)) : NULL; DashVideoSegmenterAVC *sa = hevc ? NULL : new DashVideoSegmenterAVC(std::chrono::seconds(segDur), us(offs)); DashVideoSegmenter *seg = hevc ? (DashVideoSegmenter *)sh : (DashVideoSegmenter *)sa; std::unique_ptr<DashSegmenter> own(hevc ? (DashSegmenter *)sh : (DashSegmenter *)sa);
    size_t cap = 64; for (auto &k : nals) cap = std::max(cap, k.d.size() + 16); std::unique_ptr<VideoFrame> in(InterleavedVideoFrame::createNew(hevc ? H265 : H264, (unsigned)cap)); out->clear(); init->clear();
    if (g.chance(10)) { static AudioFrame *af = NULL; if (!af) af = InterleavedAudioFrame::createNew(2, 48000, 1024, AAC, S16); PBT_CHECK(!seg->manageFrame(af) && !seg->manageFrame(NULL), "not a video frame"); }
    auto tb = [&](long micros) { return (micros - offs) * TB / 1000000; };
    std::vector<int> cur; int nseg = 0; int done = -1; long nextT0 = -1; bool dropping = false; (void)dropping; int truncated = 0;
    size_t curBytes = 0;
    for (size_t i = 0; i < nals.size(); i++) {
        Nal &k = nals[i]; Au &na = aus[k.au]; memset(in->getDataBuf(), g.chance(3) ? 1 : 0, std::min<size_t>(cap, 8)); if (!k.d.empty()) memcpy(in->getDataBuf(), &k.d[0], k.d.size()); in->setLength((unsigned)k.d.size()); in->setSize(na.w, na.h); in->setPresentationTime(us(na.pts)); in->setDecodeTime(us(na.dts));
        Frame *f = seg->manageFrame(in.get()); bool expect = !k.junk && k.first && k.au > 0 && k.au - 1 > done;
        PBT_CHECK(!!f == expect, "NAL unit %zu (%sfirst of access unit %d): %s", i, k.first ? "" : "not ", k.au, f ? "an access unit was returned" : "the access unit before it was not returned"); if (!f) continue;
        done = k.au - 1; Au &a = aus[done]; VideoFrame *vf = dynamic_cast<VideoFrame *>(f); PBT_CHECK(vf && vf->getLength() == a.d.size() && !memcmp(vf->getDataBuf(), &a.d[0], a.d.size()), "access unit %d has %u bytes, expected %zu (or they differ)", done, f->getLength(), a.d.size()); PBT_CHECK(vf->getPresentationTime().count() == a.pts && vf->getWidth() == a.w && vf->getHeight() == a.h, "time or size of access unit %d", done);
        PBT_CHECK(seg->isPreviousFrameIntra() == a.key, "access unit %d is %sa key frame", done, a.key ? "" : "not ");
        seg->generateInitSegment(init);
        bool got = seg->generateSegment(out, f); long T0 = cur.empty() ? 0 : tb(aus[cur[0]].pts), T1 = tb(a.pts), last = cur.empty() ? 0 : T1 - tb(aus[cur.back()].pts), dur = segDur * TB;
        bool may = !cur.empty() && a.key && T1 - T0 + last + 1 >= dur, must = !cur.empty() && a.key && T1 - T0 - 1 >= dur;
        PBT_CHECK(!got || may, "a segment was cut before access unit %d (%s) after %ld of %ld ticks", done, a.key ? "key" : "not key", T1 - T0, dur); PBT_CHECK(got || !must, "no segment was cut before key frame %d after %ld of %ld ticks", done, T1 - T0, dur);
        if (got) {
            PBT_CHECK(out->isComplete() && out->getDataLength() <= MAX_DAT, "segment of %u bytes", out->getDataLength()); mp4::Media m = mp4::media(out->getDataBuffer(), out->getDataLength(), true);
            PBT_CHECK(m.scale == TB && m.track == 1, "time scale %u track %u", m.scale, m.track); PBT_CHECK(m.seq == (uint32_t)nseg && out->getSeqNumber() == (unsigned)nseg + 1, "sequence number %u / %u of segment %d", m.seq, out->getSeqNumber(), nseg);
            PBT_CHECK(m.s.size() == cur.size(), "%zu samples for %zu access units", m.s.size(), cur.size());
            PBT_CHECK((long)m.tfdt == T0 && (long)out->getTimestamp() == T0, "segment starts at %lu (%lu), its first access unit at %ld", (unsigned long)m.tfdt, (unsigned long)out->getTimestamp(), T0);
            PBT_CHECK(labs((long)m.total - (T1 - T0)) <= (cto ? 1 : 0) && out->getDuration() == m.total, "segment lasts %lu (%u) ticks, its access units %ld", (unsigned long)m.total, out->getDuration(), T1 - T0);
            if (nextT0 >= 0) PBT_CHECK(T0 == nextT0, "gap");
            for (size_t s = 0; s < cur.size(); s++) { Au &b = aus[cur[s]]; mp4::Sample &x = m.s[s]; PBT_CHECK(x.size == b.d.size() && !memcmp(x.p, &b.d[0], x.size), "sample %zu is not access unit %d", s, cur[s]); bool nonsync = x.flags >> 16 & 1; PBT_CHECK(nonsync == !b.key, "key flag of sample %zu", s); long want = s + 1 < cur.size() ? tb(aus[cur[s + 1]].pts) - tb(b.pts) : last; PBT_CHECK(labs((long)x.dur - want) <= (cto ? 1 : 0), "sample %zu lasts %u ticks, %ld to the next access unit", s, x.dur, want); PBT_CHECK(labs((long)x.cto - cto * TB / 1000000) <= (cto ? 1 : 0), "sample %zu composition offset %ld for %ld us", s, (long)x.cto, cto); }
            PBT_CHECK(!(m.s[0].flags >> 16 & 1), "a segment does not start with a key frame"); nextT0 = truncated ? -1 : T1; truncated = 0; nseg++; cur.clear(); curBytes = 0; out->clear(); g.log() << " seg" << nseg << "(" << m.s.size() << ")";
        }
        bool ok = seg->appendFrameToDashSegment(f); size_t need = curBytes + a.d.size(); bool fitsSurely = need + 4096 + 16 * (cur.size() + 1) <= MAX_DAT, fitsMaybe = need <= MAX_DAT;
        if (cur.empty() && !a.key) { PBT_CHECK(!ok, "a segment was started with access unit %d, no key frame", done); if (nextT0 >= 0) nextT0 = -1; }
        else { PBT_CHECK(ok || !fitsSurely, "access unit %d of %zu bytes refused with %zu in the segment", done, a.d.size(), curBytes); PBT_CHECK(!ok || fitsMaybe, "%zu bytes were accepted into a segment of %d", need, MAX_DAT); if (ok) { cur.push_back(done); curBytes += a.d.size(); } else { truncated++; g.label("access unit refused: segment full"); } }
    }
    PBT_CHECK(seg->flushDashContext() || done < 0, "flush"); own.reset(); in.reset(); size_t after = mp4::heap(); PBT_CHECK(after < before + 1000000, "%zu bytes are not released with the segmenter", after - before);
    if (nseg >= 2) g.nontrivial(); g.label(fmt("segments: %s", nseg >= 5 ? ">=5" : std::to_string(nseg).c_str()));
}
