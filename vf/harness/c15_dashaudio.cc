// C15: the real audio segmenter driven as Dasher drives it (with and without video); every segment is parsed back and compared with the frames fed in.
#include "mp4.hh"
#include "AudioFrame.hh"
#include "VideoFrame.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
#include <memory>
using namespace pbt;
const char *pbt::RULE = "runs of AAC frames with ADTS headers (8..8191 bytes, every legal sample rate up to 48 kHz, frame lengths, jitter, gaps, wall-clock bases, streams of days), malformed frames in between, segments cut by duration or forced at any time, "
    "runs that fill the segment buffer by bytes or by count. Non-trivial: at least two segments were generated";
void pbt::setup() { quietLog(); }
namespace {
const int RATES[] = {48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000}; const int IDX[] = {3, 4, 5, 6, 7, 8, 9, 10, 11};
struct F { long pts; uint32_t len; uint64_t seed; };
void fill(unsigned char *p, size_t n, uint64_t s) { for (size_t i = 0; i < n; i += 8) { uint64_t v = splitmix(s); memcpy(p + i, &v, std::min<size_t>(8, n - i)); } }
}
void pbt::property(Gen &g) {
    int ri = g.chance(60) ? (int)g.range(0, 1) : (int)g.range(0, 8); long rate = RATES[ri]; int spf = g.pick({1024, 960, 2048, 512}); if (g.chance(60)) spf = 1024; int ch = (int)g.range(1, 8); int segDur = (int)g.range(1, g.chance(20) ? 10 : 3); bool wall = g.chance(40); long base = wall ? 1400000000000000l + g.range(0, 1000000000000l) : g.chance(30) ? 0 : (long)g.range(0, 10000000); long offs = base;
    if (g.chance(30)) { long back = (long)g.edge(0, g.chance(30) ? 1000000000000l : 10000000l); offs -= std::min(back, offs); } if (!wall && g.chance(30)) offs = 0; bool withVideo = g.chance(30); int kind = g.chance(3) ? (int)g.range(1, 2) : 0; // 1: fill by bytes, 2: by count
    if (kind) withVideo = true; g.log() << rate << "Hz " << spf << "/frame " << segDur << "s off=" << offs << " base=" << base << (withVideo ? " video" : "") << ":";
    static DashSegment *out = new DashSegment(), *init = new DashSegment(); out->clear(); init->clear(); static unsigned char buf[8200]; static InterleavedAudioFrame *big = InterleavedAudioFrame::createNew(2, 48000, 4096, AAC, S16); size_t before = mp4::heap();
    std::unique_ptr<DashAudioSegmenter> seg(new DashAudioSegmenter(std::chrono::seconds(segDur), us(offs))); AudioFrame *in = big; in->setChannels(ch); in->setSampleRate((int)rate); in->setSamples(spf);
    PBT_CHECK(!seg->generateSegment(out, NULL, true) && !seg->generateSegment(out, in) && !seg->appendFrameToDashSegment(NULL), "a segmenter without frames"); if (g.chance(10)) { static VideoFrame *vf = InterleavedVideoFrame::createNew(H264, 10); PBT_CHECK(!seg->manageFrame(vf) && !seg->manageFrame(NULL), "not an audio frame"); }
    auto tb = [&](long m) { return (m - offs) * rate / 1000000; };
    std::vector<F> cur; size_t curBytes = 0; int nseg = 0; long long samples = 0; long start = base; bool full = false; int jit = g.chance(20) ? (int)g.range(1, 15000) : 0; uint64_t jr = 77;
    auto verify = [&](bool forced) {
        PBT_CHECK(out->isComplete() && out->getDataLength() <= MAX_DAT, "segment of %u bytes", out->getDataLength()); mp4::Media m = mp4::media(out->getDataBuffer(), out->getDataLength(), false); long T0 = tb(cur[0].pts);
        PBT_CHECK(m.scale == rate && m.track == 1, "time scale %u track %u", m.scale, m.track); PBT_CHECK(m.seq == (uint32_t)nseg && out->getSeqNumber() == (unsigned)nseg + 1, "sequence number %u / %u of segment %d", m.seq, out->getSeqNumber(), nseg);
        PBT_CHECK(m.s.size() == cur.size(), "%zu samples for %zu frames", m.s.size(), cur.size()); PBT_CHECK(labs((long)m.tfdt - T0) <= 1 && out->getTimestamp() == m.tfdt, "segment starts at %lu (%lu), its first frame at %ld", (unsigned long)m.tfdt, (unsigned long)out->getTimestamp(), T0);
        PBT_CHECK(m.total == cur.size() * (uint64_t)spf && out->getDuration() == m.total, "segment lasts %lu (%u) ticks, %zu frames of %d", (unsigned long)m.total, out->getDuration(), cur.size(), spf); if (!forced) PBT_CHECK((long)m.total >= segDur * rate && (long)m.total - spf < segDur * rate, "segment of %lu ticks for %ld", (unsigned long)m.total, segDur * rate);
        for (size_t s = 0; s < cur.size(); s++) { mp4::Sample &x = m.s[s]; uint32_t L = cur[s].len - 7; fill(buf, L, cur[s].seed); PBT_CHECK(x.size == L && !memcmp(x.p, buf, L), "sample %zu of %u bytes is not the frame of %u", s, x.size, L); PBT_CHECK(x.dur == (uint32_t)spf, "sample %zu lasts %u", s, x.dur); }
        nseg++; cur.clear(); curBytes = 0; out->clear(); g.log() << (forced ? " forced(" : " seg(") << m.s.size() << ")"; full = false; };
    auto force = [&]() { bool got = seg->generateSegment(out, NULL, true); PBT_CHECK(got == !cur.empty(), "a forced segment was%s generated with %zu frames", got ? "" : " not", cur.size()); if (got) verify(true); };
    int runs = (int)g.range(1, kind ? 2 : 8);
    for (int q = 0; q < runs; q++) {
        int n = kind == 1 ? 1500 : kind == 2 ? 66000 : (int)g.edge(1, 200); int lo = kind == 1 ? 7000 : kind == 2 ? 8 : (int)g.edge(8, 8191), hi = kind == 1 ? 8191 : kind == 2 ? 12 : (int)std::min<long>(8191, lo + (long)g.edge(0, 400)); if (!kind && g.chance(60)) { lo = 8; hi = 20; } uint64_t rs = (uint64_t)g.range(0, 0xffff) * 1234567ull + 1; if (g.chance(20)) { start = start + samples * 1000000 / rate + (g.chance(30) ? g.range(0, 90000000000l) : g.range(0, 3000000)); samples = 0; g.log() << " gap"; }
        for (int i = 0; i < n; i++) {
            F f; f.seed = splitmix(rs); f.len = (uint32_t)(lo + splitmix(rs) % (hi - lo + 1)); f.pts = start + (long)(samples * 1000000 / rate) + (jit ? (long)(splitmix(jr) % jit) : 0); samples += spf;
            unsigned char *d = in->getDataBuf(); d[0] = 0xff; d[1] = 0xf1; d[2] = (unsigned char)(1 << 6 | IDX[ri] << 2 | (ch > 7 ? 0 : ch) >> 2); d[3] = (unsigned char)((ch & 3) << 6 | f.len >> 11); d[4] = (unsigned char)(f.len >> 3); d[5] = (unsigned char)(f.len << 5 | 0x1f); d[6] = 0xfc; fill(d + 7, f.len - 7, f.seed); in->setLength(f.len); in->setPresentationTime(us(f.pts));
            Frame *r = seg->manageFrame(in); PBT_CHECK(r == in, "frame %d refused", i); seg->generateInitSegment(init);
            if (!withVideo) { bool got = seg->generateSegment(out, r); bool want = (long)cur.size() * spf >= segDur * rate; PBT_CHECK(got == want, "a segment was%s cut after %ld of %ld ticks", got ? "" : " not", (long)cur.size() * spf, segDur * rate); if (got) verify(false); }
            bool ok = seg->appendFrameToDashSegment(r); size_t need = curBytes + f.len - 7; bool fits = need + 4096 + 8 * (cur.size() + 1) <= MAX_DAT && cur.size() < MAX_MDAT_SAMPLE, fitsSurely = need + 4096 + 16 * (cur.size() + 1) <= MAX_DAT && cur.size() < MAX_MDAT_SAMPLE;
            PBT_CHECK(ok || !fitsSurely, "frame of %u bytes refused with %zu frames, %zu bytes in the segment", f.len, cur.size(), curBytes); PBT_CHECK(!ok || fits || need + 100 <= MAX_DAT, "%zu bytes in %zu frames accepted", need, cur.size() + 1); PBT_CHECK(!ok || cur.size() < MAX_MDAT_SAMPLE, "too many frames"); if (ok) { cur.push_back(f); curBytes = need; } else if (!full) { full = true; g.label("segment full"); }
            if (!kind && rs % 97 == 0) { // malformed frames leave no trace
                unsigned char keep[2] = {d[0], d[1]}; int m = (int)(rs / 97 % 4); if (m == 0) d[0] = 0xfe; else if (m == 1) d[1] = 0xe1; else in->setLength(m == 2 ? 0 : (unsigned)(rs / 7 % 7)); PBT_CHECK(!seg->manageFrame(in), "a frame with header %02x %02x and %u bytes was accepted", d[0], d[1], in->getLength()); d[0] = keep[0]; d[1] = keep[1]; in->setLength(7); Frame *e = seg->manageFrame(in); PBT_CHECK(!e || !seg->appendFrameToDashSegment(e), "a frame without data was stored"); g.label("malformed frame"); }
        }
        if (withVideo ? g.chance(80) : g.chance(10)) force();
        if (!withVideo && g.chance(3)) { PBT_CHECK(seg->flushDashContext(), "flush"); cur.clear(); curBytes = 0; }
    }
    force(); seg.reset(); std::vector<F>().swap(cur); size_t after = mp4::heap(); PBT_CHECK(after < before + 1000000, "%zu bytes are not released with the segmenter", after - before);
    if (nseg >= 2) g.nontrivial(); g.label(fmt("segments: %s", nseg >= 5 ? ">=5" : std::to_string(nseg).c_str()));
}
