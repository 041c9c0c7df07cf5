// C16: init segments of the real segmenters, parsed box by box, for arbitrary parameter sets / ADTS headers arriving in arbitrary order.
#include "mp4.hh"
#include "AudioFrame.hh"
#include "VideoFrame.hh"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
#include <memory>
using namespace pbt;
const char *pbt::RULE = "access units carrying any number of SPS/PPS/VPS (1..2000 bytes, any content, order, repetition, partial sets), any picture size including none and its changes; AAC frames with any ADTS profile, rate index (up to 64 kHz) and channel configuration, changing at any time. "
    "Non-trivial: at least two init segments with different contents were generated";
void pbt::setup() { quietLog(); }
namespace {
typedef std::vector<unsigned char> V;
const int RATE[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
std::string hex(const unsigned char *p, size_t n) { std::string s; for (size_t i = 0; i < n && i < 16; i++) s += fmt("%02x ", p[i]); return s; }
// everything but the sample entry
const mp4::Box *common(const mp4::Box &f, bool video, uint32_t scale, int w, int h, mp4::Box &keep) {
    keep = f; PBT_CHECK(f.names() == "ftyp moov", "init boxes '%s'", f.names().c_str()); const mp4::Box &mv = f.need("moov"); const mp4::Box &mh = mv.need("mvhd"), &tk = mv.need("trak"), &ex = mv.need("mvex"); PBT_CHECK(mv.kids.size() == 3, "moov: %s", mv.names().c_str()); PBT_CHECK(mh.n == 100 && mh.u(0, 1) == 0 && mh.u(12, 4) > 0, "mvhd of %zu bytes, time scale %u", mh.n, (unsigned)mh.u(12, 4));
    mp4::fixed(f, video);
    const mp4::Box &tx = ex.need("trex"); PBT_CHECK(tx.n == 24 && tx.u(4, 4) == 1 && tx.u(8, 4) == 1 && tx.u(16, 4) == 0, "trex"); if (video) PBT_CHECK(tx.u(12, 4) == 0, "default sample duration %u", (unsigned)tx.u(12, 4));
    const mp4::Box &th = tk.need("tkhd"), &md = tk.need("mdia"); PBT_CHECK(th.n == 84 && (th.u(0, 4) & 1) && th.u(12, 4) == 1, "tkhd of %zu bytes, track %u", th.n, (unsigned)th.u(12, 4)); PBT_CHECK(th.u(76, 4) == (uint32_t)w << 16 && th.u(80, 4) == (uint32_t)h << 16, "track size %ux%u for %dx%d", (unsigned)th.u(76, 4) >> 16, (unsigned)th.u(80, 4) >> 16, w, h);
    const mp4::Box &dh = md.need("mdhd"), &hd = md.need("hdlr"), &mi = md.need("minf"); PBT_CHECK(dh.n == 24 && dh.u(12, 4) == scale, "media time scale %u, expected %u", (unsigned)dh.u(12, 4), scale); PBT_CHECK(hd.n >= 24 && !memcmp(hd.p + 8, video ? "vide" : "soun", 4), "handler"); PBT_CHECK(mi.kid(video ? "vmhd" : "smhd") && mi.kids.size() == 3, "minf: %s", mi.names().c_str());
    const mp4::Box &dr = mi.need("dinf").need("dref"); PBT_CHECK(dr.kids.size() == dr.u(4, 4) && dr.kids.size() == 1 && dr.kids[0].t == "url ", "dref");
    const mp4::Box &st = mi.need("stbl"); for (const char *e : {"stts", "stsc", "stco"}) PBT_CHECK(st.need(e).n == 8 && st.need(e).u(4, 4) == 0, "%s is not empty", e); PBT_CHECK(st.need("stsz").n == 12 && st.need("stsz").u(8, 4) == 0, "stsz is not empty"); const mp4::Box &sd = st.need("stsd"); PBT_CHECK(sd.u(4, 4) == 1 && sd.kids.size() == 1, "%zu sample entries", sd.kids.size()); PBT_CHECK(sd.kids[0].u(6, 2) == 1, "data reference index"); return &sd.kids[0]; }
void arr(const unsigned char *&p, const unsigned char *e, int lenBytesCount, const V &v, const char *what) { PBT_CHECK(e - p >= 2, "%s is missing", what); (void)lenBytesCount; size_t L = p[0] << 8 | p[1]; p += 2; PBT_CHECK(L == v.size() && (size_t)(e - p) >= L && !memcmp(p, &v[0], L), "%s of %zu bytes, the stream's has %zu (or they differ)", what, L, v.size()); p += L; }
void video(Gen &g) {
    bool hevc = g.chance(50); static DashSegment *init = new DashSegment(); init->clear(); static V buf(4096); size_t before = mp4::heap();
    DashVideoSegmenterHEVC *sh = hevc ? new DashVideoSegmenterHEVC(std::chrono::seconds(2), us(0)) : NULL; DashVideoSegmenterAVC *sa = hevc ? NULL : new DashVideoSegmenterAVC(std::chrono::seconds(2), us(0)); DashVideoSegmenter *seg = hevc ? (DashVideoSegmenter *)sh : (DashVideoSegmenter *)sa; std::unique_ptr<DashSegmenter> own(hevc ? (DashSegmenter *)sh : (DashSegmenter *)sa);
    std::unique_ptr<VideoFrame> in(InterleavedVideoFrame::createNew(hevc ? H265 : H264, 4096)); V vps, sps, pps, ev, es, ep; bool pend = false; int gens = 0; std::set<uint64_t> kinds; int W = 640, H = 360; long t = 0; int n = (int)g.range(1, 20); g.log() << (hevc ? "hevc" : "avc") << ":"; bool haveAu = false, everAu = false; int auW = 0, auH = 0;
    PBT_CHECK(!seg->generateInitSegment(init), "an init segment without data");
    auto nal = [&](const V &raw, bool first) { // returns whether an access unit came out
        in->setLength(0); unsigned char *d = in->getDataBuf(); size_t o = 0; if (g.chance(70)) { if (g.chance(50)) d[o++] = 0; d[o++] = 0; d[o++] = 0; d[o++] = 1; } memcpy(d + o, &raw[0], raw.size()); in->setLength((unsigned)(o + raw.size())); in->setSize(W, H); in->setPresentationTime(us(t));
        Frame *f = seg->manageFrame(in.get());
        PBT_CHECK(!!f == (first && haveAu), "access unit %s", f ? "came out early" : "did not come out"); int aw = auW, ah = auH;
        int ty = hevc ? raw[0] >> 1 & 63 : raw[0] & 31; if (hevc && ty == 32) vps = raw; if (ty == (hevc ? 33 : 7) && (hevc || raw.size() >= 4)) sps = raw; if (ty == (hevc ? 34 : 8)) pps = raw;
        if (!sps.empty() && !pps.empty() && (!hevc || !vps.empty())) { ev = vps; es = sps; ep = pps; vps.clear(); sps.clear(); pps.clear(); pend = true; }
        if (!f) { if (g.chance(5) && !everAu) PBT_CHECK(!seg->generateInitSegment(init), "an init segment before any picture"); return; }
        bool got = seg->generateInitSegment(init); bool want = pend && aw > 0 && ah > 0; PBT_CHECK(got == want, "an init segment was%s generated: %s, picture %dx%d", got ? "" : " not", pend ? "complete parameter sets arrived since the last one" : "no complete parameter sets since the last one", aw, ah); if (!got) return;
        PBT_CHECK(!seg->generateInitSegment(init), "the same init segment twice"); pend = false; gens++; static V copy; copy.assign(init->getDataBuffer(), init->getDataBuffer() + init->getDataLength()); mp4::Box f0 = mp4::file(&copy[0], copy.size()), keep; const mp4::Box *e = common(f0, true, 12800, aw, ah, keep);
        PBT_CHECK(hevc ? e->t == "hev1" || e->t == "hvc1" : e->t == "avc1" || e->t == "avc3", "sample entry '%s'", e->t.c_str()); PBT_CHECK((int)e->u(24, 2) == aw && (int)e->u(26, 2) == ah, "sample entry %dx%d for %dx%d", (int)e->u(24, 2), (int)e->u(26, 2), aw, ah);
        kinds.insert(fnv(&copy[0], copy.size())); g.log() << " init(" << es.size() << "," << ep.size() << ")";
        const mp4::Box &c = e->need(hevc ? "hvcC" : "avcC"); const unsigned char *p = c.p, *q = c.p + c.n;
        if (!hevc) { PBT_CHECK(c.n >= 6 && p[0] == 1 && (p[4] & 3) == 3 && (p[5] & 31) == 1, "avcC %s", hex(p, c.n).c_str()); bool right = !memcmp(p + 1, &es[1], 3); if (!right) { std::string m = fmt("profile/level bytes %s in avcC, the SPS starts with %s", hex(p + 1, 3).c_str(), hex(&es[0], 4).c_str()); if (!memcmp(p + 1, &es[0], 3)) g.knownSeen("avcc-profile", m); else fail(m); } p += 6; arr(p, q, 2, es, "SPS"); PBT_CHECK(p < q && *p == 1, "number of PPS"); p++; arr(p, q, 2, ep, "PPS"); PBT_CHECK(p == q, "%zu bytes after the parameter sets", (size_t)(q - p)); }
        else { PBT_CHECK(c.n >= 23 && p[0] == 1 && (p[21] & 3) == 3 && p[22] == 3, "hvcC %s", hex(p, c.n).c_str()); p += 23; const V *a[3] = {&ev, &es, &ep}; const char *nm[3] = {"VPS", "SPS", "PPS"}; for (int k = 0; k < 3; k++) { PBT_CHECK(q - p >= 3 && (p[0] & 63) == 32 + k && p[1] == 0 && p[2] == 1, "%s array", nm[k]); p += 3; arr(p, q, 2, *a[k], nm[k]); } PBT_CHECK(p == q, "%zu bytes after the parameter sets", (size_t)(q - p)); }
    };
    auto mk = [&](int type, size_t len) { V r = g.bytes(std::max<size_t>(1, len)); r[0] = hevc ? (unsigned char)(type << 1) : (unsigned char)(0x60 | type); if (hevc && r.size() > 1) r[1] = 1; return r; };
    for (int i = 0; i < n; i++) {
        t += 40000; bool aud = g.chance(70), first = true; if (g.chance(20)) { W = g.chance(10) ? 0 : (int)g.edge(1, 8192); H = g.chance(10) ? 0 : (int)g.edge(1, 8192); } auto one = [&](const V &r) { nal(r, first); first = false; };
        if (aud) one(mk(hevc ? 35 : 9, 2)); int np = g.chance(60) ? (int)g.range(0, 6) : 0; if (i == 0 && g.chance(70)) np = 3; for (int k = 0; k < np; k++) { int ty = i == 0 && np == 3 ? 32 + k : (int)g.range(32, 34); if (!hevc) ty = ty == 32 ? 6 : ty == 33 ? 7 : 8; size_t L = g.chance(5) ? (size_t)g.range(1, 5) : g.chance(5) ? (size_t)g.range(300, 2000) : (size_t)g.range(4, 60); if (hevc && L < 2) L = 2; one(mk(ty, L)); }
        bool key = i == 0 || g.chance(30); if (g.chance(95)) { one(mk(key ? (hevc ? 19 : 5) : 1, (size_t)g.range(3, 40))); haveAu = everAu = true; auW = W; auH = H; } else if (!first || aud) { if (!first) { haveAu = false; } }
    }
    own.reset(); in.reset(); PBT_CHECK(mp4::heap() < before + 1000000, "%zu bytes are not released", mp4::heap() - before); if (kinds.size() >= 2) g.nontrivial(); g.label(fmt("inits: %s", gens >= 5 ? ">=5" : std::to_string(gens).c_str()));
}
void audio(Gen &g) {
    static DashSegment *init = new DashSegment(); init->clear(); static InterleavedAudioFrame *in = InterleavedAudioFrame::createNew(2, 48000, 2048, AAC, S16); size_t before = mp4::heap(); std::unique_ptr<DashAudioSegmenter> seg(new DashAudioSegmenter(std::chrono::seconds(2), us(0))); PBT_CHECK(!seg->generateInitSegment(init), "an init segment without data");
    int prof = 1, idx = 3, cc = 2; std::set<uint64_t> kinds; int n = (int)g.range(1, 20); bool changed = true; g.log() << "aac:"; int gens = 0;
    for (int i = 0; i < n; i++) {
        if (g.chance(40)) { int a = (int)g.range(0, 3), b = (int)g.range(2, 12), c = (int)g.range(0, 7); if (a != prof || b != idx || c != cc) changed = true; prof = a; idx = b; cc = c; }
        unsigned L = (unsigned)g.range(8, 200); unsigned char *d = in->getDataBuf(); for (unsigned k = 0; k < L; k++) d[k] = (unsigned char)(k * 13); d[0] = 0xff; d[1] = 0xf1; d[2] = (unsigned char)(prof << 6 | idx << 2 | g.range(0, 1) << 1 | cc >> 2); d[3] = (unsigned char)((cc & 3) << 6 | g.range(0, 15) << 2 | L >> 11); d[4] = (unsigned char)(L >> 3); d[5] = (unsigned char)(L << 5 | 0x1f); d[6] = 0xfc; in->setLength(L); int chn = cc == 7 ? 8 : cc ? cc : 2; int rate = RATE[idx]; int spf = g.pick({1024, 960}); in->setChannels(chn); in->setSampleRate(rate); in->setSamples(spf); in->setPresentationTime(us(i * 21333l));
        Frame *f = seg->manageFrame(in); PBT_CHECK(f == in, "frame refused"); PBT_CHECK((int)seg->getSampleRate() == rate && (int)seg->getChannels() == chn, "segmenter says %u Hz, %u channels", seg->getSampleRate(), seg->getChannels()); if (g.chance(20)) continue; // the caller may be late
        bool got = seg->generateInitSegment(init); PBT_CHECK(got || !changed, "no init segment for a new audio configuration"); if (!got) continue; changed = false; gens++; PBT_CHECK(!seg->generateInitSegment(init), "the same init segment twice");
        static V copy; copy.assign(init->getDataBuffer(), init->getDataBuffer() + init->getDataLength()); mp4::Box f0 = mp4::file(&copy[0], copy.size()), keep; const mp4::Box *e = common(f0, false, (uint32_t)rate, 0, 0, keep); kinds.insert(fnv(&copy[0], copy.size())); PBT_CHECK(e->t == "mp4a" && (int)e->u(16, 2) == chn && (int)e->u(18, 2) == 16 && (int)e->u(24, 2) == rate, "mp4a: %d channels of %d bits at %d Hz for %d at %d", (int)e->u(16, 2), (int)e->u(18, 2), (int)e->u(24, 2), chn, rate); PBT_CHECK(f0.need("moov").need("mvex").need("trex").u(12, 4) == (uint64_t)spf, "default sample duration");
        const mp4::Box &s = e->need("esds"); const unsigned char *p = s.p + 4, *q = s.p + s.n; PBT_CHECK(s.n >= 4 + 5 && p[0] == 3 && p[1] == q - p - 2 && p[4] == 0, "esds %s", hex(p, q - p).c_str()); p += 5; PBT_CHECK(q - p > 2 && p[0] == 4 && p[1] <= q - p - 2 && p[2] == 0x40 && p[3] >> 2 == 5, "decoder config %s", hex(p, q - p).c_str()); const unsigned char *dc = p + 2 + p[1]; p += 15; PBT_CHECK(dc - p >= 4 && p[0] == 5 && p[1] == dc - p - 2 && p[1] == 2, "specific info %s", hex(p, q - p).c_str());
        int v = p[2] << 8 | p[3]; PBT_CHECK(v >> 11 == prof + 1 && (v >> 7 & 15) == idx && (v >> 3 & 15) == cc, "audio config %04x: object type %d, rate index %d, channels %d for %d, %d, %d", v, v >> 11, v >> 7 & 15, v >> 3 & 15, prof + 1, idx, cc); PBT_CHECK((v & 7) == 0, "audio config flags"); p = dc; PBT_CHECK(q - p == 3 && p[0] == 6 && p[1] == 1 && p[2] == 2, "SL config"); g.log() << fmt(" %04x", v);
    }
    seg.reset(); PBT_CHECK(mp4::heap() < before + 1000000, "%zu bytes are not released", mp4::heap() - before); if (kinds.size() >= 2) g.nontrivial(); g.label(fmt("audio inits: %s", gens >= 5 ? ">=5" : std::to_string(gens).c_str()));
}
}
void pbt::property(Gen &g) { if (g.chance(40)) audio(g); else video(g); }
