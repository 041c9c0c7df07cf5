// C19: the real H.264 and H.265 encoder filters between a source and a sink; what comes out is decoded with libavcodec and compared with what went in.
#define VF_MOCK_DEFINE
#include "videoq.hh"
#include "SlicedVideoFrameQueue.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include <cmath>
using namespace pbt;
const char *pbt::RULE = "sequences of pictures of changing sizes and pixel formats, with increasing timestamps and any static or changing content, through either encoder with configurations (bit rate, rate, key distance, lookahead, B pictures, threads, "
    "in-band headers, preset, key period) set before and changed while running, some invalid, and key frames forced at any time; every output picture is decoded and compared with its input. Non-trivial: at least ten pictures were decoded and compared, with "
    "reordering, a forced or periodic key frame, a change of configuration or of geometry among them";
void pbt::setup() { quietLog(); av_log_set_level(AV_LOG_QUIET); stderr = fopen("/dev/null", "w"); }
namespace {
typedef std::vector<unsigned char> V;
const PixType FM[] = {YUV420P, YUV422P, YUV444P, RGB24};
template <class B> struct Enc : public B { FrameQueue *allocQueue(ConnectionData cd) { return SlicedVideoFrameQueue::createNew(cd, this->outputStreamInfo, 40, 100000); } V extra() { StreamInfo *s = this->outputStreamInfo; return V(s->extradata, s->extradata + s->extradata_size); } };
struct In { long pts; size_t seq; std::chrono::system_clock::time_point org; int w, h; PixType f; V px; int epoch; bool idr, seen; };
struct Au { V d; std::vector<V> nals; std::vector<int> types; long pts, dts; size_t seq; int w, h; };
__attribute__((no_sanitize("address", "undefined"))) int sad(const unsigned char *a, const unsigned char *b, int n) { int e = 0; for (int i = 0; i < n; i++) e += a[i] > b[i] ? a[i] - b[i] : b[i] - a[i]; return e; }
__attribute__((no_sanitize("address", "undefined"))) int off(const unsigned char *a, const unsigned char *b, int n) { int e = 0; for (int i = 0; i < n; i++) e += abs(a[i] - b[i]) > 16; return e; }
int cw(PixType f, int w) { return f == YUV444P || f == RGB24 ? w : (w + 1) / 2; }
int chh(PixType f, int h) { return f == YUV420P ? (h + 1) / 2 : h; }
// a picture that tells which one it is: blocks light or dark, and colours
V draw(PixType f, int w, int h, uint64_t id) {
    int pw = cw(f, w), ph = chh(f, h); V o((size_t)w * h + 2 * (size_t)pw * ph); unsigned char *q = &o[0]; uint64_t s = id * 77 + 5; uint64_t bits = splitmix(s); int n = 4;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; ) { int bx = x * n / w, v = (bits >> (y * n / h * n + bx) & 1 ? 170 : 60) + (x + y) * 20 / (w + h), e = std::min(w, x + 4); while (x < e) *q++ = v, x++; }
    for (int c = 0; c < 2; c++) { int v = 70 + (int)(bits >> (20 + 8 * c) & 127); for (int y = 0; y < ph; y++) { int k = v - (y * 2 > ph ? 20 : 0); memset(q, k, pw / 2); memset(q + pw / 2, k + 20, pw - pw / 2); q += pw; } }
    return o;
}
struct Dec {   // decodes the access units of one stretch beginning with a key frame
    AVCodecContext *c; std::vector<long> out; size_t fed; Dec(bool h265, const V &extra) : fed(0) { c = avcodec_alloc_context3(avcodec_find_decoder(h265 ? AV_CODEC_ID_HEVC : AV_CODEC_ID_H264)); c->thread_count = 1; c->err_recognition = AV_EF_EXPLODE; if (extra.size()) { c->extradata = (uint8_t *)av_mallocz(extra.size() + 64); memcpy(c->extradata, &extra[0], extra.size()); c->extradata_size = extra.size(); } PBT_CHECK(avcodec_open2(c, NULL, NULL) == 0, "decoder"); }
    ~Dec() { avcodec_free_context(&c); }
    void send(const V *d, long pts, std::function<void(AVFrame *)> fn) { AVPacket *p = av_packet_alloc(); if (d) { av_new_packet(p, d->size()); memcpy(p->data, &(*d)[0], d->size()); p->pts = pts; fed++; } int r = avcodec_send_packet(c, d ? p : NULL); av_packet_free(&p); PBT_CHECK(r == 0, "the picture of time %ld cannot be decoded (%d)", pts, r); AVFrame *f = av_frame_alloc(); while ((r = avcodec_receive_frame(c, f)) == 0) { fn(f); av_frame_unref(f); } av_frame_free(&f); PBT_CHECK(r == AVERROR(EAGAIN) || r == AVERROR_EOF, "the stream cannot be decoded (%d)", r); }
};
std::vector<V> split(const V &d) { std::vector<V> r; size_t i = 0, st = 0; bool in = false; for (; i + 3 <= d.size(); i++) if (!d[i] && !d[i + 1] && d[i + 2] == 1) { if (in) { size_t e = i; while (e > st && !d[e - 1]) e--; r.push_back(V(d.begin() + st, d.begin() + e)); } st = i + 3; in = true; i += 2; } if (in) r.push_back(V(d.begin() + st, d.end())); return r; }
}
template <class B> static void run(Gen &g, bool h265) {
    std::unique_ptr<Enc<B>> encp(new Enc<B>()); Enc<B> &enc = *encp; enc.setId(100); const int MW = 112, MH = 96; vid::Src src(YUV444P, MW, MH); src.setId(1); mock::Tail tail(1, false); tail.setId(200); std::vector<Au> aus;
    auto type = [&](const V &n) { return n.empty() ? -1 : h265 ? n[0] >> 1 & 63 : n[0] & 31; };
    tail.fn = [&](std::map<int, Frame *> &f, std::vector<int> nw, int &) { for (int k : nw) { VideoFrame *v = dynamic_cast<VideoFrame *>(f[k]); PBT_CHECK(v->getCodec() == (h265 ? H265 : H264), "codec"); V d(v->getDataBuf(), v->getDataBuf() + v->getLength()); std::vector<V> n = split(d); PBT_CHECK(n.size() == 1, "%zu NAL units in one slice of %zu bytes", n.size(), d.size()); int t = type(n[0]);
            if (t == (h265 ? 35 : 9) || aus.empty() || (h265 && aus.back().seq != v->getSequenceNumber())) aus.push_back(Au()); /* libx265 leaves the first delimiter to the headers */ Au &a = aus.back(); long pts = v->getPresentationTime().count(), dts = v->getDecodeTime().count(); if (a.d.empty()) a.pts = pts, a.dts = dts, a.seq = v->getSequenceNumber(), a.w = v->getWidth(), a.h = v->getHeight(); else PBT_CHECK(a.pts == pts && a.dts == dts && a.seq == v->getSequenceNumber(), "the slices of a picture carry different times"); a.d.insert(a.d.end(), d.begin(), d.end()); a.nals.push_back(n[0]); a.types.push_back(t);
            }
        return true; };
    PBT_CHECK(src.connectOneToOne(&enc) && enc.connectOneToOne(&tail), "connection refused");
    // configuration, as modelled
    int br = 2000, fps = 25, gop = 25, look = 25, bf = 4, th = 4, gt = 0; bool annexb = true, reopen = true; std::string preset = "ultrafast"; long ft = 40000, syncTs = 0; long ref = 0; bool refSet = false; bool special = false;
    static const char *PRE[] = {"ultrafast", "superfast", "veryfast", "faster", "fast", "medium"};
    auto conf = [&](bool bad) { int nbr = g.pick({1000, 2000, 4000, 8000}), nfps = g.chance(60) ? 0 : (int)g.edge(1, 60), ngop = (int)g.edge(1, g.chance(50) ? 10 : 60), nl = g.chance(40) ? 0 : (int)g.edge(0, 20), nb = g.chance(40) ? 0 : !h265 && g.chance(8) ? -1 : (int)g.edge(0, 4), nt = (int)g.range(1, 3), ngt = g.chance(70) ? 0 : (int)g.edge(1, 3000000); bool na = g.chance(70); std::string np = PRE[g.range(0, h265 ? 2 : 5)];
        if (bad) switch (g.range(0, 4)) { case 0: nbr = -(int)g.range(0, 5); break; case 1: ngop = -(int)g.range(0, 5); break; case 2: nl = -(int)g.range(1, 5); break; case 3: nt = -(int)g.range(0, 4); break; default: np = ""; }
        if (!bad && g.chance(3)) nfps = -3; if (!bad && g.chance(3)) ngt = -5;
        bool all = bad || g.chance(60); Jzon::Object root, p; auto has = [&]() { return g.chance(40); }; if (all) enc.configure(nbr, nfps, ngop, nl, nb, nt, na, np, ngt); else { root.Add("action", "configure"); if (has()) p.Add("bitrate", nbr); else nbr = br; if (has()) p.Add("fps", nfps); else nfps = ft ? fps : 0; if (has()) p.Add("gop", ngop); else ngop = gop; if (has()) p.Add("lookahead", nl); else nl = look; if (has()) p.Add("bframes", nb); else nb = bf; if (has()) p.Add("threads", nt); else nt = th; if (has()) p.Add("annexb", na); else na = annexb; if (has()) p.Add("preset", np); else np = preset; if (has()) p.Add("gopTime", ngt); else ngt = gt; root.Add("params", p); Event e(root, std::chrono::system_clock::now(), 0); enc.pushEvent(e); }
        g.log() << fmt(" cfg%s br%d fps%d gop%d look%d b%d t%d %s %s gt%d", bad ? "(bad)" : "", nbr, nfps, ngop, nl, nb, nt, na ? "annexb" : "-", np.c_str(), ngt);
        if (bad) return; br = nbr; gop = ngop; look = nl; bf = nb; th = nt; annexb = na; preset = np; if (nfps <= 0) { fps = 25; ft = 0; } else { fps = nfps; ft = 1000000 / fps; } gt = ngt > 0 ? std::max(ngt, 1000000) : 0; reopen = true; };
    std::vector<In> ins; std::vector<std::pair<int, int>> gops; std::vector<int> bfs; int bRun = 0; std::vector<V> extras; std::map<long, size_t> byPts; std::map<int, int> delay; int epoch = -1, r, w = 64, h = 48; PixType f = YUV420P; long ts = g.chance(50) ? (long)g.range(1, 100000) : 1600000000000000L; bool force = false; uint64_t id = g.raw(1 << 20); int maxDelay = 0; size_t passed = 0; bool valid = true; size_t frames = 0;
    auto size = [&]() { w = 2 * (int)g.range(h265 ? 32 : 8, MW / 2); h = 2 * (int)g.range(h265 ? 32 : 8, MH / 2); }; size(); if (g.chance(70)) conf(false);
    auto feed = [&](bool small) {
        V px = draw(f, w, h, id); if (!small && g.chance(80)) id++; else if (small) id++; long step = small ? std::max(2 * ft, 40000L) : ft ? (g.chance(85) ? ft : (long)g.range(1, 3 * ft)) : (long)g.range(1, g.chance(10) ? 2500000 : 60000); ts += step; auto org = std::chrono::system_clock::now();
        src.fn = [&](VideoFrame *v) { memcpy(v->getDataBuf(), &px[0], px.size()); v->setLength((unsigned)px.size()); v->setSize(w, h); v->setPixelFormat(f); v->setPresentationTime(us(ts)); v->setDecodeTime(NO_DTS); v->setOriginTime(org); return true; }; src.processFrame(r); size_t seq = frames++; 
        bool pass = true; if (ft) { if (ts > syncTs + ft) syncTs = ts; else if (ts < syncTs) pass = false; else syncTs += ft; }
        bool ok = f != RGB24 && (!h265 || (f != YUV422P && (!bf || look > bf))); /* what libx265 takes */ g.log() << fmt(" %ld%s", (long)id, pass ? "" : "(late)");
        if (pass && ok) { if (reopen || ins.empty() || !valid || ins.back().w != w || ins.back().h != h || ins.back().f != f) { epoch++; reopen = false; gops.push_back(std::make_pair(gop, !h265 && !look && !bf && th == 1 ? 0 /* one picture is under way */ : look + std::max(bf, 3) + th + 20)); bfs.push_back(bf); } valid = true; bool idr = force; force = false; if (gt > 0) { if (!refSet) { ref = ts; refSet = true; } if (ts >= ref) { idr = true; ref += gt; } } In in = {ts, seq, org, w, h, f, px, epoch, idr, false}; byPts[ts] = ins.size(); ins.push_back(in); passed++; if (idr) special = true; }
        else if (pass) valid = false;
        size_t before = aus.size(); enc.processFrame(r); for (int k = 0; k < 40; k++) tail.processFrame(r); PBT_CHECK(aus.size() <= before + 1, "%zu pictures out for one in", aus.size() - before); PBT_CHECK(pass && ok ? true : aus.size() == before, "an output for a picture that is not to be encoded"); while (extras.size() < aus.size()) extras.push_back(enc.extra());
    };
    int ops = (int)g.range(1, h265 ? 25 : 50);
    for (int k = 0; k < ops; k++) {
        int op = (int)g.range(0, 19);
        if (op < 15) feed(false);
        else if (op == 15) { Jzon::Object o; o.Add("action", "forceIntra"); Event e(o, std::chrono::system_clock::now(), 0); enc.pushEvent(e); force = true; g.log() << " force"; }
        else if (op == 16 && g.chance(h265 ? 20 : 40)) { if (g.chance(70)) size(); if (g.chance(40)) f = FM[g.chance(15) ? 3 : g.range(0, 2)]; special = true; g.log() << fmt(" geo %dx%d f%d", w, h, f); }
        else if (op == 17 && g.chance(h265 ? 20 : 50)) { conf(g.chance(15)); special = true; }
        else if (op == 18 && g.chance(20)) { long t = ts + (long)g.edge(1, 5000000); Jzon::Object o, p; o.Add("action", "gopReferenceTime"); bool bad = g.chance(20); p.Add("referenceTime", bad ? std::string("soon") : std::to_string(t)); o.Add("params", p); Event e(o, std::chrono::system_clock::now(), 0); enc.pushEvent(e); if (!bad) { ref = t; refSet = true; } }
        else feed(false);
    }
    if (f == RGB24 || (h265 && f == YUV422P)) f = YUV420P; if (h265 && look <= bf) { Jzon::Object o, p; o.Add("action", "configure"); p.Add("bframes", 0); o.Add("params", p); Event e(o, std::chrono::system_clock::now(), 0); enc.pushEvent(e); bf = 0; reopen = true; } feed(true); size_t mark = ins.size(); int lim = look + std::max(bf, 3) + th + 40; auto have = [&]() { size_t n = 0; for (auto &a : aus) n += byPts.count(a.pts) && byPts[a.pts] < mark; size_t want = 0; for (size_t i = 0; i < mark; i++) want += ins[i].epoch == epoch; size_t m = 0; for (auto &a : aus) m += byPts.count(a.pts) && byPts[a.pts] < mark && ins[byPts[a.pts]].epoch == epoch; return m >= want; };
    if (!ins.empty()) for (int k = 0; k < lim * 3 && !have(); k++) feed(true);
    // everything that came out, decoded
    long lastDts = LONG_MIN; std::unique_ptr<Dec> dec; std::vector<size_t> pend; size_t decoded = 0; int cur = -1; long lastPts = -1; size_t lastKey = 0; bool reorder = false;
    auto got = [&](AVFrame *fr) { PBT_CHECK(byPts.count(fr->pts), "decoded time"); In &in = ins[byPts[fr->pts]]; PBT_CHECK(fr->pts > lastPts, "pictures come out of the decoder out of order"); lastPts = fr->pts; decoded++; bRun = fr->pict_type == AV_PICTURE_TYPE_B ? bRun + 1 : 0; PBT_CHECK(bfs[in.epoch] < 0 || bRun <= bfs[in.epoch], "%d B pictures in a row, configured %d", bRun, bfs[in.epoch]); PBT_CHECK(fr->width == in.w && fr->height == in.h, "decoded picture is %dx%d, the input %dx%d", fr->width, fr->height, in.w, in.h); AVPixelFormat want = in.f == YUV420P ? AV_PIX_FMT_YUV420P : in.f == YUV422P ? AV_PIX_FMT_YUV422P : AV_PIX_FMT_YUV444P; PBT_CHECK(fr->format == want, "decoded pixel format %d, the input has %d", fr->format, want); const unsigned char *p = &in.px[0];
        for (int c = 0; c < 3; c++) { int pw = c ? cw(in.f, in.w) : in.w, ph = c ? chh(in.f, in.h) : in.h; double e = 0, far = 0; for (int y = 0; y < ph; y++) { e += sad(fr->data[c] + y * fr->linesize[c], p, pw); far += off(fr->data[c] + y * fr->linesize[c], p, pw); p += pw; } e /= pw * ph; far /= pw * ph; /* at a quantiser near 0 libx264 spoils single macroblocks */ PBT_CHECK(e < 14 || (e < 35 && far < 0.35), "plane %d of the picture at %ld differs from its input by %.1f on average", c, in.pts, e); } };
    for (size_t i = 0; i < aus.size(); i++) {
        Au &a = aus[i]; PBT_CHECK(byPts.count(a.pts), "a picture of time %ld, which no input has", a.pts); In &in = ins[byPts[a.pts]]; PBT_CHECK(!in.seen, "the input of time %ld was encoded twice", a.pts); in.seen = true; PBT_CHECK(a.seq == in.seq, "sequence number %zu, the input has %zu", a.seq, in.seq); PBT_CHECK(a.w == in.w && a.h == in.h, "a picture declared %dx%d, the input is %dx%d", a.w, a.h, in.w, in.h); PBT_CHECK(a.dts <= a.pts, "decode time %ld after presentation time %ld", a.dts, a.pts); PBT_CHECK(a.dts >= lastDts, "decode time %ld after %ld", a.dts, lastDts); PBT_CHECK(a.dts >= ins[0].pts, "decode time %ld is before the first input at %ld", a.dts, ins[0].pts); lastDts = a.dts; if (a.pts != a.dts) reorder = true; PBT_CHECK(bfs[in.epoch] || a.pts == a.dts, "a picture at %ld is decoded at %ld though there are no B pictures", a.pts, a.dts);
        bool key = false; int sets = 0; for (int t : a.types) { if (h265 ? t >= 16 && t <= 21 : t == 5) key = true; if (h265 ? t >= 32 && t <= 34 : t == 7 || t == 8) sets |= h265 ? 1 << (t - 32) : 2 << (t - 7); }
        PBT_CHECK(in.epoch >= cur, "a picture from before the change of configuration"); if (in.epoch != cur) { PBT_CHECK(key, "the first picture after a change of configuration is not a key frame"); cur = in.epoch; lastKey = byPts[a.pts]; }
        if (in.idr) PBT_CHECK(key, "the picture at %ld, for which a key frame was asked, is none", a.pts);
        PBT_CHECK(i || key, "the stream does not start with a key frame"); size_t idx = byPts[a.pts]; if (key) { PBT_CHECK(idx >= lastKey && (int)(idx - lastKey) <= gops[in.epoch].first, "%zu pictures between key frames, configured %d", idx - lastKey, gops[in.epoch].first); lastKey = idx; } else PBT_CHECK((int)(idx - lastKey) < gops[in.epoch].first || idx < lastKey, "no key frame for %zu pictures, configured %d", idx - lastKey, gops[in.epoch].first);
        if (key) { if (dec) dec->send(NULL, 0, got); bool inband = sets == (h265 ? 7 : 6); PBT_CHECK(inband || extras[i].size(), "no parameter sets before a key frame"); dec.reset(new Dec(h265, inband ? V() : extras[i])); }
        dec->send(&a.d, a.pts, got);
    }
    if (dec) dec->send(NULL, 0, got); PBT_CHECK(decoded == aus.size(), "%zu pictures came out, %zu can be decoded", aus.size(), decoded);
    // every input came out, but for those under way when the encoder was opened anew
    std::map<int, size_t> first; std::map<int, size_t> last; for (size_t i = 0; i < ins.size(); i++) { if (!first.count(ins[i].epoch)) first[ins[i].epoch] = i; last[ins[i].epoch] = i; } size_t lost = 0;
    for (size_t i = 0; i < ins.size(); i++) if (!ins[i].seen) { if (ins[i].epoch == epoch) PBT_CHECK(i >= mark, "the picture at %ld was never put out, %zu pictures followed", ins[i].pts, ins.size() - i); else { PBT_CHECK((int)(last[ins[i].epoch] - i) <= gops[ins[i].epoch].second, "the picture at %ld was never put out, though %zu pictures followed before the configuration changed", ins[i].pts, last[ins[i].epoch] - i); lost++; } }
    if (lost) g.knownSeen("encoder-reopened", fmt("%zu pictures under way in the encoder are lost when it is configured anew", lost));
    if (decoded >= 10 && (special || reorder)) g.nontrivial(); g.label(h265 ? "h265" : "h264"); if (reorder) g.label("reordered"); if (epoch > 0) g.label("reconfigured");
    encp.reset();
}
void pbt::property(Gen &g) { if (g.chance(25)) run<VideoEncoderX265>(g, true); else run<VideoEncoderX264>(g, false); }
