// C12: the real video resampler between a source and a sink; pictures are compared with an independent scaling of the source picture.
#define VF_MOCK_DEFINE
#include "videoq.hh"
#include "modules/videoResampler/VideoResampler.hh"
#include <cmath>
using namespace pbt;
const char *pbt::RULE = "source pictures of changing sizes, pixel formats and contents with valid, invalid and impossible configurations at any time, with or without an output frame rate; every output is compared with a fresh "
    "libswscale conversion of its source, its length with an independent table, flat grey pictures with the grey they show. Non-trivial: at least two output geometries or formats, one of them scaled, were checked";
void pbt::setup() { quietLog(); av_log_set_level(AV_LOG_QUIET); }
namespace {
enum { MW = 96, MH = 72, MAXB = MW * MH * 3 };
struct Rs : public VideoResampler { FrameQueue *allocQueue(ConnectionData cd) { return new vid::VQ(cd, RGB24, MW, MH, 4); } };
const PixType FM[] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P};
AVPixelFormat av(PixType p) { switch (p) { case RGB24: return AV_PIX_FMT_RGB24; case RGB32: return AV_PIX_FMT_RGB32; case YUV420P: return AV_PIX_FMT_YUV420P; case YUV422P: return AV_PIX_FMT_YUV422P; case YUV444P: return AV_PIX_FMT_YUV444P; case YUYV422: return AV_PIX_FMT_YUYV422; case YUVJ420P: return AV_PIX_FMT_YUVJ420P; default: return AV_PIX_FMT_NONE; } }
long lenOf(PixType p, long w, long h) { long cw = (w + 1) / 2, ch = (h + 1) / 2; switch (p) { case RGB24: return w * h * 3; case RGB32: return w * h * 4; case YUV420P: case YUVJ420P: return w * h + 2 * cw * ch; case YUV422P: return w * h + 2 * cw * h; case YUV444P: return w * h * 3; case YUYV422: return cw * 4 * h; default: return -1; } }
// a flat grey picture of luma level v (0..255 full range) in format p
void grey(PixType p, int w, int h, int v, std::vector<unsigned char> &o) {
    o.assign(lenOf(p, w, h), 128); int y = p == YUVJ420P ? v : (int)(16 + v * 219 / 255.0 + .5); size_t n = (size_t)w * h;
    switch (p) { case RGB24: std::fill(o.begin(), o.end(), v); break; case RGB32: for (size_t i = 0; i < o.size(); i++) o[i] = i % 4 == 3 ? 255 : v; break;
        case YUYV422: for (size_t i = 0; i < o.size(); i += 2) o[i] = y; break; default: std::fill(o.begin(), o.begin() + n, y); }
}
}
void pbt::property(Gen &g) {
    Rs rs; rs.setId(100); vid::Src src(RGB32, MW, MH); src.setId(1); mock::Tail tail(1, false); tail.setId(200); std::vector<vid::Pic> got;
    tail.fn = [&](std::map<int, Frame *> &f, std::vector<int> n, int &) { for (int k : n) got.push_back(vid::grab(f[k], -1)); return true; };
    PBT_CHECK(src.connectOneToOne(&rs) && rs.connectOneToOne(&tail), "connection refused");
    int ow = 0, oh = 0; PixType of = RGB24; long ft = 0, syncTs = 0, ts = (long)g.range(0, 1000000), dts; size_t seq = 0; int r; int sw = 32, sh = 24; PixType sf = RGB24; std::set<std::vector<int>> geo; bool scaled = false;
    int ops = (int)g.range(3, 40);
    for (int k = 0; k < ops; k++) {
        int what = (int)g.range(0, 9);
        if (what < 7) {
            if (g.chance(35)) { sw = (int)g.edge(1, MW); sh = (int)g.edge(1, MH); if (g.chance(50)) { sw = 16 * (int)g.range(1, 6); sh = 16 * (int)g.range(1, 4); } } if (g.chance(30)) sf = FM[g.range(0, 6)];
            if (g.chance(6)) { g.log() << " unknown-format"; }
            int level = g.chance(30) ? (int)g.range(0, 255) : -1; std::vector<unsigned char> px = g.bytes((size_t)lenOf(sf, sw, sh)); if (level >= 0) grey(sf, sw, sh, level, px);
            ts += g.chance(10) ? -(long)g.range(0, 60000) : (long)g.range(1, 60000); if (ts < 3) ts = 3; bool d = g.chance(60); dts = ts - (long)g.range(0, 3); bool unk = g.chance(3);
            src.fn = [&](VideoFrame *f) { memcpy(f->getDataBuf(), &px[0], px.size()); f->setLength((unsigned)px.size()); f->setSize(sw, sh); f->setPixelFormat(unk ? P_NONE : sf); f->setPresentationTime(us(ts)); f->setDecodeTime(d ? us(dts) : NO_DTS); return true; };
            auto t0 = std::chrono::system_clock::now(); src.processFrame(r); auto t1 = std::chrono::system_clock::now(); long fts = d ? dts : ts; bool pass = true; if (ft) { if (fts > syncTs + ft) syncTs = fts; else if (fts < syncTs) pass = false; else syncTs += ft; }
            int w = ow ? ow : sw, h = oh ? oh : sh; long len = lenOf(of, w, h);
            g.log() << fmt(" f%d %dx%d%s@%ld->f%d %dx%d%s", sf, sw, sh, level >= 0 ? "g" : "", ts, of, w, h, pass ? "" : "(late)");
            // reference conversion
            SwsContext *cx = sws_getContext(sw, sh, av(sf), w, h, av(of), SWS_FAST_BILINEAR, 0, 0, 0); bool produces = pass && !unk && cx && len <= MAXB;
            // two references that differ only in what lies after the picture in memory and in the output before: the scaler may look at a few bytes there and leaves odd last columns alone; such output bytes are not compared
            std::vector<unsigned char> ref, ref2;
            for (int pad = 0; produces && pad < 2; pad++) { std::vector<unsigned char> &o = pad ? ref2 : ref; o.assign(len + 64, pad ? 255 : 0); uint8_t *sd[4], *dd[4]; int sl[4], dl[4]; std::vector<unsigned char> in(px); in.resize(in.size() + 128, pad ? 255 : 0); av_image_fill_arrays(sd, sl, &in[0], av(sf), sw, sh, 1); av_image_fill_arrays(dd, dl, &o[0], av(of), w, h, 1); int n = sws_scale(cx, sd, sl, 0, sh, dd, dl); produces = n > 0; o.resize(len); }
            if (cx) sws_freeContext(cx);
            got.clear(); rs.processFrame(r); for (int q = 0; q < 3; q++) tail.processFrame(r);
            if (!produces) { PBT_CHECK(got.empty(), "an output was produced for a picture that is %s", !pass ? "behind the frame time" : unk ? "of unknown format" : "too large"); seq++; continue; }
            PBT_CHECK(got.size() == 1, "%zu outputs for one picture", got.size()); vid::Pic &p = got[0];
            PBT_CHECK(p.w == w && p.h == h && p.fmt == of, "output is %dx%d format %d, configured %dx%d format %d", p.w, p.h, p.fmt, w, h, of);
            PBT_CHECK((long)p.len == len, "output of %dx%d format %d is %u bytes, its format implies %ld", w, h, of, p.len, len);
            PBT_CHECK(p.pts == ts && p.dts == (d ? dts : NO_DTS.count()) && p.seq == seq, "output stamped %ld/%ld #%zu, its source %ld #%zu", p.pts, p.dts, p.seq, ts, seq); PBT_CHECK(p.org >= t0 && p.org <= t1, "the output does not carry its source's origin time");
            if (sf == of && sw == w && sh == h) PBT_CHECK(p.d == px, "an unconverted picture was changed");
            else if (sw >= 16 && w >= 16 && sh >= 4 && h >= 4) { double err = 0; for (long i = 0; i < len; i++) { int e = std::abs((int)p.d[i] - (int)ref[i]); if (ref[i] != ref2[i] || (of == RGB32 && i % 4 == 3)) continue; err += e; PBT_CHECK(e <= 24 || (sw | sh | w | h) % 2, "byte %ld is %d, the source scaled gives %d", i, p.d[i], ref[i]); } PBT_CHECK(err / len <= ((sw | sh | w | h) % 2 ? 16 : 3), "mean difference %.2f from the source scaled", err / len); }
            if (level >= 0 && (sw | sh | w | h) % 2 == 0 && sw >= 16 && w >= 16 && sh >= 4 && h >= 4) { std::vector<unsigned char> e; grey(of, w, h, level, e); for (long i = 0; i < len; i++) { if (ref[i] != ref2[i] || (of == RGB32 && i % 4 == 3)) continue; PBT_CHECK(std::abs((int)p.d[i] - (int)e[i]) <= 6, "flat grey %d became %d where format %d shows it as %d (byte %ld)", level, p.d[i], of, e[i], i); } }
            geo.insert({w, h, of, sw, sh, sf}); if (w != sw || h != sh) scaled = true; seq++;
        } else if (what < 9) {
            int w = g.chance(25) ? 0 : (int)g.edge(1, 2 * MW), h = g.chance(25) ? 0 : (int)g.edge(1, 2 * MH), fps = g.chance(60) ? 0 : (int)g.edge(1, 120); int pf = FM[g.range(0, 5)]; bool bad = g.chance(20);
            if (g.chance(5)) { w = 100000; h = 100000; }
            if (bad) switch (g.range(0, 4)) { case 0: w = -(int)g.edge(1, 5000); break; case 1: h = -(int)g.edge(1, 5000); break; case 2: pf = P_NONE; break; case 3: pf = 99; break; default: pf = -5; }
            if (g.chance(5) && !bad) fps = -(int)g.range(1, 5);
            g.log() << fmt(" cfg %dx%d fps%d f%d", w, h, fps, pf); rs.configure(w, h, fps, (PixType)pf); rs.processFrame(r); got.clear(); tail.processFrame(r); PBT_CHECK(got.empty(), "configuring produced an output");
            if (!bad) { ow = w; oh = h; of = (PixType)pf; ft = fps > 0 ? 1000000 / fps : 0; }
        } else { got.clear(); rs.processFrame(r); tail.processFrame(r); PBT_CHECK(got.empty(), "an output was produced without a new picture"); }

    }
    if (geo.size() >= 2 && scaled) g.nontrivial();
}
