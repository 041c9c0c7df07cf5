// C10: the real video mixer in a graph; every composed picture is compared with an independent composition.
#define VF_MOCK_DEFINE
#include "videoq.hh"
#include "modules/videoMixer/VideoMixer.hh"
#include <opencv2/imgproc.hpp>
#include <cmath>
using namespace pbt;
const char *pbt::RULE = "1..5 channels of pictures of generated sizes and contents, with valid and invalid channel and layout configurations at any time, best effort or with a frame time; every output is "
    "compared pixel by pixel with an independent composition. Non-trivial: an output drew at least two overlapping channels, or a scaled, cropped or blended one";
void pbt::setup() { quietLog(); cv::setNumThreads(1); }
namespace {
struct In { int id; vid::Pic p; bool null; };
struct Mix : public VideoMixer {
    int ow, oh; bool called = false, ret = false; std::vector<In> in; vid::Pic out; long sync = 0; bool consumed = false; bool tagged;
    Mix(int n, int w, int h, us t, int mw, int mh) : VideoMixer(n, w, h, t), ow(mw), oh(mh) {}
    FrameQueue *allocQueue(ConnectionData cd) { return new vid::VQ(cd, RGB24, ow, oh, 4); }
    bool doProcessFrame(std::map<int, Frame *> &o, Frame *d, std::vector<int> nf) {
        called = true; in.clear(); for (auto &x : o) { In i; i.id = x.first; i.null = !x.second; if (x.second) { VideoFrame *v = dynamic_cast<VideoFrame *>(x.second); i.p = vid::grab(v, v->getWidth() * v->getHeight() * 3); } in.push_back(i); }
        memset(d->getDataBuf(), 0xAA, d->getMaxLength());
        ret = VideoMixer::doProcessFrame(o, d, nf); out = vid::grab(d, d->getMaxLength()); consumed = d->getConsumed(); sync = getSyncTs().count(); return ret;
    }
};
struct Cfg { float w = 1, h = 1, x = 0, y = 0, op = 1; int layer = 0; bool on = false; };
}
void pbt::property(Gen &g) {
    const int MW = 96, MH = 80; int nch = (int)g.range(1, 5), W = (int)g.range(1, MW), H = (int)g.range(1, MH); long ft = g.chance(20) ? (long)g.range(1, 60) * 1000 : 0;
    Mix mx(nch, W, H, us(ft), MW, MH); mx.setId(100); mock::Tail tail(1, false); tail.setId(200); vid::Pic got; int gotN = 0; tail.fn = [&](std::map<int, Frame *> &o, std::vector<int> n, int &) { for (int k : n) { got = vid::grab(o[k], -1); gotN++; } return true; };
    PBT_CHECK(mx.connectOneToOne(&tail), "output refused");
    std::vector<std::unique_ptr<vid::Src>> src(nch); std::map<int, Cfg> cfg; std::vector<long> next(nch, (long)g.range(0, 1000000)); bool nontriv = false; int outs = 0; int fid = 1; long lastPts = 0;
    auto attach = [&](int i) { src[i].reset(new vid::Src(RGB24, 64, 64)); src[i]->setId(fid++); PBT_CHECK(src[i]->connectOneToMany(&mx, i + 1), "channel %d refused", i + 1); cfg[i + 1] = Cfg(); };
    for (int i = 0; i < nch; i++) attach(i);
    g.log() << nch << " channels on " << W << "x" << H << (ft ? fmt(" every %ld us:", ft) : ":");
    auto run = [&]() {
        mx.called = false; int r; mx.processFrame(r); if (!mx.called) return; PBT_CHECK(mx.ret && mx.consumed, "the mixer published nothing"); outs++;
        std::vector<float> ref((size_t)W * H * 3, 0), tol((size_t)W * H * 3, 0); std::vector<int> cover((size_t)W * H, 0); long ts = 0; int drawn = 0;
        for (int lay = 0; lay <= nch; lay++) for (auto &in : mx.in) {
            if (in.null || !cfg.count(in.id)) continue; Cfg &c = cfg[in.id]; if (!c.on || c.layer != lay) continue;
            ts = std::max(ts, in.p.pts); drawn++;
            int sw = (int)(c.w * W), sh = (int)(c.h * H), x0 = (int)(c.x * W), y0 = (int)(c.y * H); if (sw <= 0 || sh <= 0) continue;
            std::vector<unsigned char> px; 
            if (sw == in.p.w && sh == in.p.h) px = in.p.d;
            else { cv::Mat s(in.p.h, in.p.w, CV_8UC3, &in.p.d[0]), d; cv::resize(s, d, cv::Size(sw, sh), 0, 0, cv::INTER_LINEAR); px.assign(d.data, d.data + (size_t)sw * sh * 3); nontriv = true; }
            for (int y = 0; y < sh && y0 + y < H; y++) for (int x = 0; x < sw && x0 + x < W; x++) {
                size_t o = (size_t)(y0 + y) * W + x0 + x; if (cover[o]++) nontriv = true;
                for (int k = 0; k < 3; k++) { float v = px[((size_t)y * sw + x) * 3 + k]; if (c.op == 1) { ref[o * 3 + k] = v; tol[o * 3 + k] = 0; } else { ref[o * 3 + k] = v * c.op + ref[o * 3 + k] * (1 - c.op); tol[o * 3 + k] = tol[o * 3 + k] * (1 - c.op) + 0.51f; nontriv = true; } }
            }
            if (x0 + sw > W || y0 + sh > H) nontriv = true;
        }
        PBT_CHECK(mx.out.w == W && mx.out.h == H && mx.out.len == (unsigned)(W * H * 3), "output of %dx%d, %u bytes for a %dx%d layout", mx.out.w, mx.out.h, mx.out.len, W, H);
        for (int i = 0; i < W * H * 3; i++) PBT_CHECK(std::fabs(mx.out.d[i] - ref[i]) <= tol[i] + 0.01f, "pixel (%d,%d) component %d is %d, the composition gives %.2f", i / 3 % W, i / 3 / W, i % 3, mx.out.d[i], ref[i]);
        for (size_t i = (size_t)W * H * 3; i < mx.out.d.size(); i++) PBT_CHECK(mx.out.d[i] == 0xAA, "byte %zu after the picture was written", i);
        if (ft) PBT_CHECK(mx.out.pts == mx.sync, "output stamped %ld, its window is %ld", mx.out.pts, mx.sync); else if (drawn) PBT_CHECK(mx.out.pts == ts, "output stamped %ld, its newest input %ld", mx.out.pts, ts);
        PBT_CHECK(mx.out.dts == mx.out.pts, "decode time %ld differs from %ld", mx.out.dts, mx.out.pts);
        gotN = 0; tail.processFrame(r); PBT_CHECK(gotN == 1 && got.d.size() == (size_t)W * H * 3 && std::equal(got.d.begin(), got.d.end(), mx.out.d.begin()) && got.pts == mx.out.pts, "the consumer did not get the composed picture"); g.log() << " out";
    };
    int ops = (int)g.range(4, 40); (void)lastPts;
    for (int k = 0; k < ops; k++) {
        int what = (int)g.range(0, 19);
        if (what < 9) {
            for (int i = 0; i < nch; i++) { if (!src[i] || g.chance(25)) continue; int kind = (int)g.range(0, 3); Cfg &c = cfg[i + 1]; int w = kind == 0 && (int)(c.w * W) > 0 ? std::min(64, (int)(c.w * W)) : (int)g.range(1, 64), h = kind == 0 && (int)(c.h * H) > 0 ? std::min(64, (int)(c.h * H)) : (int)g.range(1, 64); next[i] += (long)g.range(1, 50000); std::vector<unsigned char> px = g.bytes((size_t)w * h * 3);
                if (kind == 1) for (size_t q = 0; q < px.size(); q++) px[q] = px[q % 3];
                src[i]->fn = [&](VideoFrame *f) { memcpy(f->getDataBuf(), &px[0], px.size()); f->setLength((unsigned)px.size()); f->setSize(w, h); f->setPresentationTime(us(next[i])); return true; }; int r; src[i]->processFrame(r); }
            int n = (int)g.range(1, 3); for (int j = 0; j < n; j++) run();
        } else if (what < 17) {
            int id = g.chance(8) ? nch + 1 + (int)g.range(0, 2) : (int)g.range(1, nch); Cfg c;
            auto frac = [&](bool zero) { int s = (int)g.range(0, 9); return (float)(s == 0 ? 1.0 : s == 1 && zero ? 0.0 : s == 2 ? g.range(1, 3) / 1000. : g.range(zero ? 0 : 1, 100) / 100.); };
            c.w = frac(false); c.h = frac(false); c.x = g.chance(40) ? 0 : frac(true); c.y = g.chance(40) ? 0 : frac(true); c.op = g.chance(50) ? 1 : frac(true); c.layer = (int)g.range(0, nch); c.on = !g.chance(12);
            bool bad = g.chance(18);
            if (bad) switch (g.range(0, 10)) { case 0: c.w = 0; break; case 1: c.h = -0.5f; break; case 2: c.x = -0.01f; break; case 3: c.y = -1; break; case 4: c.op = 1.01f; break; case 5: c.op = -0.1f; break; case 6: c.layer = -1; break; case 7: c.layer = nch + 1; break; case 8: c.w = g.pick({1.5f, 1e6f, 1e30f}); break; case 9: c.x = g.pick({1.01f, 1e9f}); break; default: c.h = g.pick({2.f, 1e12f}); break; }
            mx.configChannel(id, c.w, c.h, c.x, c.y, c.layer, c.on, c.op); g.log() << fmt(" ch%d %gx%g@%g,%g layer %d op %g%s", id, c.w, c.h, c.x, c.y, c.layer, c.op, c.on ? "" : " off");
            if (!bad && cfg.count(id)) cfg[id] = c;
            run();
        } else if (what == 17) {
            int w = (int)g.range(1, MW), h = (int)g.range(1, MH); bool bad = g.chance(40);
            if (bad) switch (g.range(0, 3)) { case 0: w = 0; break; case 1: h = -(int)g.range(1, 100); break; case 2: w = 1921; break; default: h = (int)g.range(1081, 100000); }
            mx.configure(w, h, 0); if (!bad) { W = w; H = h; } g.log() << " layout " << w << "x" << h; run();
        } else if (what == 18) {
            int i = (int)g.range(0, nch - 1); if (src[i]) { src[i]->disconnectWriter(DEFAULT_ID); mx.disconnectReader(i + 1); src[i].reset(); cfg.erase(i + 1); g.log() << " leave" << i + 1; } else { attach(i); g.log() << " join" << i + 1; }
        } else run();
    }
    Jzon::Object st; mx.getState(st); PBT_CHECK(st.Get("width").ToInt() == W && st.Get("height").ToInt() == H, "layout reported %dx%d, configured %dx%d", st.Get("width").ToInt(), st.Get("height").ToInt(), W, H);
    const Jzon::Array &a = st.Get("channels").AsArray(); PBT_CHECK(a.GetCount() == cfg.size(), "%zu channels reported", (size_t)a.GetCount());
    for (size_t i = 0; i < a.GetCount(); i++) { const Jzon::Object &o = a.Get(i).AsObject(); int id = o.Get("id").ToInt(); PBT_CHECK(cfg.count(id), "unknown channel %d reported", id); Cfg &c = cfg[id];
        auto near = [&](const char *n, float v) { return std::fabs(o.Get(n).ToFloat() - v) <= 1e-4f; };
        PBT_CHECK(near("width", c.w) && near("height", c.h) && near("x", c.x) && near("y", c.y) && near("opacity", c.op) && o.Get("layer").ToInt() == c.layer && o.Get("enabled").ToBool() == c.on, "channel %d is not reported as configured", id); }
    if (nontriv && outs) g.nontrivial();
}
