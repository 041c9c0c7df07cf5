// C11: the real video splitter in a graph; every output is compared with an independent crop of the source picture.
#define VF_MOCK_DEFINE
#include "videoq.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
using namespace pbt;
const char *pbt::RULE = "1..5 outputs, source pictures of changing sizes and contents, with valid and invalid crop configurations, joins and leaves at any time, best effort or with a frame time; every published picture is "
    "compared byte by byte with its rectangle of the source. Non-trivial: a crop smaller than the source was published, and at some point one output was published while another could not be";
void pbt::setup() { quietLog(); }
namespace {
enum { MW = 80, MH = 64, MAXB = MW * MH * 3 };
struct Spl : public VideoSplitter {
    int calls = 0;
    Spl(us t) : VideoSplitter(t) {}
    FrameQueue *allocQueue(ConnectionData cd) { return new vid::VQ(cd, RGB24, MW, MH, 5); }
    bool doProcessFrame(Frame *o, std::map<int, Frame *> &d) { calls++; for (auto &x : d) { VideoFrame *v = dynamic_cast<VideoFrame *>(x.second); memset(v->getDataBuf(), 0xAA, v->getMaxLength()); } return VideoSplitter::doProcessFrame(o, d); }
};
struct Crop { int w = 0, h = 0, x = -1, y = -1, deg = 0; bool set = false; };
struct Out { std::unique_ptr<mock::Tail> t; std::vector<vid::Pic> got; Crop c; };
}
void pbt::property(Gen &g) {
    long ft = g.chance(25) ? (long)g.range(1, 60) * 1000 : 0, syncTs = 0;
    if (g.chance(3)) { VideoSplitter *n = VideoSplitter::createNew(us(-(long)g.edge(1, 1000000))); PBT_CHECK(!n, "a negative frame time was accepted"); }
    Spl sp((us(ft))); sp.setId(100); vid::Src src(RGB24, MW, MH); src.setId(1); PBT_CHECK(src.connectOneToOne(&sp), "source refused");
    std::map<int, Out> outs; int fid = 200; int nOut = (int)g.range(1, 5);
    auto attach = [&](int id) { Out &o = outs[id]; o.t.reset(new mock::Tail(1, false)); o.t->setId(fid++); Out *po = &o; o.t->fn = [po](std::map<int, Frame *> &f, std::vector<int> n, int &) { for (int k : n) po->got.push_back(vid::grab(f[k], MAXB)); return true; }; PBT_CHECK(sp.connectManyToOne(o.t.get(), id), "output %d refused", id); };
    for (int i = 1; i <= nOut; i++) attach(i);
    g.log() << nOut << " outputs" << (ft ? fmt(" every %ld us:", ft) : ":");
    long ts = (long)g.range(0, 1000000), dts = 0; size_t seq = 0; bool small = false, mixed = false; int lastW = MW, lastH = MH;
    int ops = (int)g.range(4, 50);
    for (int k = 0; k < ops; k++) {
        int what = (int)g.range(0, 19); int r;
        if (what < 10) {
            int w = (int)g.edge(1, MW), h = (int)g.edge(1, MH); if (g.chance(50)) { w = lastW; h = lastH; } lastW = w; lastH = h;
            ts += g.chance(10) ? -(long)g.range(0, 60000) : (long)g.range(1, 60000); if (ts < 3) ts = 3; dts = ts - (long)g.range(0, 3); std::vector<unsigned char> px = g.bytes((size_t)w * h * 3);
            bool d = g.chance(70);
            src.fn = [&](VideoFrame *f) { memcpy(f->getDataBuf(), &px[0], px.size()); f->setLength((unsigned)px.size()); f->setSize(w, h); f->setPresentationTime(us(ts)); f->setDecodeTime(d ? us(dts) : NO_DTS); return true; }; auto t0 = std::chrono::system_clock::now(); src.processFrame(r); auto t1 = std::chrono::system_clock::now();
            long wdts = d ? dts : NO_DTS.count(); long frameTs = d ? dts : ts; bool pass = true;
            if (ft) { if (frameTs > syncTs + ft) syncTs = frameTs; else if (frameTs < syncTs) pass = false; else syncTs += ft; }
            g.log() << fmt(" pic%dx%d@%ld%s", w, h, ts, pass ? "" : "(late)");
            int before = sp.calls; sp.processFrame(r); PBT_CHECK(sp.calls == before + (pass && !outs.empty()), "picture %zu was %sprocessed", seq, pass ? "not " : "");
            int pub = 0, unpub = 0;
            for (auto &x : outs) {
                Out &o = x.second; Crop &c = o.c; bool fits = c.set && (long)c.x + c.w <= w && (long)c.y + c.h <= h; o.got.clear(); for (int q = 0; q < 3; q++) o.t->processFrame(r);
                if (!pass || !fits) { unpub++; PBT_CHECK(o.got.empty(), "output %d published a picture, its crop %dx%d@%d,%d of %dx%d %s", x.first, c.w, c.h, c.x, c.y, w, h, pass ? "is not available" : "was of a late picture"); continue; }
                pub++; PBT_CHECK(o.got.size() == 1, "output %d published %zu pictures for one source picture", x.first, o.got.size()); vid::Pic &p = o.got[0];
                PBT_CHECK(p.w == c.w && p.h == c.h, "output %d is %dx%d, its crop %dx%d", x.first, p.w, p.h, c.w, c.h);
                if (p.len == (unsigned)c.w * c.h) g.knownSeen("splitter-length", fmt("output %d of %dx%d pixels declares %u bytes", x.first, c.w, c.h, p.len)); else PBT_CHECK(p.len == (unsigned)c.w * c.h * 3, "output %d of %dx%d pixels declares %u bytes", x.first, c.w, c.h, p.len);
                for (int yy = 0; yy < c.h; yy++) PBT_CHECK(!memcmp(&p.d[(size_t)yy * c.w * 3], &px[((size_t)(c.y + yy) * w + c.x) * 3], (size_t)c.w * 3), "output %d row %d differs from the source's rectangle %dx%d@%d,%d", x.first, yy, c.w, c.h, c.x, c.y);
                for (size_t q = (size_t)c.w * c.h * 3; q < p.d.size(); q++) PBT_CHECK(p.d[q] == 0xAA, "output %d: byte %zu after the picture was written", x.first, q);
                PBT_CHECK(p.pts == ts && p.dts == wdts && p.seq == seq, "output %d stamped %ld/%ld #%zu, its source %ld/%ld #%zu", x.first, p.pts, p.dts, p.seq, ts, wdts, seq); PBT_CHECK(p.org >= t0 && p.org <= t1, "output %d does not carry its source's origin time", x.first);
                if (c.w < w || c.h < h) small = true;
            }
            if (pub && unpub) mixed = true; seq++;
        } else if (what < 16) {
            int id = g.chance(8) ? nOut + 1 + (int)g.range(0, 2) : (int)g.range(1, nOut); Crop c; c.set = true; c.deg = g.chance(15) ? (int)g.range(-360, 360) : 0;
            switch (g.range(0, 4)) {
                case 0: c.w = lastW; c.h = lastH; c.x = c.y = 0; break;
                case 1: c.x = (int)g.range(0, lastW - 1); c.y = (int)g.range(0, lastH - 1); c.w = lastW - c.x; c.h = lastH - c.y; break;                    // touches the far edges
                case 2: c.x = (int)g.range(0, lastW - 1); c.y = (int)g.range(0, lastH - 1); c.w = lastW - c.x + (int)g.range(0, 1); c.h = lastH - c.y + (int)g.range(0, 1); break; // or just beyond
                case 3: c.x = (int)g.range(0, lastW - 1); c.y = (int)g.range(0, lastH - 1); c.w = (int)g.range(1, lastW - c.x); c.h = (int)g.range(1, lastH - c.y); break;
                default: c.x = (int)g.edge(0, 0x7fffffff); c.y = (int)g.edge(0, 0x7fffffff); c.w = (int)g.edge(1, 0x7fffffff); c.h = (int)g.edge(1, 0x7fffffff); break;
            }
            bool bad = g.chance(20); if (bad) switch (g.range(0, 5)) { case 0: c.w = -(int)g.edge(0, 1000); break; case 1: c.h = -(int)g.edge(0, 1000); break; case 2: c.x = -(int)g.edge(1, 0x7fffffff); break; case 3: c.y = -(int)g.edge(1, 1000); break; case 4: c.deg = 361 + (int)g.range(0, 100); break; default: c.deg = -361 - (int)g.range(0, 100); }
            g.log() << fmt(" crop%d %dx%d@%d,%d/%d", id, c.w, c.h, c.x, c.y, c.deg);
            sp.configCrop(id, c.w, c.h, c.x, c.y, c.deg); sp.processFrame(r); if (!bad && outs.count(id)) outs[id].c = c;
        } else if (what == 16) {
            int n = (int)g.range(-5, 60) * 1000; sp.configure(n); sp.processFrame(r); if (n >= 0) ft = n; g.log() << " time" << n;
        } else if (what == 17) {
            int id = (int)g.range(1, nOut); if (outs.count(id)) { sp.disconnectWriter(id); outs[id].t->disconnectReader(DEFAULT_ID); outs.erase(id); g.log() << " leave" << id; } else { attach(id); g.log() << " join" << id; }
        } else {
            int before = sp.calls; sp.processFrame(r); PBT_CHECK(sp.calls == before, "ran without a new picture"); for (auto &x : outs) { x.second.got.clear(); x.second.t->processFrame(r); PBT_CHECK(x.second.got.empty(), "output %d published without a new picture", x.first); }
        }
        Jzon::Object st; sp.getState(st); PBT_CHECK(st.Get("frameTime").ToInt() == ft, "frame time reported %d, configured %ld", st.Get("frameTime").ToInt(), ft);
        const Jzon::Array &a = st.Get("crops").AsArray(); PBT_CHECK(a.GetCount() == outs.size(), "%zu crops reported for %zu outputs", (size_t)a.GetCount(), outs.size());
        for (size_t i = 0; i < a.GetCount(); i++) { const Jzon::Object &o = a.Get(i).AsObject(); int id = o.Get("id").ToInt(); PBT_CHECK(outs.count(id), "unknown crop %d reported", id); Crop &c = outs[id].c;
            if (c.set) PBT_CHECK(o.Get("width").ToInt() == c.w && o.Get("height").ToInt() == c.h && o.Get("x").ToInt() == c.x && o.Get("y").ToInt() == c.y && o.Get("degree").ToInt() == c.deg, "crop %d is not reported as configured", id); }
    }
    if (small && mixed) g.nontrivial();
}
