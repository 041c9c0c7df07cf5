// C18: the real Dasher, connected to sources of coded video and audio, writing into a scratch folder; what is on disk is compared with the manifest after every run.
#define VF_MOCK_DEFINE
#include "mp4.hh"
#include "xml.hh"
#include "mockfilters.hh"
#include "VideoFrame.hh"
#include "modules/dasher/Dasher.hh"
#include <dirent.h>
#include <memory>
using namespace pbt;
const char *pbt::RULE = "up to 3 H.264/H.265 and 2 AAC streams with aligned key frames (any key-frame distance, frame rate, clock base, start order), fed in time order into small queues while the dasher runs at generated moments; streams removed and added while running, window and bit rates changed, refused streams and configurations, unrelated files in the folder. "
    "Non-trivial: a segment left the window and at least two streams were published";
extern std::function<bool(Event, int)> g_filterEventSink;
void pbt::setup() { quietLog(); }
namespace {
typedef std::vector<unsigned char> V;
struct VQ : public VideoFrameQueue { VQ(ConnectionData cd, const StreamInfo *si, unsigned n) : VideoFrameQueue(cd, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(si->video.codec, 400); } };
struct AQ : public AudioFrameQueue { AQ(ConnectionData cd, const StreamInfo *si, unsigned n) : AudioFrameQueue(cd, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(2, 48000, 1024, AAC, S16); } };
StreamInfo vinfo(VCodecType c) { StreamInfo s(VIDEO); s.video.codec = c; s.video.pixelFormat = YUV420P; return s; }
StreamInfo ainfo(ACodecType c) { StreamInfo s(AUDIO); s.audio.codec = c; s.audio.sampleFormat = S16; s.audio.channels = 2; s.audio.sampleRate = 48000; return s; }
const StreamInfo *info(int k) { static StreamInfo a = vinfo(H264), b = vinfo(H265), c = ainfo(AAC), d = vinfo(VP8), e = ainfo(PCM); return k == 0 ? &a : k == 1 ? &b : k == 2 ? &c : k == 3 ? &d : &e; }
struct Src : public HeadFilter { FrameQueue *q = NULL; int kind; std::function<void(Frame *)> fn; Src(int k) : HeadFilter(1, REGULAR, true), kind(k) { fType = RECEIVER; }
    FrameQueue *allocQueue(ConnectionData cd) { if (kind == 2 || kind == 4) q = new AQ(cd, info(kind), 64); else q = new VQ(cd, info(kind), 96); return q; }
    bool doProcessFrame(std::map<int, Frame *> &d, int &) { if (d.empty()) return false; fn(d.begin()->second); d.begin()->second->setConsumed(true); return true; }
    void doGetState(Jzon::Object &) {} bool specificReaderConfig(int, FrameQueue *) { return true; } bool specificReaderDelete(int) { return true; } bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; } };
void wipe(const std::string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (struct dirent *e = readdir(h)) { std::string n = e->d_name, f = d + "/" + n; if (n == "." || n == "..") continue; if (e->d_type == DT_DIR) wipe(f); else unlink(f.c_str()); } closedir(h); rmdir(d.c_str()); }
struct Unit { long pts; V d; size_t lastNal; bool key; };   // an access unit (length-prefixed slices) or an AAC frame without header
struct Stream { int rid, kind; std::unique_ptr<Src> src; std::vector<Unit> u; std::map<V, int> at; size_t fed = 0; uint64_t firstT = 0; bool listed = false; uint64_t early = UINT64_MAX; int w = 0, h = 0; unsigned bps = 0; std::vector<std::pair<unsigned, int>> oldBps; long lastSeenIdx = -1; uint64_t lastSeenT = 0; std::map<std::string, uint64_t> files; bool alive = true; bool gap = false, joins = false, joining = false; int published = 0; int ps = 0; };
}
void pbt::property(Gen &g) {
    size_t before = mp4::heap(); bool moved = false, cleaned = false; std::string top = scratchDir() + "/d", dir = top + "/out"; wipe(top); if (mkdir(top.c_str(), 0700) || mkdir(dir.c_str(), 0700)) fail("scratch folder"); int sunk = 0; g_filterEventSink = [&](Event, int) { sunk++; return true; };
  {
    std::unique_ptr<Dasher> d(new Dasher()); d->setId(1000); std::string base = g.pick({"a", "demo", "x.y", "a b", "init"}); int segDur = (int)g.range(1, 3); unsigned maxSeg = (unsigned)g.range(0, 5), minBuf = (unsigned)g.edge(0, 10);
    std::map<std::string, std::string> others; others["other_1_0.m4v"] = "x"; others[base + ".txt"] = "y"; others["z" + base + ".mpd"] = "zz"; for (auto &o : others) { FILE *f = fopen((dir + "/" + o.first).c_str(), "w"); fputs(o.second.c_str(), f); fclose(f); } { FILE *f = fopen((top + "/keep").c_str(), "w"); fclose(f); }
    if (g.chance(20)) { std::unique_ptr<Src> s(new Src(0)); s->setId(1); PBT_CHECK(!s->connectOneToMany(d.get(), 1), "a stream was accepted before the configuration"); }
    if (g.chance(20)) PBT_CHECK(!d->configure(dir + "/none", base, segDur, maxSeg, minBuf) && !d->configure(dir, "", segDur, maxSeg, minBuf) && !d->configure(dir, base, 0, maxSeg, minBuf), "an invalid configuration was accepted");
    PBT_CHECK(d->configure(g.chance(50) ? dir : dir + "/", base, segDur, maxSeg, minBuf), "configuration refused"); unsigned win = std::max(2u, maxSeg);
    long fd = g.pick({40000l, 20000l, 50000l, 80000l, 100000l}); bool dyn = g.chance(40); int per = (int)(segDur * 1000000 / fd); int gop = dyn ? per : (int)g.edge(1, 3 * per); if (!dyn) while (gop < per && per % gop && (per - 1) % gop == 0) gop++; // no key frame exactly one picture before the configured duration
    int edge = gop; while (edge < per) edge += gop; long t0 = g.chance(10) ? 0 : g.chance(40) ? 1400000000000000l + g.range(0, 1000000000000l) : (long)g.range(0, 100000000); long aOff = g.chance(30) ? 0 : (long)g.range(-30000, 30000); if (t0 + aOff < 0) aOff = 0;
    int nv = (int)g.range(0, 3), na = (int)g.range(nv ? 0 : 1, 2); if (g.chance(40)) { nv = 1; na = 1; } int bps = 0; bool aud = true; (void)bps; std::vector<std::unique_ptr<Stream>> st; std::set<long> offs; int nextRid = (int)g.range(1, 3); std::vector<int> rids; for (int i = 0; i < 12; i++) { rids.push_back(nextRid); nextRid += (int)g.range(1, 100000); } for (size_t i = rids.size(); i > 1; i--) std::swap(rids[i - 1], rids[g.raw(i - 1)]); size_t ridAt = 0; int sid = 1; uint64_t uid = 1; std::set<std::string> stale; std::string mpd = dir + "/" + base + ".mpd", lastText; long long vChanges = 0;
    g.log() << base << " " << segDur << "s window " << win << " fd=" << fd << " gop=" << gop << " t0=" << t0 << " aOff=" << aOff << (dyn ? " dynamic" : "");
    auto add = [&](int kind) { std::unique_ptr<Stream> s(new Stream()); s->rid = rids[ridAt++ % rids.size()]; s->kind = kind; s->src.reset(new Src(kind)); s->src->setId(sid++); bool ok = s->src->connectOneToMany(d.get(), s->rid); PBT_CHECK(ok, "stream refused"); s->w = (int)g.range(1, 500) * 2; s->h = (int)g.range(1, 500) * 2; s->ps = (int)g.range(0, 2); g.log() << (kind == 2 ? " +a" : " +v") << s->rid; if (g.chance(40)) { s->bps = (unsigned)g.range(1, 1000000); PBT_CHECK(d->setDashSegmenterBitrate(s->rid, s->bps), "bit rate"); } st.push_back(std::move(s)); };
    for (int i = 0; i < nv; i++) add((int)g.range(0, 1)); for (int i = 0; i < na; i++) add(2); for (size_t i = st.size(); i > 1; i--) std::swap(st[i - 1], st[g.raw(i - 1)]); if (ridAt == 0) return;
    if (g.chance(20)) { std::unique_ptr<Src> s(new Src(g.pick({3, 4}))); s->setId(900); PBT_CHECK(!s->connectOneToMany(d.get(), 999999), "an unsupported codec was accepted"); PBT_CHECK(!d->setDashSegmenterBitrate(999999, 5), "unknown stream"); }
    bool offKnown = false;
    auto verifyFile = [&](Stream &s, const std::string &f, uint64_t t, uint64_t dur, bool first) -> std::pair<long, long> {
        std::string data = xml::slurp(f); bool video = s.kind != 2; mp4::Media m = mp4::media((const unsigned char *)data.data(), data.size(), video); PBT_CHECK(m.scale == (video ? 12800u : 48000u), "time scale %u", m.scale); bool exact = true; if (s.joins) { for (auto &x : st) if (x->alive && x->kind == 2 && x->rid < s.rid) exact = false; g.label("audio joined"); } // once an audio stream joined, the others only agree up to what their queues hold
        long tol = s.joining ? LONG_MAX : exact ? 0 : 64 * 1024; s.joining = false; /* the segment during which an audio stream joins is partial */ PBT_CHECK(labs((long)(m.total - dur)) <= tol, "%s lasts %lu, the manifest says %lu", f.c_str(), (unsigned long)m.total, (unsigned long)dur); PBT_CHECK(labs((long)(m.tfdt - t)) <= tol, "%s starts at %lu", f.c_str(), (unsigned long)m.tfdt); t = m.tfdt; dur = m.total; (void)first;
        long i0 = -1; for (size_t k = 0; k < m.s.size(); k++) { auto it = s.at.find(V(m.s[k].p, m.s[k].p + m.s[k].size)); PBT_CHECK(it != s.at.end(), "sample %zu of %s is not from its stream", k, f.c_str()); if (k == 0) i0 = it->second; PBT_CHECK(it->second == i0 + (long)k, "sample %zu of %s is unit %d, expected %ld", k, f.c_str(), it->second, i0 + (long)k); if (video) PBT_CHECK(!(m.s[k].flags >> 16 & 1) == s.u[it->second].key, "key flag"); }
        if (video) PBT_CHECK(s.u[i0].key, "%s does not start with a key frame", f.c_str()); long i1 = i0 + (long)m.s.size() - 1; PBT_CHECK(i1 + 1 < (long)s.u.size() || !video, "the last unit is not complete");
        long sc = video ? 12800 : 48000; std::set<long> ok; if (!offKnown) { for (auto &x : st) if (!x->u.empty()) offs.insert(x->u[0].pts); offKnown = true; } for (long o : offs) if (labs((s.u[i0].pts - o) * sc / 1000000 - (long)t) <= (video ? 0 : 1) && s.u[i0].pts >= o) ok.insert(o); PBT_CHECK(!ok.empty(), "%s starts with the unit of time %ld", f.c_str(), s.u[i0].pts - t0); offs = ok;
        if (video) PBT_CHECK(labs((s.u[i1 + 1].pts - s.u[i0].pts) * sc / 1000000 - (long)dur) <= 1, "%s lasts %lu ticks, its units %ld us", f.c_str(), (unsigned long)dur, s.u[i1 + 1].pts - s.u[i0].pts);
        return std::make_pair(i0, i1); };
    auto readAll = [&](std::set<std::string> &names) { DIR *h = opendir(dir.c_str()); PBT_CHECK(h, "folder is gone"); while (struct dirent *e = readdir(h)) if (e->d_name[0] != '.') names.insert(e->d_name); closedir(h); };
    bool dropping = false; // a removal writes the manifest at once, possibly with representations whose first segment is still to come
    auto check = [&](bool force) {
        if (access(mpd.c_str(), F_OK)) { for (auto &s : st) PBT_CHECK(!s->published, "the manifest is gone"); return; } std::string text = xml::slurp(mpd); if (text == lastText && !force) return; lastText = text;
        xml::El r = xml::parse(text); std::set<std::string> expect; expect.insert(base + ".mpd"); for (auto &o : others) expect.insert(o.first); std::set<std::string> may = stale;
        for (auto &s : st) if (s->alive) may.insert(base + "_" + std::to_string(s->rid) + "_init" + (s->kind == 2 ? ".m4a" : ".m4v"));
        for (auto *a : r.one("Period").all("AdaptationSet")) {
            bool video = a->get("mimeType") == "video/mp4"; const char *ext = video ? ".m4v" : ".m4a"; const xml::El &t = a->one("SegmentTemplate"); PBT_CHECK(t.get("media") == base + "_$RepresentationID$_$Time$" + ext && t.get("initialization") == base + "_$RepresentationID$_init" + ext && t.get("timescale") == (video ? "12800" : "48000"), "templates"); auto ss = t.one("SegmentTimeline").all("S"); PBT_CHECK(ss.size() <= win, "%zu segments in a window of %u", ss.size(), win);
            std::vector<std::pair<uint64_t, uint64_t>> tl; for (auto *x : ss) tl.push_back(std::make_pair(strtoull(x->get("t").c_str(), NULL, 10), strtoull(x->get("d").c_str(), NULL, 10))); std::set<std::string> seen;
            for (auto *e : a->all("Representation")) {
                std::string id = e->get("id"); PBT_CHECK(seen.insert(id).second, "representation twice"); Stream *s = NULL; for (auto &x : st) if (x->alive && std::to_string(x->rid) == id && (x->kind != 2) == video) s = x.get(); PBT_CHECK(s, "representation %s is no stream", id.c_str());                 uint64_t newest = tl.empty() ? UINT64_MAX - 1 : tl.back().first; if (!s->listed && dropping) s->early = newest; if (!s->listed && !dropping && newest != s->early) { PBT_CHECK(!tl.empty(), "a representation without segments"); s->listed = true; s->firstT = tl.back().first; } std::string pre = base + "_" + id + "_"; std::string in = dir + "/" + pre + "init" + ext; expect.insert(pre + "init" + ext); std::string idata = xml::slurp(in); mp4::Box ib = mp4::file((const unsigned char *)idata.data(), idata.size()); const mp4::Box &se = ib.need("moov").need("trak").need("mdia").need("minf").need("stbl").need("stsd"); if (video) PBT_CHECK((int)se.kids[0].u(24, 2) == s->w && (int)se.kids[0].u(26, 2) == s->h && (se.kids[0].t == "avc1") == (s->kind == 0), "the init segment is not this stream's");
                if (video) PBT_CHECK(e->get("width") == std::to_string(s->w) && e->get("height") == std::to_string(s->h) && (e->get("codecs").substr(0, 3) == "avc") == (s->kind == 0), "attributes of %s", id.c_str()); else PBT_CHECK(e->get("audioSamplingRate") == "48000" && e->one("AudioChannelConfiguration").get("value") == "2", "attributes of %s", id.c_str());
                std::string bw = e->get("bandwidth"); { bool okBw = bw == std::to_string(s->bps); for (auto &o : s->oldBps) if (s->published - o.second <= 1 && bw == std::to_string(o.first)) okBw = true; PBT_CHECK(okBw, "bandwidth %s of %s, set to %u", bw.c_str(), id.c_str(), s->bps); }
                for (size_t k = 0; k < tl.size() && s->listed; k++) if (tl[k].first >= s->firstT) {
                    std::string nm = pre + std::to_string(tl[k].first) + ext; expect.insert(nm); PBT_CHECK(access((dir + "/" + nm).c_str(), F_OK) == 0, "the manifest names %s, which does not exist", nm.c_str()); std::string data = xml::slurp(dir + "/" + nm); uint64_t h = fnv(data.data(), data.size());
                    if (s->files.count(nm)) { PBT_CHECK(s->files[nm] == h, "%s changed", nm.c_str()); continue; } s->files[nm] = h; auto ii = verifyFile(*s, dir + "/" + nm, tl[k].first, tl[k].second, seen.size() == 1); s->published++; PBT_CHECK(k + 1 == tl.size(), "a segment appeared in the middle of the timeline"); if (!s->gap && s->lastSeenIdx >= 0) { PBT_CHECK(ii.first == s->lastSeenIdx + 1, "%s starts with unit %ld, the segment before ended with %ld", nm.c_str(), ii.first, s->lastSeenIdx); } s->gap = false; s->lastSeenIdx = ii.second; }
                for (auto &f : s->files) if (!expect.count(f.first)) { cleaned = true; } }
        }
        std::set<std::string> have; readAll(have); for (auto &e : expect) PBT_CHECK(have.count(e), "%s is missing", e.c_str()); for (auto &h : have) PBT_CHECK(expect.count(h) || may.count(h), "%s is in the folder, the manifest does not name it", h.c_str()); };
    auto run = [&] { int ret = 0; d->processFrame(ret); check(false); };
    auto feed = [&](Stream &s, std::function<void(Frame *)> fn) { int guard = 0; while (s.src->q->getElements() + 3 >= (s.kind == 2 ? 64u : 96u)) { run(); if (guard++ > 400) { fail("the dasher does not take the frames of a full queue"); } } s.src->fn = fn; int r = 0; s.src->processFrame(r); s.fed++; };
    auto feedVideo = [&](Stream &s, long t, bool key) {
        bool hevc = s.kind == 1; Unit u; u.pts = t; u.key = key; std::vector<V> nals; auto mk = [&](int type, size_t n) { V v; if (hevc) { v.push_back((unsigned char)(type << 1)); v.push_back(1); } else v.push_back((unsigned char)(type | 0x60)); for (int i = 0; i < 8; i++) v.push_back((unsigned char)(uid >> (8 * i))); uid++; for (size_t i = 0; i < n; i++) v.push_back((unsigned char)(uid * 31 + i)); return v; };
        if (aud) nals.push_back(hevc ? V{70, 1, 0x50} : V{9, 0xf0}); if (key && (s.u.empty() || s.ps != 1)) { if (hevc) nals.push_back(mk(32, 5)); nals.push_back(mk(hevc ? 33 : 7, 5)); nals.push_back(mk(hevc ? 34 : 8, 2)); }
        int sl = g.chance(20) ? 2 : 1; for (int i = 0; i < sl; i++) { V v = mk(key ? (hevc ? 19 : 5) : 1, (size_t)g.range(0, 40)); size_t L = v.size(); u.d.push_back(0); u.d.push_back(0); u.d.push_back((unsigned char)(L >> 8)); u.d.push_back((unsigned char)L); u.d.insert(u.d.end(), v.begin(), v.end()); nals.push_back(v); }
        s.at[u.d] = (int)s.u.size(); u.lastNal = s.fed + nals.size() - 1; s.u.push_back(u);
        for (auto &v : nals) feed(s, [&](Frame *f) { VideoFrame *vf = dynamic_cast<VideoFrame *>(f); unsigned char *p = f->getDataBuf(); p[0] = p[1] = p[2] = 0; p[3] = 1; memcpy(p + 4, &v[0], v.size()); f->setLength((unsigned)v.size() + 4); vf->setSize(s.w, s.h); f->setPresentationTime(us(t)); f->setDecodeTime(NO_DTS); }); };
    auto feedAudio = [&](Stream &s, long t) { Unit u; u.pts = t; u.key = true; for (int i = 0; i < 8; i++) u.d.push_back((unsigned char)(uid >> (8 * i))); uid++; size_t n = (size_t)g.range(1, 30); for (size_t i = 0; i < n; i++) u.d.push_back((unsigned char)(i * 3)); s.at[u.d] = (int)s.u.size(); u.lastNal = s.fed; s.u.push_back(u); size_t L = u.d.size() + 7;
        feed(s, [&](Frame *f) { AudioFrame *af = dynamic_cast<AudioFrame *>(f); unsigned char *p = f->getDataBuf(); p[0] = 0xff; p[1] = 0xf1; p[2] = 0x4c; p[3] = (unsigned char)(0x80 | L >> 11); p[4] = (unsigned char)(L >> 3); p[5] = (unsigned char)(L << 5 | 0x1f); p[6] = 0xfc; memcpy(p + 7, &u.d[0], u.d.size()); f->setLength((unsigned)L); af->setChannels(2); af->setSampleRate(48000); af->setSamples(1024); f->setPresentationTime(us(t)); f->setDecodeTime(NO_DTS); }); };
    auto drop = [&](size_t i) { Stream &s = *st[i]; g.log() << " -" << s.rid; for (auto &f : s.files) stale.insert(f.first); stale.insert(base + "_" + std::to_string(s.rid) + "_init" + (s.kind == 2 ? ".m4a" : ".m4v")); s.alive = false; for (auto &x : st) x->gap = true; moved = true; PBT_CHECK(d->disconnectReader(s.rid), "disconnect"); s.src->disconnectWriter(DEFAULT_ID); s.src->q = NULL; dropping = true; check(false); dropping = false; };
    long vk = 0, ak = 0; int total = (int)g.range(2, 9) * per * (edge > 2 * per ? 2 : 1); if (total > 500) total = 500; bool video = nv > 0; long end = t0 + total * fd; int lazy = (int)g.range(0, 2);
    for (;;) {
        long tv = t0 + vk * fd, ta = t0 + aOff + (long)(ak * 1024 * 1000000l / 48000); bool doV = tv <= ta; if (std::min(tv, ta) > end) break; bool anyV = false, anyA = false; for (auto &s : st) if (s->alive) (s->kind == 2 ? anyA : anyV) = true; (void)anyA; (void)video;
        if (doV) {
            bool key = vk % gop == 0; if (dyn && key && vk > 0 && g.chance(30)) { size_t alive = 0; for (auto &s : st) alive += s->alive; if (alive < 5 && g.chance(50)) { add((int)g.range(0, 2)); for (auto &x : st) { x->gap = true; if (st.back()->kind == 2 && x->kind == 2) x->joins = x->joining = true; } moved = true; vChanges++; } }
            if (dyn && g.chance(1)) { std::vector<size_t> al; for (size_t i = 0; i < st.size(); i++) if (st[i]->alive) al.push_back(i); if (al.size() > 1) { drop(g.pick(al)); vChanges++; } }
            if (g.chance(1)) { unsigned m = (unsigned)g.range(0, 6); PBT_CHECK(d->configure(dir, base, segDur, m, minBuf), "reconfiguration"); win = std::max(win, std::max(2u, m)); maxSeg = m; g.log() << " window " << m; }
            if (g.chance(1)) for (auto &s : st) if (s->alive && g.chance(50)) { s->oldBps.push_back(std::make_pair(s->bps, s->published)); s->bps = (unsigned)g.range(1, 1000000); PBT_CHECK(d->setDashSegmenterBitrate(s->rid, s->bps), "bit rate"); break; }
            for (auto &s : st) if (s->alive && s->kind != 2 && (!s->u.empty() || key)) feedVideo(*s, tv, key); vk++;
        } else { for (auto &s : st) if (s->alive && s->kind == 2) feedAudio(*s, ta); ak++; }
        int R = lazy == 0 ? 8 : lazy == 1 ? (int)g.range(0, 8) : g.chance(10) ? 60 : 0; for (int i = 0; i < R; i++) run();
    }
    for (int idle = 0; idle < 3;) { size_t n0 = 0, n1 = 0; for (auto &s : st) if (s->alive) n0 += s->src->q->getElements(); run(); for (auto &s : st) if (s->alive) n1 += s->src->q->getElements(); idle = n0 == n1 ? idle + 1 : 0; }
    check(true);
    // what is complete has been published
    if (!moved) { std::vector<Stream *> vs, as; for (auto &s : st) (s->kind == 2 ? as : vs).push_back(s.get()); long minAu = LONG_MAX; for (auto *s : vs) { size_t taken = s->fed - s->src->q->getElements(); long c = 0; while (c < (long)s->u.size() && s->u[c].lastNal < taken) c++; minAu = std::min(minAu, c); }
        if (!vs.empty()) { long segs = minAu >= 3 ? (minAu - 3) / edge : 0, most = minAu / edge + 1; for (auto *s : vs) PBT_CHECK(s->published >= segs && s->published <= most, "%d segments of stream %d published, %ld units of %d per segment were taken by all", s->published, s->rid, minAu, edge); for (auto *s : as) PBT_CHECK(s->published >= segs - 1 && s->published <= most, "%d audio segments published with %ld video segments", s->published, segs); }
        else { long c = LONG_MAX; for (auto *s : as) c = std::min(c, (long)(s->fed - s->src->q->getElements())); long perSeg = (segDur * 48000 + 1023) / 1024; for (auto *s : as) PBT_CHECK(s->published >= (c - 2) / (perSeg + 1), "%d audio segments published of %ld frames", s->published, c); } }
    for (auto &o : others) PBT_CHECK(xml::slurp(dir + "/" + o.first) == o.second, "%s was changed", o.first.c_str()); int pubs = 0; for (auto &s : st) pubs += s->published > 0; if (pubs >= 2 && cleaned) g.nontrivial(); { std::set<std::string> n; DIR *h = opendir(top.c_str()); while (struct dirent *e = readdir(h)) if (e->d_name[0] != '.') n.insert(e->d_name); closedir(h); PBT_CHECK(n == (std::set<std::string>{"keep", "out"}), "files outside the folder"); }
    g.label(moved ? "streams came or went" : "fixed streams"); if (cleaned) g.label("segments left the window"); if (g.chance(50)) d.reset(); 
  }
    g_filterEventSink = nullptr; PBT_CHECK(mp4::heap() < before + 1000000, "%zu bytes are not released", mp4::heap() - before); wipe(top);
}
