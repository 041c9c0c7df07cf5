// C17: the DASH manifest against a model of adaptation sets, representations and the segment window.
#include "common.hh"
#include "xml.hh"
#include "modules/dasher/MpdManager.hh"
#include <deque>
#include <memory>
using namespace pbt;
const char *pbt::RULE = "histories of up to 150 updates of up to 4 video and audio adaptation sets: creation, changes of template and time scale, representations added, changed, removed (also unknown ones and ones of the wrong kind), segment times of up to 64 bits, window and buffer configuration, flushes; names with any printable characters; the manifest is written and read back at generated moments. "
    "Non-trivial: a segment left the window and a manifest with at least two representations was compared";
void pbt::setup() { quietLog(); }
namespace {
struct Rep { std::string codec; int a, b, bw; };
struct Set { bool video; int scale; std::string seg, init; std::map<std::string, Rep> reps; std::deque<std::pair<uint64_t, unsigned>> ts; std::set<int> ws, hs; int fps = -1; };
std::string name(Gen &g) { static const char *plain[] = {"0", "1", "7", "1804289383", "v", "base_$RepresentationID$_$Time$.m4v"}; if (!g.chance(30)) return g.pick({plain[0], plain[1], plain[2], plain[3], plain[4], plain[5]}); std::string s; int n = (int)g.range(1, 12); for (int i = 0; i < n; i++) s += (char)g.range(33, 126); return s; }
std::string it(long v) { return std::to_string(v); }
}
void pbt::property(Gen &g) {
    std::unique_ptr<MpdManager> m(new MpdManager()); std::map<std::string, Set> sets; unsigned maxSeg = 2, segDur = 0, minBuf = 0; bool conf = false; std::vector<std::string> ids; for (int i = (int)g.range(1, 4); i > 0; i--) ids.push_back(name(g)); std::vector<std::string> rids; for (int i = (int)g.range(1, 5); i > 0; i--) rids.push_back(name(g));
    std::string file = scratchDir() + "/m.mpd", start; bool left = false, rich = false; int ops = (int)g.range(3, 150); g.log() << ids.size() << " sets";
    auto compare = [&] {
        m->writeToDisk(file.c_str()); std::string text = xml::slurp(file); xml::El r = xml::parse(text); PBT_CHECK(r.name == "MPD" && r.get("xmlns") == "urn:mpeg:dash:schema:mpd:2011" && r.get("type") == "dynamic" && r.get("profiles") == "urn:mpeg:dash:profile:isoff-live:2011", "root element"); std::string st = r.get("availabilityStartTime"); PBT_CHECK(st.size() == 19 && st[10] == 'T', "start time '%s'", st.c_str()); if (start.empty()) start = st; PBT_CHECK(start == st, "start time moved from %s to %s", start.c_str(), st.c_str());
        if (conf) { unsigned win = maxSeg * segDur, mb = minBuf >= win ? win : minBuf >= 2 * segDur ? minBuf : 2 * segDur; PBT_CHECK(r.get("timeShiftBufferDepth") == fmt("PT%u.0S", win) && r.get("minimumUpdatePeriod") == fmt("PT%u.0S", segDur) && r.get("minBufferTime") == fmt("PT%u.0S", mb), "depth %s, update %s, buffer %s for %u segments of %u s and a buffer of %u s", r.get("timeShiftBufferDepth").c_str(), r.get("minimumUpdatePeriod").c_str(), r.get("minBufferTime").c_str(), maxSeg, segDur, minBuf); PBT_CHECK(m->getMaxSeg() == maxSeg && m->getMinBuffTime() == mb, "getters"); }
        auto as = r.one("Period").all("AdaptationSet"); PBT_CHECK(as.size() == sets.size(), "%zu adaptation sets, expected %zu", as.size(), sets.size()); std::set<std::string> seen;
        for (auto *a : as) {
            std::string id = a->get("id"); PBT_CHECK(sets.count(id) && seen.insert(id).second, "adaptation set '%s'", id.c_str()); Set &s = sets[id]; PBT_CHECK(a->get("mimeType") == (s.video ? "video/mp4" : "audio/mp4"), "kind of set '%s'", id.c_str()); const xml::El &t = a->one("SegmentTemplate"); PBT_CHECK(t.get("timescale") == it(s.scale) && t.get("media") == s.seg && t.get("initialization") == s.init, "template of set '%s': %s %s %s", id.c_str(), t.get("timescale").c_str(), t.get("media").c_str(), t.get("initialization").c_str());
            auto ss = t.one("SegmentTimeline").all("S"); PBT_CHECK(ss.size() == s.ts.size(), "%zu segments listed, expected %zu (window %u)", ss.size(), s.ts.size(), maxSeg); for (size_t i = 0; i < ss.size(); i++) PBT_CHECK(ss[i]->get("t") == std::to_string(s.ts[i].first) && ss[i]->get("d") == std::to_string(s.ts[i].second), "segment %zu is t=%s d=%s, expected %llu %u", i, ss[i]->get("t").c_str(), ss[i]->get("d").c_str(), (unsigned long long)s.ts[i].first, s.ts[i].second);
            auto rs = a->all("Representation"); PBT_CHECK(rs.size() == s.reps.size(), "%zu representations in set '%s', expected %zu", rs.size(), id.c_str(), s.reps.size()); std::set<std::string> rseen; if (rs.size() >= 2) rich = true;
            for (auto *e : rs) { std::string ri = e->get("id"); PBT_CHECK(s.reps.count(ri) && rseen.insert(ri).second, "representation '%s'", ri.c_str()); Rep &q = s.reps[ri]; PBT_CHECK(e->get("codecs") == q.codec && e->get("bandwidth") == it(q.bw), "representation '%s': codec '%s', %s bps", ri.c_str(), e->get("codecs").c_str(), e->get("bandwidth").c_str());
                if (s.video) { PBT_CHECK(e->get("width") == it(q.a) && e->get("height") == it(q.b), "representation '%s' of %sx%s, expected %dx%d", ri.c_str(), e->get("width").c_str(), e->get("height").c_str(), q.a, q.b); PBT_CHECK(atoi(a->get("maxWidth").c_str()) >= q.a && atoi(a->get("maxHeight").c_str()) >= q.b, "largest picture %sx%s", a->get("maxWidth").c_str(), a->get("maxHeight").c_str()); }
                else { PBT_CHECK(e->get("audioSamplingRate") == it(q.a) && e->one("AudioChannelConfiguration").get("value") == it(q.b), "representation '%s': %s Hz, %s channels, expected %d, %d", ri.c_str(), e->get("audioSamplingRate").c_str(), e->one("AudioChannelConfiguration").get("value").c_str(), q.a, q.b); } }
            if (s.video && s.fps >= 0) { PBT_CHECK(s.ws.count(atoi(a->get("maxWidth").c_str())) && s.hs.count(atoi(a->get("maxHeight").c_str())), "largest picture %sx%s was never given", a->get("maxWidth").c_str(), a->get("maxHeight").c_str()); PBT_CHECK(a->get("frameRate") == it(s.fps), "frame rate %s, last given %d", a->get("frameRate").c_str(), s.fps); }
        }
    };
    for (int k = 0; k < ops; k++) {
        const std::string &id = g.pick(ids); bool has = sets.count(id) > 0; int op = (int)g.range(0, 19);
        if (op <= 1 || (!has && op < 12)) { bool v = g.chance(60); int sc = (int)g.edge(1, 10000000); std::string s = name(g), i = name(g); if (v) m->updateVideoAdaptationSet(id, sc, s, i); else m->updateAudioAdaptationSet(id, sc, s, i); if (!has) sets[id].video = v; Set &q = sets[id]; q.scale = sc; q.seg = s; q.init = i; g.log() << (v ? " V" : " A"); }
        else if (op <= 6) { bool v = g.chance(10) ? g.chance(50) : has && sets[id].video; const std::string &ri = g.pick(rids); Rep q = {name(g), (int)g.edge(1, 8192), (int)g.edge(1, 8192), (int)g.edge(0, 100000000)}; int fps = (int)g.edge(1, 240); if (v) m->updateVideoRepresentation(id, ri, q.codec, q.a, q.b, q.bw, fps); else m->updateAudioRepresentation(id, ri, q.codec, q.a, q.bw, q.b); if (has && sets[id].video == v) { Set &s = sets[id]; s.reps[ri] = q; if (v) { s.ws.insert(q.a); s.hs.insert(q.b); s.fps = fps; } } g.log() << " r"; }
        else if (op == 7) { const std::string &ri = g.pick(rids); bool ok = m->removeRepresentation(id, ri), want = has && sets[id].reps.erase(ri); PBT_CHECK(ok == want, "removal of representation '%s' of set '%s' says %d", ri.c_str(), id.c_str(), ok); g.log() << " -r"; }
        else if (op <= 15) { uint64_t t = g.chance(10) ? 0 : g.chance(10) ? (uint64_t)g.edge(0, INT64_MAX) * 2 : (uint64_t)k * 25600; unsigned d = (unsigned)g.edge(1, UINT32_MAX); std::vector<uint64_t> gone = m->updateAdaptationSetTimestamp(id, t, d), want; if (has) { auto &q = sets[id].ts; q.push_back(std::make_pair(t, d)); while (q.size() > maxSeg) { want.push_back(q.front().first); q.pop_front(); left = true; } } PBT_CHECK(gone == want, "%zu segments reported to leave the window (first %llu), expected %zu (first %llu)", gone.size(), gone.empty() ? 0 : (unsigned long long)gone[0], want.size(), want.empty() ? 0 : (unsigned long long)want[0]); g.log() << " t"; }
        else if (op == 16 && g.chance(30)) { bool ok = m->flushAdaptationSetTimestamps(id); PBT_CHECK(ok == has, "flush says %d", ok); if (has) sets[id].ts.clear(); g.log() << " f"; }
        else if (op <= 17) { unsigned b = (unsigned)g.edge(0, 1000), n = (unsigned)g.edge(0, g.chance(80) ? 8 : 500); segDur = (unsigned)g.edge(1, 60); m->configure(b, n, segDur); maxSeg = n < 2 ? 2 : n; minBuf = b; conf = true; g.log() << " c" << n; }
        else compare();
    }
    compare(); unlink(file.c_str()); m.reset(); if (left && rich) g.nontrivial();
}
