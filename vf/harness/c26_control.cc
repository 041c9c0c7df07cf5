// C26: the control protocol over a real loopback socket: the real Controller and
// PipelineManager, real mixers, splitter, encoder and dasher.  A model keeps what
// each accepted message implies; everything is observed through replies.
#define VF_MOCK_DEFINE
#include "fakefilters.hh"
#include "Controller.hh"
#include <math.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
using namespace pbt;
namespace fake { std::vector<std::shared_ptr<Rec>> g_created; std::atomic<uint64_t> g_next(1); std::atomic<int> g_alive(0), g_work(0); bool g_realQueues = true; }
const char *pbt::RULE = "at least one filter was reconfigured by a message, one message was refused, and one was not a well-formed request";
namespace {
Controller *ctrl; PipelineManager *pm; int port;
int openFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
struct NullCout { };
std::string text(const Jzon::Node &n) { Jzon::Writer w(n, Jzon::NoFormat); w.Write(); return w.GetResult(); }
// one connection; returns the bytes the server sent before closing
enum End { NORMAL, SHUT, VANISH };
std::string talk(const std::string &msg, End end) {
    int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a)) { close(s); throw Discard(); }
    if (!msg.empty()) { ssize_t w = send(s, msg.data(), msg.size(), MSG_NOSIGNAL); if (w != (ssize_t)msg.size()) { close(s); throw Discard(); } }
    if (end != NORMAL || msg.empty()) shutdown(s, SHUT_WR);
    bool got = ctrl->listenSocket(); for (int i = 0; i < 50 && !got; i++) got = ctrl->listenSocket(); PBT_CHECK(got, "the connection was not accepted");
    if (end == VANISH) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(s); s = -1; }
    if (ctrl->readAndParse()) { ctrl->processRequest(); }
    if (s < 0) return "";
    std::string out; char b[65536]; for (;;) { struct pollfd p = {s, POLLIN, 0}; int r = poll(&p, 1, 3000); if (r == 0) { close(s); pbt::fail("the client got neither a complete reply nor the end of the connection: '" + out.substr(0, 200) + "'"); } ssize_t n = read(s, b, sizeof b); if (n <= 0) break; out.append(b, n); }
    close(s); return out;
}
struct Reply { Jzon::Object o; };
void parsed(const std::string &r, Jzon::Object &o, const std::string &msg) { PBT_CHECK(!r.empty(), "no reply to %s", msg.substr(0, 300).c_str()); bool ok = false; try { Jzon::Parser p(o, r); ok = p.Parse(); } catch (std::exception &e) { } PBT_CHECK(ok, "the reply '%s' is not JSON", r.substr(0, 300).c_str()); }
// (Jzon objects must not be assigned: they have no deep assignment)
void into(Jzon::Object &e, int filter, const std::string &action, Jzon::Object &params) { e.Add("filterId", filter); e.Add("action", action); e.Add("params", params); }
Jzon::Object event(int filter, const std::string &action, Jzon::Object params, bool withFilter = true) { Jzon::Object e; if (withFilter) e.Add("filterId", filter); e.Add("action", action); e.Add("params", params); return e; }
std::string message(Jzon::Object e) { Jzon::Object o; Jzon::Array a; a.Add(e); o.Add("events", a); return text(o); }
bool send1(const Jzon::Object &e) { std::string m = message(e); Jzon::Object o; parsed(talk(m, NORMAL), o, m); PBT_CHECK(o.Has("error"), "no verdict on %s", m.substr(0, 300).c_str()); return o.Get("error").IsNull(); }
bool ask(const std::string &action, Jzon::Object params) { return send1(event(0, action, params, false)); }
// expected state of a filter: flattened "path" -> value
typedef std::map<std::string, std::string> Flat;
void flat(const Jzon::Node &n, const std::string &pre, Flat &f) {
    if (n.IsObject()) { const Jzon::Object &o = n.AsObject(); for (Jzon::Object::const_iterator i = o.begin(); i != o.end(); ++i) flat((*i).second, pre + "/" + (*i).first, f); }
    else if (n.IsArray()) { const Jzon::Array &a = n.AsArray(); for (size_t i = 0; i < a.GetCount(); i++) { const Jzon::Node &c = a.Get(i); std::string k = std::to_string(i); if (c.IsObject() && c.Has("id")) k = "id" + c.Get("id").ToString(); else if (c.IsValue()) k = "=" + c.ToString(); flat(c, pre + "/" + k, f); } }
    else f[pre] = n.ToString(); }
std::string show(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
bool close2(const std::string &a, const std::string &b) { if (a == b) return true; char *ea, *eb; double x = strtod(a.c_str(), &ea), y = strtod(b.c_str(), &eb); if (*ea || *eb || a.empty() || b.empty()) return false; return fabs(x - y) <= 1e-5 * std::max(1.0, std::max(fabs(x), fabs(y))); }
struct MF { std::string type; Flat st; std::set<int> ids; };
std::map<int, MF> M;
std::map<int, Flat> query() { Jzon::Object none, o; std::string m = message(event(0, "getState", none, false)); parsed(talk(m, NORMAL), o, m); std::map<int, Flat> r; const Jzon::Array &a = o.Get("filters").AsArray(); for (size_t i = 0; i < a.GetCount(); i++) { Flat f; flat(a.Get(i), "", f); r[a.Get(i).Get("id").ToInt()] = f; } return r; }
std::string diff(const Flat &a, const Flat &b) { std::string s; for (auto &x : a) { auto i = b.find(x.first); if (i == b.end()) s += " " + x.first + "=" + x.second + " missing;"; else if (!close2(x.second, i->second)) s += " " + x.first + " expected " + x.second + " reported " + i->second + ";"; } for (auto &x : b) if (!a.count(x.first)) s += " unexpected " + x.first + "=" + x.second + ";"; return s; }
void settle() { for (auto &f : M) { BaseFilter *b = pm->getFilter(f.first); if (b) { int ret = 0; b->processFrame(ret); } } }
void check(const char *after) { settle(); std::map<int, Flat> q = query(); for (auto &f : M) { PBT_CHECK(q.count(f.first), "after %s: filter %d is not reported", after, f.first); std::string d = diff(f.second.st, q[f.first]); PBT_CHECK(d.empty(), "after %s: state of filter %d (%s):%s", after, f.first, f.second.type.c_str(), d.c_str()); } for (auto &x : q) PBT_CHECK(M.count(x.first), "after %s: filter %d is reported", after, x.first); }
double num(Gen &g, double lo, double hi) { return lo + (hi - lo) * g.range(0, 64) / 64.0; }
std::string key(const char *list, int id, const char *f) { return std::string("/") + list + "/id" + std::to_string(id) + "/" + f; }
}
void pbt::setup() {
    quietLog(); std::cout.setstate(std::ios::failbit); signal(SIGPIPE, SIG_DFL); const char *s = getenv("PBT_SCRATCH"); if (!s || chdir(s)) { perror("scratch"); _exit(3); } mkdir("d0", 0755); mkdir("d1", 0755);
    ctrl = Controller::getInstance(); pm = ctrl->pipelineManager(); for (int i = 0; i < 200; i++) { port = 20000 + (getpid() * 37 + i * 101) % 12000; if (ctrl->createSocket(port)) { ctrl->listenSocket(); return; } ctrl->stopAndCloseSocket(); } fprintf(stderr, "no port\n"); _exit(3);
}
void pbt::property(Gen &g) {
    M.clear(); pm->stop(); fake::g_created.clear(); int fds = openFds(); int changed = 0, refused = 0, malformed = 0; int ops = (int)g.edge(2, 25), nextId = (int)g.range(0, 50);
    auto make = [&](const char *type) { Jzon::Object p; p.Add("id", nextId); p.Add("type", type); PBT_CHECK(ask("createFilter", p), "filter %d of type %s was refused", nextId, type); g.log() << " +" << nextId << ":" << type; MF m; m.type = type; M[nextId] = m; std::map<int, Flat> q = query(); PBT_CHECK(q.count(nextId), "filter %d is not reported", nextId); M[nextId].st = q[nextId]; PBT_CHECK(M[nextId].st["/type"] == type, "type %s", M[nextId].st["/type"].c_str()); return nextId++; };
    // a mixer or splitter with connections made by path requests
    auto join = [&](int from, int to, int w, int r) { Jzon::Object p; p.Add("id", nextId++); p.Add("orgFilterId", from); p.Add("dstFilterId", to); p.Add("orgWriterId", w); p.Add("dstReaderId", r); { Jzon::Array none; p.Add("midFiltersIds", none); } PBT_CHECK(ask("createPath", p), "path %d.%d > %d.%d was refused", from, w, to, r); std::map<int, Flat> q = query(); for (int x : {from, to}) M[x].st = q[x]; };
    int kinds = (int)g.range(1, 3);
    for (int k = 0; k < kinds; k++) {
        int t = (int)g.range(0, 4), n = (int)g.range(1, 3);
        if (t == 0) { int m = make("videoMixer"); for (int i = 0; i < n; i++) { int d = make("videoDecoder"), r = (int)g.range(1, 9); if (M[m].ids.count(r)) continue; join(d, m, -1, r); M[m].ids.insert(r); for (const char *f : {"width", "height", "x", "y", "layer", "enabled", "opacity"}) PBT_CHECK(M[m].st.count(key("channels", r, f)), "channel %d has no %s", r, f); } }
        else if (t == 1) { int m = make("audioMixer"); for (int i = 0; i < n; i++) { int d = make("audioDecoder"), r = (int)g.range(1, 9); if (M[m].ids.count(r)) continue; join(d, m, -1, r); M[m].ids.insert(r); PBT_CHECK(M[m].st.count(key("gains", r, "gain")), "channel %d has no gain", r); } }
        else if (t == 2) { int m = make("videoSplitter"); for (int i = 0; i < n; i++) { int d = make("transmitter"), w = (int)g.range(1, 9); if (M[m].ids.count(w)) continue; join(m, d, w, 1); M[m].ids.insert(w); for (const char *f : {"width", "height", "x", "y", "degree"}) PBT_CHECK(M[m].st.count(key("crops", w, f)), "crop %d has no %s", w, f); } }
        else if (t == 3) make("videoEncoder"); else make("dasher");
    }
    check("the setup");
    for (int k = 0; k < ops; k++) {
        int op = (int)g.range(0, 11); auto it = std::next(M.begin(), g.range(0, M.size() - 1)); int id = it->first; MF &m = it->second; Flat want = m.st; std::string act; Jzon::Object p; bool good = true;
        int ch = m.ids.empty() || g.chance(10) ? (int)g.range(0, 12) : *std::next(m.ids.begin(), g.range(0, m.ids.size() - 1)); bool has = m.ids.count(ch) != 0; int drop = g.chance(8) ? (int)g.range(0, 7) : -1, field = 0; auto put = [&](const char *n, Jzon::Value v) { if (field++ != drop) { p.Add(n, v); return true; } return false; }; using Jzon::Value;
        if (op < 8) {
            if (m.type == "videoMixer") {
                if (g.chance(65)) { act = "configChannel"; double w = num(g, 0, 1), h = num(g, 0, 1), x = num(g, 0, 1), y = num(g, 0, 1), o = num(g, 0, 1); int l = (int)g.range(0, 16); bool e = g.chance(50); if (g.chance(15)) { double bad = g.pick({-0.5, 1.5, 100.0, -0.015625}); int q = (int)g.range(0, 5); if (q == 0) w = bad; else if (q == 1) h = bad; else if (q == 2) x = bad; else if (q == 3) y = bad; else if (q == 4) o = bad; else l = g.pick({-1, 17, 1000}); }
                    bool all = true; all &= put("id", Value(ch)); all &= put("width", Value(w)); all &= put("height", Value(h)); all &= put("x", Value(x)); all &= put("y", Value(y)); all &= put("layer", Value(l)); all &= put("enabled", Value(e)); all &= put("opacity", Value(o));
                    good = has && all && w > 0 && w <= 1 && h > 0 && h <= 1 && x >= 0 && x <= 1 && y >= 0 && y <= 1 && o >= 0 && o <= 1 && l >= 0 && l <= 16;
                    if (good) { want[key("channels", ch, "width")] = show(w); want[key("channels", ch, "height")] = show(h); want[key("channels", ch, "x")] = show(x); want[key("channels", ch, "y")] = show(y); want[key("channels", ch, "layer")] = std::to_string(l); want[key("channels", ch, "enabled")] = e ? "true" : "false"; want[key("channels", ch, "opacity")] = show(o); }
                } else { act = "configure"; int w = g.chance(80) ? (int)g.range(1, 1920) : g.pick({0, -1, 1921, 100000}), h = g.chance(80) ? (int)g.range(1, 1080) : g.pick({0, -5, 1081, 1920}); bool a = put("width", Value(w)), b = put("height", Value(h)); if (g.chance(50)) put("fps", Value((int)g.range(0, 60))); if (a && b) { good = w > 0 && w <= 1920 && h > 0 && h <= 1080; if (good) { want["/width"] = std::to_string(w); want["/height"] = std::to_string(h); } } }
            } else if (m.type == "audioMixer") {
                int q = (int)g.range(0, 4); double v = num(g, -0.5, 1.5); auto clampv = [](double x) { return x > 1 ? 1.0 : x < 0 ? 0.0 : x; };
                if (q == 0) { act = "changeChannelGain"; bool a = put("id", Value(ch)), b = put("gain", Value(v)); good = a && b && has; if (good) want[key("gains", ch, "gain")] = show(clampv(v)); }
                else if (q == 1) { act = "muteChannel"; good = put("id", Value(ch)) && has; if (good) want[key("gains", ch, "gain")] = "0"; }
                else if (q == 2) { act = "soloChannel"; good = put("id", Value(ch)) && has; if (good) for (int c : m.ids) want[key("gains", c, "gain")] = c == ch ? "1" : "0"; }
                else if (q == 3) { act = "changeMasterGain"; v = num(g, 0, 1); good = put("gain", Value(v)); if (good) want["/masterGain"] = show(v); }
                else { act = "muteMaster"; want["/masterGain"] = "0"; }
            } else if (m.type == "videoSplitter") {
                if (g.chance(80)) { act = "configCrop"; int w = (int)g.edge(1, 4000), h = (int)g.edge(1, 4000), x = (int)g.edge(0, 4000), y = (int)g.edge(0, 4000), d = (int)g.range(0, 720) - 360; if (g.chance(15)) { int q = (int)g.range(0, 4); if (q == 0) w = g.pick({0, -1}); else if (q == 1) h = g.pick({0, -7}); else if (q == 2) x = -1; else if (q == 3) y = -3; else d = g.pick({361, -361, 5000}); }
                    bool all = true; all &= put("id", Value(ch)); all &= put("width", Value(w)); all &= put("height", Value(h)); all &= put("x", Value(x)); all &= put("y", Value(y)); bool deg = g.chance(60) && put("degree", Value(d)); if (!deg) d = 0; good = has && all && w > 0 && h > 0 && x >= 0 && y >= 0 && d <= 360 && d >= -360;
                    if (good) { want[key("crops", ch, "width")] = std::to_string(w); want[key("crops", ch, "height")] = std::to_string(h); want[key("crops", ch, "x")] = std::to_string(x); want[key("crops", ch, "y")] = std::to_string(y); want[key("crops", ch, "degree")] = std::to_string(d); }
                } else { act = "configure"; int t = g.chance(80) ? (int)g.edge(0, 100000) : -(int)g.range(1, 1000); bool a = put("fTime", Value(t)); good = t >= 0; if (!a) { t = 0; good = true; } if (good) want["/frameTime"] = std::to_string(t); }
            } else if (m.type == "videoEncoder") {
                if (g.chance(20)) { act = "gopReferenceTime"; std::string v = g.chance(85) ? std::to_string(g.edge(0, 4000000000000ULL)) : g.pick({std::string("x1"), std::string(""), std::string("99999999999999999999999")}); good = put("referenceTime", Value(v)) && !v.empty() && v[0] != 'x' && v.size() < 20; if (good) want["/refTime"] = v; }
                else if (g.chance(10)) act = "forceIntra";
                else { act = "configure"; auto f = [&](const char *n, int lo, int hi, bool &ok) { if (g.chance(50)) return; int v = g.chance(90) ? (int)g.range(lo, hi) : g.pick({0, -1, -100}); if (!put(n, Value(v))) return; if (v < lo) ok = false; want[std::string("/") + n] = std::to_string(v); };
                    f("bitrate", 1, 50000, good); f("gop", 1, 300, good); f("lookahead", 0, 60, good); f("threads", 1, 16, good); if (g.chance(40)) { int v = (int)g.range(0, 6); if (put("bframes", Value(v))) want["/bframes"] = std::to_string(v); } if (g.chance(40)) { bool b = g.chance(50); if (put("annexb", Value(b))) want["/annexb"] = b ? "true" : "false"; }
                    if (g.chance(40)) { std::string s = g.pick({std::string("ultrafast"), std::string("superfast"), std::string("medium"), std::string("")}); if (put("preset", Value(s))) { good &= !s.empty(); want["/preset"] = s; } }
                    if (g.chance(40)) { int v = (int)g.range(0, 60); if (put("fps", Value(v))) want["/fps"] = std::to_string(v ? v : 25); } if (g.chance(40)) { int v = g.pick({0, 1, 999999, 1000000, 1000001, 5000000}); if (put("gopTime", Value(v))) want["/gopTime"] = std::to_string(v == 0 ? 0 : std::max(v, 1000000)); } }
            } else if (m.type == "dasher") {
                act = "configure"; if (!want.count("/maxSegments") || want["/maxSegments"].empty()) { }
                /* at least two segments are kept; the buffer time is held between two and all of them */ std::string folder = g.pick({std::string("d0"), std::string("d1/"), std::string("missing"), std::string("")}), base = g.chance(90) ? "b" + std::to_string(g.range(0, 9)) : ""; int sd = g.chance(90) ? (int)g.range(1, 20) : 0, ms = (int)g.range(1, 10), mb = (int)g.range(1, 10); put("folder", Value(folder)); put("baseName", Value(base)); put("segDurInSec", Value(sd)); put("maxSeg", Value(ms)); put("minBuffTime", Value(mb));
                if (drop < 5 && drop >= 0) { good = false; if (drop != 0) p.Clear(); } else { good = folder[0] == 'd' && !base.empty() && sd > 0; if (good) { if (*folder.rbegin() != '/') folder += "/"; want["/folder"] = folder; want["/baseName"] = base; want["/mpdURI"] = folder + base + ".mpd"; want["/segDurInSec"] = std::to_string(sd); want["/maxSegments"] = std::to_string(std::max(2, ms)); want["/minBufferTime"] = std::to_string(std::min(std::max(2, ms) * sd, std::max(mb, 2 * sd))); } }
                if (drop >= 0 && drop < 5) { // keeps whatever was not said: only from a configured state is the outcome implied
                    if (drop == 0) { bool conf = !m.st["/baseName"].empty(); good = conf && !base.empty() && sd > 0; if (good) { want["/baseName"] = base; want["/mpdURI"] = want["/folder"] + base + ".mpd"; want["/segDurInSec"] = std::to_string(sd); want["/maxSegments"] = std::to_string(std::max(2, ms)); want["/minBufferTime"] = std::to_string(std::min(std::max(2, ms) * sd, std::max(mb, 2 * sd))); } } else { good = !m.st["/baseName"].empty(); } }
            } else continue;
            if (!good) want = m.st; g.log() << " " << id << "." << act << text(p).substr(0, 200) << (good ? "" : "!"); 
            if (g.chance(75)) { bool acc = send1(event(id, act, p)); PBT_CHECK(acc, "a message for existing filter %d was refused", id); }
            else { // among others that mean nothing
                Jzon::Object o; Jzon::Array a; auto noise = [&] { Jzon::Object none, e, q; int k = (int)g.range(0, 4); if (k == 0) into(e, 4000, act, p); else if (k == 1) into(e, id, "nothing", p); else if (k == 2) { e.Add("action", "getState"); e.Add("params", none); } else if (k == 3) { e.Add("action", act); } else { a.Add((int)g.range(0, 9)); return; } a.Add(e); };
                for (int n = (int)g.range(0, 2); n > 0; n--) noise(); Jzon::Object e; into(e, id, act, p); a.Add(e); for (int n = (int)g.range(0, 2); n > 0; n--) noise(); o.Add("events", a); std::string m = text(o); g.log() << " among " << a.GetCount(); Jzon::Object rep; parsed(talk(m, NORMAL), rep, m); }
             if (good) changed++; else refused++; if (want != m.st) m.st = want; check((act + " " + text(p)).c_str());
        } else if (op == 8) { // unknown action, unknown filter, missing parts
            Jzon::Object e; int q = (int)g.range(0, 4); if (q == 0) into(e, id, g.pick({std::string("nothing"), std::string(""), std::string("CONFIGURE")}), p); else if (q == 1) into(e, g.pick({-1, 5000, 1 << 30}), "configure", p); else if (q == 2) { e.Add("filterId", id); e.Add("params", p); } else if (q == 3) { e.Add("filterId", id); e.Add("action", "configure"); } else { e.Add("filterId", id); e.Add("action", "configure"); e.Add("params", Value()); }
            g.log() << " odd" << q; bool acc = send1(e); PBT_CHECK(q == 0 || q == 4 || !acc, "accepted: %s", text(e).c_str()); refused++; check("an event that means nothing");
        } else if (op == 9) { // parameters of the wrong type: nothing else may change, and nothing may break
            std::vector<Value> vs = {Value("x"), Value(""), Value(true), Value(-2147483647 - 1), Value(1e300), Value()}; const char *acts[] = {"configChannel", "configure", "changeChannelGain", "muteChannel", "soloChannel", "changeMasterGain", "configCrop", "gopReferenceTime", "setBitrate"}; const char *names[] = {"id", "width", "height", "x", "y", "layer", "enabled", "opacity", "gain", "fps", "degree", "fTime", "bitrate", "gop", "preset", "referenceTime", "annexb", "segDurInSec", "baseName", "pixelFormat"};
            act = acts[g.range(0, 8)]; for (const char *n : names) { int q = (int)g.range(0, 9); if (q < 6) p.Add(n, vs[q]); else if (q == 6) { Jzon::Array none; p.Add(n, none); } else if (q == 7) { Jzon::Object none; p.Add(n, none); } else if (q == 8) p.Add(n, (int)g.range(0, 9)); }
            if (m.type == "dasher") p.Add("folder", Value("d0")); g.log() << " " << id << "." << act << "?" ; Jzon::Object e; if (!g.chance(10)) into(e, id, act, p); else { e.Add("filterId", id); e.Add("action", act); Jzon::Array a; a.Add(1); e.Add("params", a); } send1(e); settle(); std::map<int, Flat> q = query(); if (q.count(id)) m.st = q[id]; refused++; check("parameters of the wrong type");
        } else { // bytes that are no request
            std::string b; if (op == 10) { p.Add("id", ch); b = message(event(id, "nothing", p)); for (int n = (int)g.edge(1, 6); n > 0; n--) { int q = (int)g.range(0, 3); size_t at = b.empty() ? 0 : g.range(0, b.size() - 1); if (q == 0) b.resize(at); else if (q == 1 && !b.empty()) b[at] = (char)g.range(1, 255); else if (q == 2) b.insert(at, 1, (char)g.pick({'{', '}', '[', ']', '"', ',', ':', '\\', '/', '*'})); else b += b.substr(at); } } else { int n = (int)g.edge(0, g.chance(5) ? 30000 : 200); for (int i = 0; i < n; i++) b += (char)g.range(0, 255); }
            if (g.chance(15)) b = g.pick({std::string("[]"), std::string("{}"), std::string("{\"events\":{}}"), std::string("{\"events\":[1]}"), std::string("{\"events\":[[]]}"), std::string("{\"events\":[{}]}"), std::string("{\"events\":[{\"action\":{},\"params\":{}}]}"), std::string("{\"events\":[{\"action\":\"createPath\",\"params\":[]}]}"), std::string("{\"events\":[{\"action\":\"createFilter\",\"params\":{\"id\":[],\"type\":{}}}]}"), std::string("{\"events\":[{\"action\":\"removePath\",\"params\":{\"id\":{}}}]}"), std::string("{\"events\":[{\"action\":\"createPath\",\"params\":{\"id\":[],\"orgFilterId\":{},\"dstFilterId\":null,\"orgWriterId\":\"\",\"dstReaderId\":[],\"midFiltersIds\":[[]]}}]}")});
            End end = g.chance(70) ? NORMAL : g.chance(60) ? SHUT : VANISH; if (g.chance(25)) { end = VANISH; Jzon::Object none; b = message(event(0, "getState", none, false)); } std::string why; g.log() << " bytes(" << b.size() << (end == VANISH ? " gone" : "") << ")"; std::string r = talk(b, end); if (end != VANISH) { Jzon::Object o; parsed(r, o, b); } malformed++; check("bytes that are no request");
        }
    }
    PBT_CHECK(pm->stop(), "stop"); M.clear(); int now = openFds(); PBT_CHECK(now <= fds, "%d file descriptors more than before", now - fds); if (changed && refused && malformed) g.nontrivial(); g.label(fmt("reconfigured %s", changed > 5 ? "often" : changed ? "a little" : "never")); if (malformed) g.label("not a request"); if (refused) g.label("refused");
}
