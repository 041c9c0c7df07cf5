// C20: JSON documents written by the library or by hand parse back to what they
// say; malformed text is rejected, never crashes, and leaves the parser usable.
#include "pbt.hh"
#include "Jzon.h"
#include <math.h>
#include <memory>
using namespace pbt;
using namespace Jzon;
const char *pbt::RULE = "the document nests at least two levels and has at least four values, or is malformed";
static std::string dir;
void pbt::setup() { dir = std::string("/tmp/vf-c20-") + std::to_string(getpid()); }
namespace {
struct V { int t = 0; /*0 null 1 string 2 number 3 bool 4 object 5 array*/ std::string s; std::vector<std::pair<std::string, V>> kids; };
std::string str(Gen &g) {
    static const char A[] = "ab\"\\/\n\t\b\f\r{}[],: *nu1e-.\x01\x7f\xc3\xa9\xff"; std::string s; int n = (int)g.edge(0, g.chance(5) ? 300 : 8);
    for (int i = 0; i < n; i++) { int k = (int)g.range(0, 9); if (k < 8) s += A[g.range(0, sizeof A - 2)]; else if (k == 8) s += (char)g.range(0, 255); else s += g.pick({"\\\"", "\\", "/*", "*/", "//", "\\n", "\"", "true"}); }
    return s;
}
std::string num(Gen &g) {
    switch (g.range(0, 3)) { case 0: return std::to_string((int)g.edge(INT32_MIN, INT32_MAX)); case 1: return std::to_string((int)g.range(-9, 9));
    case 2: return fmt("%ld.%ld", (long)g.range(-999, 999), (long)g.range(0, 9999)); default: return fmt("%ld%s%s%d", (long)g.range(-99, 99), g.pick({"e", "E"}), g.pick({"", "+", "-"}), (int)g.range(0, 30)); }
}
V gen(Gen &g, int depth, int &budget) {
    V v; budget--; int k = depth <= 0 || budget <= 0 ? (int)g.range(0, 3) : (int)g.range(0, 7); if (k == 6) k = 4; if (k == 7) k = 5; v.t = k;
    if (k == 1) v.s = str(g); else if (k == 2) v.s = num(g); else if (k == 3) v.s = g.chance(50) ? "true" : "false";
    else if (k >= 4) { int n = (int)g.edge(0, 5); for (int i = 0; i < n && budget > 0; i++) { std::string nm = k == 4 ? (g.chance(20) && !v.kids.empty() ? v.kids[0].first : str(g)) : std::string(); V c = gen(g, depth - 1, budget); v.kids.push_back(std::make_pair(nm, c)); } }
    return v;
}
int count(const V &v) { int n = v.t < 4; for (auto &k : v.kids) n += count(k.second); return n; }
int depthOf(const V &v) { int d = 0; for (auto &k : v.kids) d = std::max(d, depthOf(k.second)); return d + (v.t >= 4); }
// through the library's own construction interface
Value val(const V &v) { return v.t == 0 ? Value() : Value(v.t == 1 ? Value::VT_STRING : v.t == 2 ? Value::VT_NUMBER : Value::VT_BOOL, v.s); }
void add(Object &o, const V &v); void add(Array &a, const V &v);
template <class P> void put(const V &v, P p) { if (v.t == 4) { Object o; add(o, v); p(o); } else if (v.t == 5) { Array a; add(a, v); p(a); } else { Value x = val(v); p(x); } }
void add(Object &o, const V &v) { for (auto &k : v.kids) put(k.second, [&](Node &n) { o.Add(k.first, n); }); }
void add(Array &a, const V &v) { for (auto &k : v.kids) put(k.second, [&](Node &n) { a.Add(n); }); }
bool same(const Node &n, const V &v, std::string &why) {
    if (v.t == 4) {
        if (!n.IsObject()) { why = "not an object"; return false; } const Object &o = n.AsObject(); if (o.GetCount() != v.kids.size()) { why = fmt("%zu members for %zu", o.GetCount(), v.kids.size()); return false; }
        size_t i = 0; for (Object::const_iterator it = o.begin(); it != o.end(); ++it, ++i) { if ((*it).first != v.kids[i].first) { why = "name '" + jesc((*it).first) + "' for '" + jesc(v.kids[i].first) + "'"; return false; } if (!same((*it).second, v.kids[i].second, why)) return false;
            if (!o.Has(v.kids[i].first)) { why = "Has('" + jesc(v.kids[i].first) + "') is false"; return false; } size_t first = 0; while (v.kids[first].first != v.kids[i].first) first++; if (first == i && &o.Get(v.kids[i].first) != &(*it).second) { why = "Get gives another member"; return false; } }
        return i == v.kids.size();
    }
    if (v.t == 5) {
        if (!n.IsArray()) { why = "not an array"; return false; } const Array &a = n.AsArray(); if (a.GetCount() != v.kids.size()) { why = fmt("%zu elements for %zu", a.GetCount(), v.kids.size()); return false; }
        size_t i = 0; for (Array::const_iterator it = a.begin(); it != a.end(); ++it, ++i) if (!same(*it, v.kids[i].second, why) || &a.Get(i) != &*it) return false; return i == v.kids.size();
    }
    if (!n.IsValue()) { why = "not a value"; return false; }
    if (n.IsNull() != (v.t == 0) || n.IsString() != (v.t == 1) || n.IsNumber() != (v.t == 2) || n.IsBool() != (v.t == 3)) { why = fmt("value of another type than %d", v.t); return false; }
    if (v.t == 0) { if (n.ToInt() != 0 || n.ToBool() || n.ToDouble() != 0) { why = "null is not zero"; return false; } return true; }
    if (n.ToString() != v.s) { why = "'" + jesc(n.ToString()) + "' for '" + jesc(v.s) + "'"; return false; }
    if (v.t == 3 && n.ToBool() != (v.s == "true")) { why = "truth value"; return false; }
    if (v.t == 2) { double d = strtod(v.s.c_str(), NULL); if (fabs(n.ToDouble() - d) > 1e-12 * fabs(d) || fabs(n.ToFloat() - d) > 1e-5 * fabs(d)) { why = fmt("%s is %g", v.s.c_str(), n.ToDouble()); return false; } if (v.s.find_first_of(".eE") == std::string::npos && n.ToInt() != strtol(v.s.c_str(), NULL, 10)) { why = fmt("%s is %d", v.s.c_str(), n.ToInt()); return false; } }
    if (v.t == 1) { try { n.ToInt(); why = "a string has an integer value"; return false; } catch (ValueException &) {} try { n.ToBool(); why = "a string has a truth value"; return false; } catch (ValueException &) {} }
    return true;
}
// a value goes through a history of typed assignments, copies and comparisons; the model keeps what was stored last
void values(Gen &g) {
    const int N = 3; Value x[N]; V m[N]; double num[N] = {0, 0, 0}; int n = (int)g.range(1, 12); std::string why, log;
    for (int i = 0; i < n; i++) {
        int k = (int)g.range(0, N - 1), o = (int)g.range(0, N - 1), how = (int)g.range(0, 1), op = (int)g.range(0, 7); V v; double d = 0; log += fmt(" %d:%d/%d", k, op, how);
        if (op == 0) { x[k].SetNull(); }
        else if (op == 1) { int y = (int)g.edge(INT32_MIN, INT32_MAX); if (how) x[k] = y; else x[k].Set(y); v.t = 2; d = y; PBT_CHECK(x[k].ToInt() == y, "%d is stored as %d", y, x[k].ToInt()); }
        else if (op == 2) { double y = ldexp((double)g.range(-1000000, 1000000), (int)g.range(-60, 60)); if (how) x[k] = y; else x[k].Set(y); v.t = 2; d = y; }
        else if (op == 3) { float y = (float)ldexp((double)g.range(-100000, 100000), (int)g.range(-60, 60)); if (how) x[k] = y; else x[k].Set(y); v.t = 2; d = y; }
        else if (op == 4) { bool y = g.chance(50); if (how) x[k] = y; else x[k].Set(y); v.t = 3; v.s = y ? "true" : "false"; d = 0; PBT_CHECK(x[k].ToBool() == y, "truth value %d is stored as %d", y, x[k].ToBool()); }
        else if (op == 5) { v.t = 1; v.s = str(g); std::string e = Value::EscapeString(v.s); PBT_CHECK(Value::UnescapeString(e) == v.s, "'%s' is escaped as '%s'", jesc(v.s).c_str(), jesc(e).c_str()); if (v.s.find('\0') == std::string::npos && g.chance(50)) { if (how) x[k] = e.c_str(); else x[k].Set(e.c_str()); } else if (how) x[k] = e; else x[k].Set(e); }
        else if (op == 6) { if (how) x[k] = x[o]; else x[k].Set(x[o]); v = m[o]; d = num[o]; }
        else { const Node &nd = x[o]; if (how) x[k] = nd; else { Value c(nd); x[k].Set(c); } v = m[o]; d = num[o]; }
        if (op == 1 || op == 2 || op == 3) { v.s = x[k].ToString(); double back = strtod(v.s.c_str(), NULL); PBT_CHECK(fabs(back - d) <= 1e-5 * fabs(d), "%.9g is stored as '%s'", d, v.s.c_str()); }
        m[k] = v; num[k] = d;
        for (int j = 0; j < N; j++) { PBT_CHECK(same(x[j], m[j], why), "value %d after%s: %s", j, log.c_str(), why.c_str()); for (int l = 0; l < N; l++) { bool eq = m[j].t == m[l].t && m[j].s == m[l].s; PBT_CHECK((x[j] == x[l]) == eq && (x[j] != x[l]) == !eq, "values %d and %d compare wrongly after%s", j, l, log.c_str()); } if (m[j].t == 3 || m[j].t == 1) { bool th = false; try { x[j].ToDouble(); } catch (ValueException &) { th = true; } PBT_CHECK(th, "no number has a numeric value"); } if (m[j].t == 2) { bool th = false; try { x[j].ToBool(); } catch (ValueException &) { th = true; } PBT_CHECK(th, "a number has a truth value"); }
            try { x[j].AsObject(); fail("a value is taken for an object"); } catch (TypeException &) {} try { x[j].AsArray(); fail("a value is taken for an array"); } catch (TypeException &) {} }
    }
    // typed adding to containers
    int y = (int)g.edge(INT32_MIN, INT32_MAX); bool b = g.chance(50); Object o; o.Add("i", y); o.Add("b", b); o.Add("n", Value()); Array a; a.Add(b); a.Add(y); a.Add(!b); o.Add("a", a); PBT_CHECK(o.GetCount() == 4 && o.Get("i").ToInt() == y && o.Get("b").IsBool() && o.Get("b").ToBool() == b && o.Get("n").IsNull() && o.Get("a").GetCount() == 3 && o.Get("a").Get(0).ToBool() == b && o.Get("a").Get(1).ToInt() == y && o.Get("a").Get(2).ToBool() == !b, "typed members");
    a.Clear(); PBT_CHECK(a.GetCount() == 0 && o.Get("a").GetCount() == 3, "the member is not a copy"); o.Clear(); PBT_CHECK(o.GetCount() == 0 && !o.Has("i"), "cleared");
}
// by hand, with every freedom JSON (plus comments) gives
std::string ws(Gen &g, bool on) {
    std::string s; if (!on) return s; int n = g.chance(70) ? 0 : (int)g.range(1, 3);
    for (int i = 0; i < n; i++) { int k = (int)g.range(0, 5); if (k < 4) s += " \n\t\r"[k]; else { std::string c = str(g), o; for (char x : c) { bool bad = k == 4 ? (!o.empty() && ((o[o.size() - 1] == '/' && x == '*') || (o[o.size() - 1] == '*' && x == '/'))) : x == '\n'; if (!bad) o += x; } if (k == 4) { if (!o.empty() && (o[0] == '/')) o[0] = ' '; s += "/*" + o + " */"; } else s += "//" + o + "\n"; } }
    return s;
}
std::string quote(Gen &g, const std::string &s) {
    static const char *U = "\\\"/\n\t\b\f\r", *E = "\\\"/ntbfr"; std::string o = "\"";
    for (char c : s) { const char *p = c ? strchr(U, c) : NULL; if (p && (c == '\\' || c == '"' || g.chance(60))) { o += '\\'; o += E[p - U]; } else o += c; } return o + "\"";
}
std::string text(Gen &g, const V &v, bool w, std::vector<size_t> &marks, size_t base) {
    if (v.t == 0) return "null"; if (v.t == 1) return quote(g, v.s); if (v.t < 4) return v.s; std::string o = v.t == 4 ? "{" : "["; marks.push_back(base + 1); o += ws(g, w); bool first = true;
    for (auto &k : v.kids) { if (!first) { o += ","; o += ws(g, w); } first = false; marks.push_back(base + o.size()); if (v.t == 4) o += quote(g, k.first) + ws(g, w) + ":" + ws(g, w); o += text(g, k.second, w, marks, base + o.size()); o += ws(g, w); marks.push_back(base + o.size()); }
    return o + (v.t == 4 ? "}" : "]");
}
struct Doc { std::unique_ptr<Node> root; Object *o = NULL; Array *a = NULL; Value *v = NULL; explicit Doc(int t) { if (t == 4) root.reset(o = new Object()); else if (t == 5) root.reset(a = new Array()); else root.reset(v = new Value()); } void clear() { if (o) o->Clear(); if (a) a->Clear(); if (v) v->SetNull(); } };
}
void pbt::property(Gen &g) {
    int budget = (int)g.edge(1, 60); int rootType = g.chance(70) ? 4 : (int)g.range(0, 5); V doc; do { doc = gen(g, 6, budget); } while (0); if (rootType >= 4 && doc.t != rootType) { V r; r.t = rootType; r.kids.push_back(std::make_pair(rootType == 4 ? str(g) : std::string(), doc)); doc = r; }
    if (g.chance(2)) { int d = (int)g.range(10, 300); for (int i = 0; i < d; i++) { V r; r.t = g.chance(50) ? 4 : 5; r.kids.push_back(std::make_pair(r.t == 4 ? std::string("k") : std::string(), doc)); doc = r; } }
    if (depthOf(doc) >= 2 && count(doc) >= 4) g.nontrivial(); std::string why; static const Format formats[] = {StandardFormat, NoFormat, {true, false, false, 2}, {false, true, false, 3}, {true, true, false, 0}};
    // 1. written by the library
    Doc built(doc.t); put(doc, [&](Node &n) { if (built.o) { for (auto &k : doc.kids) put(k.second, [&](Node &m) { built.o->Add(k.first, m); }); } else if (built.a) { for (auto &k : doc.kids) put(k.second, [&](Node &m) { built.a->Add(m); }); } else *built.v = n; });
    PBT_CHECK(same(*built.root, doc, why), "as built: %s", why.c_str());
    Writer w(*built.root, formats[g.range(0, 4)]); w.Write(); std::string out = w.GetResult(); w.Write(); PBT_CHECK(out == w.GetResult(), "writing twice gives other text"); g.log() << "doc " << jesc(out.substr(0, 600)) << "\n";
    Doc back(doc.t); Parser p(*back.root, out); PBT_CHECK(p.Parse(), "the library does not read what it wrote: %s: %s", p.GetError().c_str(), jesc(out.substr(0, 300)).c_str()); PBT_CHECK(same(*back.root, doc, why), "read back from '%s': %s", jesc(out.substr(0, 400)).c_str(), why.c_str());
    if (doc.t != 4) { Object wrong; Parser q(wrong, out); if (doc.t == 5) PBT_CHECK(!q.Parse() && !q.GetError().empty(), "an array was read into an object"); } else { Array wrong; Parser q(wrong, out); PBT_CHECK(!q.Parse() && !q.GetError().empty(), "an object was read into an array"); }
    PBT_CHECK(Node::DetermineType(out) == (doc.t == 4 ? Node::T_OBJECT : doc.t == 5 ? Node::T_ARRAY : Node::T_VALUE), "type of the document");
    if (g.chance(3)) { FileWriter::WriteFile(dir, *built.root, formats[g.range(0, 4)]); Doc f(doc.t); bool ok = FileReader::ReadFile(dir, *f.root); unlink(dir.c_str()); PBT_CHECK(ok && same(*f.root, doc, why), "through a file: %s", why.c_str()); FileReader gone(dir); PBT_CHECK(!gone.Read(*f.root) && !gone.GetError().empty(), "a missing file was read"); }
    // copies are independent
    if (doc.t == 4) { Object c(*built.o); std::string n = str(g); c.Add(n, 5); Object d((const Node &)c); c.Remove(n); PBT_CHECK(same(*built.root, doc, why), "changed through a copy: %s", why.c_str()); if (!built.o->Has(n)) { PBT_CHECK(!c.Has(n) && d.Get(n).ToInt() == 5, "removed member"); bool th = false; try { c.Get(n); } catch (NotFoundException &) { th = true; } PBT_CHECK(th, "missing member found"); } else { V want = doc; want.kids.push_back(std::make_pair(n, V())); size_t i = 0; while (want.kids[i].first != n) i++; want.kids.back().second.t = 2; want.kids.back().second.s = "5"; want.kids.erase(want.kids.begin() + i); PBT_CHECK(same(c, want, why), "after a removal: %s", why.c_str()); } }
    if (doc.t == 5) { Array c(*built.a); size_t i = (size_t)g.range(0, 6); c.Remove(i); V want = doc; if (i < want.kids.size()) want.kids.erase(want.kids.begin() + i); PBT_CHECK(same(c, want, why) && same(*built.root, doc, why), "after a removal: %s", why.c_str()); bool th = false; try { c.Get(c.GetCount()); } catch (NotFoundException &) { th = true; } PBT_CHECK(th, "element past the end found"); }
    { double d = ldexp((double)g.range(-1000000, 1000000), (int)g.range(-60, 60)); Value x(d), y((float)d), z((int)g.edge(INT32_MIN, INT32_MAX)); Array a; a.Add(x); a.Add(y); a.Add(z); Writer wa(a, NoFormat); wa.Write(); Array b; Parser q(b, wa.GetResult()); PBT_CHECK(q.Parse() && b.GetCount() == 3, "numbers %s: %s", wa.GetResult().c_str(), q.GetError().c_str()); PBT_CHECK(fabs(b.Get(0).ToDouble() - d) <= 1e-5 * fabs(d) && fabs(b.Get(1).ToDouble() - d) <= 2e-5 * fabs(d) && b.Get(2).ToInt() == z.ToInt(), "numbers %g %s", d, wa.GetResult().c_str()); }
    if (g.chance(20)) values(g);
    // 2. written by hand; 3. malformed; and the parser goes on being usable
    Parser &u = p; int rounds = (int)g.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        std::vector<size_t> marks; std::string t0 = ws(g, true), t = t0 + text(g, doc, true, marks, t0.size()); size_t end = t.size(); t += ws(g, true);
        back.clear(); u.SetJson(t); PBT_CHECK(u.Parse(), "round %d: '%s' is refused: %s", r, jesc(t.substr(0, 600)).c_str(), u.GetError().c_str()); PBT_CHECK(same(*back.root, doc, why), "round %d: '%s': %s", r, jesc(t.substr(0, 600)).c_str(), why.c_str());
        int kind = (int)g.range(0, 6); std::string bad = t; bool must = false; const char *what = "";
        if (kind <= 3 && doc.t >= 4) {
            must = true; size_t m = marks.empty() ? 0 : g.pick(marks);
            if (kind == 0) { bad = t.substr(0, (size_t)g.edge((int)t0.size() + 1, (int)end - 1)); what = "truncated"; }
            else if (kind == 1) { bad = t; bad.insert(m, 1, g.pick({'[', ']', '{', '}'})); what = "a bracket too many"; }
            else if (kind == 2) { bad = t; std::string word = g.pick({"nul", "abc", "tru", "falsee", "+-", "0x10", "1a", "-", "e", ".", "'a'"}); bad.insert(m, (m < end && t[m - 1] != '{' && t[m - 1] != '[' ? "," : "") + word + ","); what = "a bare word"; if (strchr("\"", 0) && m) {} }
            else { bad = t.substr(0, end) + g.pick({"]", "}"}); what = "closed twice"; }
        } else { int n = (int)g.edge(1, 6); for (int i = 0; i < n; i++) { size_t a = bad.empty() ? 0 : (size_t)g.range(0, (int)bad.size() - 1); switch (g.range(0, 4)) { case 0: bad.insert(a, 1, g.pick({'{', '}', '[', ']', '"', '\\', ',', ':', '/', '*', '\n', '\0'})); break; case 1: if (!bad.empty()) bad.erase(a, (size_t)g.edge(1, 20)); break; case 2: if (!bad.empty()) bad[a] = (char)g.range(0, 255); break; case 3: bad.insert(a, bad.substr(0, a)); break; default: bad.insert(a, str(g)); } if (bad.size() > 20000) bad.resize(20000); } if (g.chance(20)) { std::vector<unsigned char> b = g.bytes((size_t)g.edge(0, 2000)); bad.assign(b.begin(), b.end()); } what = "mutated"; }
        g.nontrivial(); g.label(what); g.log() << what << " " << jesc(bad.substr(0, 400)) << "\n"; back.clear(); u.SetJson(bad); bool ok = u.Parse(); if (must) { PBT_CHECK(!ok, "%s text is accepted: '%s'", what, jesc(bad.substr(0, 600)).c_str()); PBT_CHECK(!u.GetError().empty(), "no error given for '%s'", jesc(bad.substr(0, 300)).c_str()); }
        if (ok) { Writer wb(*back.root, NoFormat); wb.Write(); Doc again(doc.t); Parser q(*again.root, wb.GetResult()); PBT_CHECK(q.Parse(), "what was read from '%s' is written as '%s', which is refused: %s", jesc(bad.substr(0, 300)).c_str(), jesc(wb.GetResult().substr(0, 300)).c_str(), q.GetError().c_str()); Writer wc(*again.root, NoFormat); wc.Write(); PBT_CHECK(wb.GetResult() == wc.GetResult(), "not stable: '%s' '%s'", jesc(wb.GetResult().substr(0, 300)).c_str(), jesc(wc.GetResult().substr(0, 300)).c_str()); }
        g.label(ok ? "accepted" : "refused"); back.clear(); u.SetJson(out); PBT_CHECK(u.Parse(), "after a malformed text, '%s' is refused: %s", jesc(out.substr(0, 300)).c_str(), u.GetError().c_str()); PBT_CHECK(same(*back.root, doc, why), "after a malformed text, '%s' reads differently: %s", jesc(out.substr(0, 300)).c_str(), why.c_str());
    }
}
