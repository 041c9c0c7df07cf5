// A small XML reader of its own (elements, attributes, text, the five entities and character references).
#ifndef VF_XML_HH
#define VF_XML_HH
#include "pbt.hh"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
namespace xml {
struct El { std::string name, text; std::vector<std::pair<std::string, std::string>> at; std::vector<El> kids;
    bool has(const std::string &k) const { for (auto &a : at) if (a.first == k) return true; return false; }
    std::string get(const std::string &k) const { for (auto &a : at) if (a.first == k) return a.second; pbt::fail("element " + name + " has no attribute " + k); }
    std::vector<const El *> all(const std::string &n) const { std::vector<const El *> r; for (auto &k : kids) if (k.name == n) r.push_back(&k); return r; }
    const El &one(const std::string &n) const { auto r = all(n); if (r.size() != 1) pbt::fail(pbt::fmt("%zu elements %s in %s", r.size(), n.c_str(), name.c_str())); return *r[0]; } };
class Parser { const std::string &s; size_t p = 0;
    [[noreturn]] void bad(const char *w) { pbt::fail(pbt::fmt("not well-formed at byte %zu of %zu: %s", p, s.size(), w)); }
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    bool at(const char *t) { return s.compare(p, strlen(t), t) == 0; }
    std::string nm() { size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr(":_-.", s[p]))) p++; if (b == p) bad("name"); return s.substr(b, p - b); }
    void ent(std::string &o) { size_t e = s.find(';', p); if (e == std::string::npos || e - p > 10) bad("entity"); std::string n = s.substr(p + 1, e - p - 1); p = e + 1; if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else if (n[0] == '#') o += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, NULL, 16) : atoi(n.c_str() + 1)); else bad("entity"); }
    void misc() { for (;;) { ws(); if (at("<?")) { p = s.find("?>", p); if (p == std::string::npos) bad("declaration"); p += 2; } else if (at("<!--")) { p = s.find("-->", p); if (p == std::string::npos) bad("comment"); p += 3; } else return; } }
    El el(int depth) { if (depth > 50) bad("depth"); El e; if (!at("<")) bad("element"); p++; e.name = nm();
        for (;;) { ws(); if (at("/>")) { p += 2; return e; } if (at(">")) { p++; break; } std::string k = nm(); ws(); if (!at("=")) bad("="); p++; ws(); char q = p < s.size() ? s[p] : 0; if (q != '"' && q != '\'') bad("quote"); p++; std::string v; while (p < s.size() && s[p] != q) { if (s[p] == '<') bad("< in an attribute"); if (s[p] == '&') ent(v); else v += s[p++]; } if (p >= s.size()) bad("attribute"); p++; if (e.has(k)) bad("attribute twice"); e.at.push_back(std::make_pair(k, v)); }
        for (;;) { if (p >= s.size()) bad("end of file"); if (at("</")) { p += 2; if (nm() != e.name) bad("end tag"); ws(); if (!at(">")) bad(">"); p++; return e; } if (at("<!--")) { p = s.find("-->", p); if (p == std::string::npos) bad("comment"); p += 3; } else if (at("<")) e.kids.push_back(el(depth + 1)); else if (at("&")) ent(e.text); else e.text += s[p++]; } }
public: Parser(const std::string &t) : s(t) {} El doc() { misc(); El e = el(0); misc(); if (p != s.size()) bad("data after the root"); return e; } };
inline El parse(const std::string &s) { return Parser(s).doc(); }
inline std::string slurp(const std::string &f) { int h = open(f.c_str(), O_RDONLY); if (h < 0) pbt::fail("cannot read " + f); struct stat st; fstat(h, &st); std::string r((size_t)st.st_size, 0); ssize_t n = st.st_size ? read(h, &r[0], r.size()) : 0; close(h); r.resize(n < 0 ? 0 : (size_t)n); return r; }
}
#endif
