// Independent ISO-BMFF reader used as oracle for the DASH properties: walks boxes, insisting that children exactly fill their parent.
#ifndef VF_MP4_HH
#define VF_MP4_HH
#include "common.hh"
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace mp4 {
using namespace pbt;
struct Box { std::string t; const unsigned char *p; size_t n; size_t off; std::vector<Box> kids; // p/n: payload after the 8 byte header
    uint64_t u(size_t at, int bytes) const { PBT_CHECK(at + bytes <= n, "box '%s' of %zu bytes is too short for its fields", t.c_str(), n + 8); uint64_t v = 0; for (int i = 0; i < bytes; i++) v = v << 8 | p[at + i]; return v; }
    const Box *kid(const char *k) const { for (auto &b : kids) if (b.t == k) return &b; return NULL; }
    const Box &need(const char *k) const { int c = 0; const Box *r = NULL; for (auto &b : kids) if (b.t == k) { c++; r = &b; } PBT_CHECK(c == 1, "%d '%s' boxes in '%s'", c, k, t.c_str()); return *r; }
    std::string names() const { std::string s; for (auto &b : kids) s += (s.empty() ? "" : " ") + b.t; return s; } };
inline size_t headLen(const std::string &t) { // bytes before the children of a container; npos: leaf
    if (t == "moov" || t == "trak" || t == "mdia" || t == "minf" || t == "dinf" || t == "stbl" || t == "mvex" || t == "moof" || t == "traf") return 0;
    if (t == "dref" || t == "stsd") return 8;
    if (t == "avc1" || t == "avc3" || t == "hev1" || t == "hvc1") return 78;
    if (t == "mp4a") return 28;
    return (size_t)-1; }
inline std::vector<Box> parse(const unsigned char *d, size_t n, size_t base, const char *in) {
    std::vector<Box> v; size_t o = 0;
    while (o < n) {
        PBT_CHECK(n - o >= 8, "%zu stray bytes at the end of '%s'", n - o, in); Box b; size_t sz = (size_t)d[o] << 24 | d[o + 1] << 16 | d[o + 2] << 8 | d[o + 3]; b.t.assign((const char *)d + o + 4, 4); b.off = base + o;
        for (char c : b.t) PBT_CHECK(c >= 32 && c < 127, "box type with byte %d in '%s' at %zu", c, in, base + o);
        PBT_CHECK(sz >= 8 && sz <= n - o, "box '%s' in '%s' declares %zu bytes, %zu are left", b.t.c_str(), in, sz, n - o); b.p = d + o + 8; b.n = sz - 8;
        size_t h = headLen(b.t); if (h != (size_t)-1) { PBT_CHECK(h <= b.n, "'%s' of %zu bytes", b.t.c_str(), sz); b.kids = parse(b.p + h, b.n - h, base + o + 8 + h, b.t.c_str()); }
        v.push_back(b); o += sz;
    }
    return v; }
inline Box file(const unsigned char *d, size_t n) { Box b; b.t = "file"; b.p = d; b.n = n; b.off = 0; b.kids = parse(d, n, 0, "file"); return b; }
struct Sample { uint32_t dur, size, flags; int64_t cto; const unsigned char *p; };
struct Media { uint64_t tfdt, ept; uint32_t scale, seq, refSize, subDur, track; std::vector<Sample> s; uint64_t total; };
// the fields ISO/IEC 14496-12 fixes: reserved ones and unused template ones at their defaults
inline void zero(const Box &b, size_t at, size_t n) { PBT_CHECK(at + n <= b.n, "box '%s' of %zu bytes is too short", b.t.c_str(), b.n + 8); for (size_t i = at; i < at + n; i++) PBT_CHECK(b.p[i] == 0, "byte %zu of '%s' is %02x, it is reserved (0)", i + 8, b.t.c_str(), b.p[i]); }
inline void brands(const Box &b) { bool iso = false; PBT_CHECK(b.n >= 8 && b.n % 4 == 0, "'%s' of %zu bytes", b.t.c_str(), b.n + 8); for (size_t i = 0; i < b.n; i += 4) if (i != 4) { for (int k = 0; k < 4; k++) PBT_CHECK(b.p[i + k] >= 32 && b.p[i + k] < 127, "brand with byte %d", b.p[i + k]); iso |= !memcmp(b.p + i, "iso5", 4) || !memcmp(b.p + i, "iso6", 4); } PBT_CHECK(iso, "no brand in '%s' allows fragments addressed from their own start", b.t.c_str()); }
inline void matrix(const Box &b, size_t at) { const uint32_t id[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}; for (int i = 0; i < 9; i++) PBT_CHECK(b.u(at + 4 * i, 4) == id[i], "entry %d of the matrix in '%s' is %x", i, b.t.c_str(), (unsigned)b.u(at + 4 * i, 4)); }
inline void fixed(const Box &f, bool video) {
    brands(f.need("ftyp")); const Box &mv = f.need("moov"), &mh = mv.need("mvhd"), &tk = mv.need("trak"), &th = tk.need("tkhd"), &md = tk.need("mdia"), &dh = md.need("mdhd"), &hd = md.need("hdlr"), &mi = md.need("minf");
    zero(mh, 0, 4); zero(mh, 16, 4); PBT_CHECK(mh.u(20, 4) == 0x10000 && mh.u(24, 2) == 0x100, "rate %x volume %x", (unsigned)mh.u(20, 4), (unsigned)mh.u(24, 2)); zero(mh, 26, 10); matrix(mh, 36); zero(mh, 72, 24); PBT_CHECK(mh.u(96, 4) != 0, "next track 0");
    PBT_CHECK(th.u(0, 1) == 0 && (th.u(1, 3) & 3) == 3 && th.u(1, 3) < 16, "track header flags %x", (unsigned)th.u(0, 4)); zero(th, 16, 16); PBT_CHECK(th.u(36, 2) == (video ? 0u : 0x100u), "track volume %x", (unsigned)th.u(36, 2)); zero(th, 32, 4); zero(th, 38, 2); matrix(th, 40);
    zero(mv.need("mvex").need("trex"), 0, 4); zero(dh, 0, 4); zero(dh, 16, 4); PBT_CHECK(!(dh.u(20, 2) >> 15), "language"); for (int i = 0; i < 3; i++) PBT_CHECK((dh.u(20, 2) >> 5 * i & 31) >= 1 && (dh.u(20, 2) >> 5 * i & 31) <= 26, "language %04x", (unsigned)dh.u(20, 2)); zero(dh, 22, 2);
    zero(hd, 0, 8); zero(hd, 12, 12); PBT_CHECK(hd.n > 24 && hd.p[hd.n - 1] == 0 && strlen((const char *)hd.p + 24) == hd.n - 25, "handler name is not terminated where its box ends");
    if (video) { const Box &v = mi.need("vmhd"); PBT_CHECK(v.n == 12 && v.u(0, 4) == 1, "vmhd"); zero(v, 4, 8); } else { const Box &a = mi.need("smhd"); PBT_CHECK(a.n == 8, "smhd"); zero(a, 0, 8); }
    const Box &dr = mi.need("dinf").need("dref"), &st = mi.need("stbl"); zero(dr, 0, 4); PBT_CHECK(dr.kids[0].n == 4 && dr.kids[0].u(0, 4) == 1, "the media data is not said to be in the same file"); for (const char *e : {"stts", "stsc", "stco", "stsd"}) zero(st.need(e), 0, 4); zero(st.need("stsz"), 0, 8);
    const Box &e = st.need("stsd").kids[0]; zero(e, 0, 6); if (video) { zero(e, 8, 16); PBT_CHECK(e.u(28, 4) == 0x480000 && e.u(32, 4) == 0x480000 && e.u(40, 2) == 1 && e.u(74, 2) == 0x18 && e.u(76, 2) == 0xffff, "resolution, frame count, depth of '%s'", e.t.c_str()); zero(e, 36, 4); PBT_CHECK(e.p[42] < 32, "compressor name of %d bytes", e.p[42]); } else { zero(e, 8, 8); zero(e, 20, 4); zero(e.need("esds"), 0, 4); } }
// a media segment: styp sidx moof(mfhd traf(tfhd tfdt trun)) mdat
inline Media media(const unsigned char *d, size_t n, bool video) {
    Box f = file(d, n); Media m; std::string nm = f.names(); PBT_CHECK(nm == "styp sidx moof mdat", "segment boxes '%s'", nm.c_str());
    const Box &sx = f.need("sidx"), &mf = f.need("moof"), &md = f.need("mdat"), &tr = mf.need("traf"); PBT_CHECK(mf.names() == "mfhd traf" && tr.names() == "tfhd tfdt trun", "fragment boxes '%s' / '%s'", mf.names().c_str(), tr.names().c_str());
    brands(f.need("styp")); zero(sx, 1, 3); zero(mf.need("mfhd"), 0, 4); zero(tr.need("tfdt"), 1, 3); PBT_CHECK(mf.need("mfhd").n == 8 && sx.u(4, 4) == 1 && sx.u(0, 1) <= 1 && tr.need("tfdt").u(0, 1) <= 1, "mfhd, sidx or tfdt");
    int sv = (int)sx.u(0, 1); int w = sv ? 8 : 4; m.scale = (uint32_t)sx.u(8, 4); m.ept = sx.u(12, w); uint64_t fo = sx.u(12 + w, w); size_t o = 12 + 2 * w; PBT_CHECK(sx.u(o + 2, 2) == 1, "sidx with %d references", (int)sx.u(o + 2, 2)); m.refSize = (uint32_t)sx.u(o + 4, 4); m.subDur = (uint32_t)sx.u(o + 8, 4); PBT_CHECK(sx.n == o + 16, "sidx size"); zero(sx, o, 2); { uint32_t sap = (uint32_t)sx.u(o + 12, 4) & 0x7fffffff; PBT_CHECK((sap & 0xfffffff) == 0 && (sap >> 28 == 1 || sap >> 28 == 2), "access point %x", sap); }
    PBT_CHECK(!(m.refSize >> 31) && fo == 0 && m.refSize == mf.n + 8 + md.n + 8, "the index says %u bytes at offset %lu, there are %zu", m.refSize, (unsigned long)fo, mf.n + md.n + 16); PBT_CHECK(sx.u(o + 12, 1) >> 7 == 1, "the index does not say that the segment starts with a key frame");
    m.seq = (uint32_t)mf.need("mfhd").u(4, 4); const Box &fh = tr.need("tfhd"); uint32_t ff = (uint32_t)fh.u(0, 4) & 0xffffff; m.track = (uint32_t)fh.u(4, 4); PBT_CHECK(ff == 0x20000 && fh.n == 8, "tfhd flags %x size %zu", ff, fh.n);
    const Box &dt = tr.need("tfdt"); int dv = (int)dt.u(0, 1); m.tfdt = dt.u(4, dv ? 8 : 4); PBT_CHECK(dt.n == (dv ? 12u : 8u), "tfdt size");
    const Box &tn = tr.need("trun"); int tv = (int)tn.u(0, 1); uint32_t tf = (uint32_t)tn.u(0, 4) & 0xffffff, cnt = (uint32_t)tn.u(4, 4); PBT_CHECK((tf & 1) && (tf & 0x100) && (tf & 0x200) && (!video || (tf & 0x400)), "trun flags %x", tf); size_t at = 8; int64_t doff = (int32_t)tn.u(at, 4); at += 4; if (tf & 4) at += 4;
    size_t per = 4 * (!!(tf & 0x100) + !!(tf & 0x200) + !!(tf & 0x400) + !!(tf & 0x800)); PBT_CHECK(tn.n == at + (size_t)cnt * per, "trun of %zu bytes for %u samples", tn.n + 8, cnt);
    PBT_CHECK(mf.off + doff == md.off + 8, "sample data at %lld, media data at %zu", (long long)(mf.off + doff), md.off + 8); const unsigned char *q = md.p, *e = md.p + md.n; m.total = 0;
    for (uint32_t i = 0; i < cnt; i++) { Sample s; s.flags = 0; s.cto = 0; s.dur = (uint32_t)tn.u(at, 4); at += 4; s.size = (uint32_t)tn.u(at, 4); at += 4; if (tf & 0x400) { s.flags = (uint32_t)tn.u(at, 4); at += 4; } if (tf & 0x800) { s.cto = tv ? (int64_t)(int32_t)tn.u(at, 4) : (int64_t)tn.u(at, 4); at += 4; } PBT_CHECK(s.size <= (size_t)(e - q), "sample %u of %u bytes runs past the media data", i, s.size); s.p = q; q += s.size; m.total += s.dur; m.s.push_back(s); }
    PBT_CHECK(q == e, "%zu bytes of media data belong to no sample", (size_t)(e - q)); PBT_CHECK(m.subDur == m.total, "the index says %u ticks, the samples last %lu", m.subDur, (unsigned long)m.total); PBT_CHECK(m.ept == m.tfdt, "index starts at %lu, fragment at %lu", (unsigned long)m.ept, (unsigned long)m.tfdt);
    return m; }
inline size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
}
#endif
