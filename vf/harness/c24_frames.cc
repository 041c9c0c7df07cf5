// C24: frame buffers under random sequences of accesses, against a model of what each frame holds.
#include "common.hh"
#include "AudioFrame.hh"
#include "VideoFrame.hh"
#include "StreamInfo.hh"
using namespace pbt;
const char *pbt::RULE = "at least two frames alive and ten accesses, with at least one whole buffer written";
void pbt::setup() { quietLog(); }
namespace {
const SampleFmt IL[] = {U8, S16, FLT}, PL[] = {U8P, S16P, FLTP}; const PixType PX[] = {P_NONE, RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P};
int bps(SampleFmt f) { return f == U8 || f == U8P ? 1 : f == S16 || f == S16P ? 2 : 4; }
double bpp(PixType p) { return p == RGB32 ? 4 : p == YUYV422 || p == YUV422P ? 2 : p == YUV420P || p == YUVJ420P ? 1.5 : 3; }
struct M { std::unique_ptr<Frame> f; int kind; size_t planes, max; std::vector<std::vector<unsigned char>> data; long pts, dts; size_t seq; bool consumed; unsigned len; std::chrono::system_clock::time_point org; unsigned ch, rate, samples, maxSamples; SampleFmt sf; ACodecType ac; int w, h; PixType px; VCodecType vc; std::vector<std::pair<unsigned char *, unsigned>> slices; };
unsigned char *plane(M &m, size_t p) { return m.f->getDataBuf() ? m.f->getDataBuf() : m.f->getPlanarDataBuf()[p]; }
void check(M &m, bool content) {
    Frame *f = m.f.get(); PBT_CHECK(f->getPresentationTime().count() == m.pts, "presentation time %ld, set to %ld", (long)f->getPresentationTime().count(), m.pts); PBT_CHECK(f->getDecodeTime().count() == m.dts, "decode time %ld, set to %ld", (long)f->getDecodeTime().count(), m.dts); PBT_CHECK(f->getSequenceNumber() == m.seq, "sequence number %zu, set to %zu", f->getSequenceNumber(), m.seq); PBT_CHECK(f->getConsumed() == m.consumed, "consumed flag"); if (m.org != std::chrono::system_clock::time_point()) PBT_CHECK(f->getOriginTime() == m.org, "origin time");
    long ft = m.dts != -1 && m.dts <= m.pts ? m.dts : m.pts; PBT_CHECK(f->getFrameTime().count() == ft, "frame time %ld with presentation %ld and decode %ld", (long)f->getFrameTime().count(), m.pts, m.dts);
    if (m.kind <= 3) { PBT_CHECK(f->getMaxLength() == m.max, "maximum length %u, expected %zu", f->getMaxLength(), m.max); PBT_CHECK(f->getLength() == m.len, "length %u, set to %u", f->getLength(), m.len); }
    if (content) for (size_t p = 0; p < m.planes; p++) for (size_t i = 0; i < m.max; i++) if (plane(m, p)[i] != m.data[p][i]) pbt::fail(fmt("byte %zu of plane %zu is %d, expected %d", i, p, plane(m, p)[i], m.data[p][i]));
    if (m.kind <= 1) { AudioFrame *a = dynamic_cast<AudioFrame *>(f); PBT_CHECK(a->getChannels() == m.ch && a->getSampleRate() == m.rate && a->getSamples() == m.samples && a->getMaxSamples() == m.maxSamples && a->getCodec() == m.ac && a->getSampleFmt() == m.sf, "audio parameters"); PBT_CHECK(f->isPlanar() == (m.kind == 1), "planarity"); PBT_CHECK((f->getDataBuf() == NULL) == (m.kind == 1) && (f->getPlanarDataBuf() == NULL) == (m.kind == 0), "buffers"); if (m.rate) { long long want = (long long)((__int128)m.samples * 1000000000 / m.rate); PBT_CHECK(a->getDuration().count() == want, "duration %lld of %u samples at %u, expected %lld", (long long)a->getDuration().count(), m.samples, m.rate, want); } }
    else { VideoFrame *v = dynamic_cast<VideoFrame *>(f); PBT_CHECK(v->getWidth() == m.w && v->getHeight() == m.h && v->getPixelFormat() == m.px && v->getCodec() == m.vc, "picture parameters"); PBT_CHECK(!f->isPlanar() && !f->getPlanarDataBuf(), "planarity"); }
    if (m.kind == 4) { SlicedVideoFrame *s = dynamic_cast<SlicedVideoFrame *>(f); PBT_CHECK(s->getSliceNum() == (int)m.slices.size(), "%d slices, expected %zu", s->getSliceNum(), m.slices.size()); for (size_t i = 0; i < m.slices.size(); i++) PBT_CHECK(s->getSlices()[i].getData() == m.slices[i].first && s->getSlices()[i].getDataSize() == m.slices[i].second, "slice %zu", i); }
}
}
void pbt::property(Gen &g) {
    std::vector<M> ms; int ops = (int)g.edge(1, 60); bool whole = false, two = false; static unsigned char arena[256];
    { int r = (int)g.edge(1, 192000); PBT_CHECK(AudioFrame::getMaxSamples(r) == (long long)r * 100 / 1000, "at %d Hz 100 ms are %d samples", r, AudioFrame::getMaxSamples(r)); PBT_CHECK(AudioFrame::getDefaultSamples(r) == (long long)r * 20 / 1000, "at %d Hz 20 ms are %d samples", r, AudioFrame::getDefaultSamples(r)); }
    for (int k = 0; k < ops; k++) {
        if (ms.empty() || (ms.size() < 5 && g.chance(12))) {
            M m = M(); m.kind = (int)g.range(0, 4); m.pts = 0; m.dts = -1; m.seq = 0; m.consumed = false; m.len = 0; m.ch = m.rate = m.samples = m.maxSamples = 0; m.w = m.h = 0; m.px = P_NONE; m.vc = (VCodecType)g.range(0, 4); m.planes = 1; m.max = 0;
            if (m.kind <= 1) { m.ch = (int)g.range(1, MAX_CHANNELS); m.rate = g.pick({8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000}); m.maxSamples = (int)g.edge(1, 5000); m.ac = (ACodecType)g.range(0, 5); m.sf = m.kind ? PL[g.range(0, 2)] : IL[g.range(0, 2)]; SampleFmt other = m.kind ? IL[g.range(0, 2)] : g.chance(80) ? PL[g.range(0, 2)] : S_NONE;
                if (m.kind == 0) { PBT_CHECK(!InterleavedAudioFrame::createNew(m.ch, m.rate, m.maxSamples, m.ac, other), "an interleaved frame of a planar format"); m.f.reset(InterleavedAudioFrame::createNew(m.ch, m.rate, m.maxSamples, m.ac, m.sf)); m.max = (size_t)bps(m.sf) * m.maxSamples * MAX_CHANNELS; } else { PBT_CHECK(!PlanarAudioFrame::createNew(m.ch, m.rate, m.maxSamples, m.ac, other), "a planar frame of an interleaved format"); m.f.reset(PlanarAudioFrame::createNew(m.ch, m.rate, m.maxSamples, m.ac, m.sf)); m.planes = MAX_CHANNELS; m.max = (size_t)bps(m.sf) * m.maxSamples; } }
            else if (m.kind == 2) { m.max = g.edge(0, 20000); m.f.reset(InterleavedVideoFrame::createNew(m.vc, (unsigned)m.max)); }
            else if (m.kind == 3) { m.w = (int)g.edge(1, 200); m.h = (int)g.edge(1, 200); m.px = PX[g.range(0, 7)]; m.f.reset(InterleavedVideoFrame::createNew(m.vc, m.w, m.h, m.px)); PBT_CHECK(m.f.get(), "no frame"); m.max = m.f->getMaxLength(); PBT_CHECK(m.max >= bpp(m.px) * m.w * m.h, "%zu bytes for %dx%d pixels of format %d", m.max, m.w, m.h, m.px); if (m.px == RGB24 || m.px == RGB32 || m.px == YUYV422) PBT_CHECK(m.max == bpp(m.px) * m.w * m.h, "%zu bytes for %dx%d pixels of format %d", m.max, m.w, m.h, m.px); }
            else { m.f.reset(SlicedVideoFrame::createNew(m.vc)); m.planes = 0; }
            PBT_CHECK(m.f.get() != NULL, "no frame"); m.data.assign(m.planes, std::vector<unsigned char>(m.max, 0)); g.log() << " new" << m.kind << "(" << m.max << ")"; check(m, true); ms.push_back(std::move(m)); if (ms.size() > 1) two = true; continue;
        }
        size_t x = g.raw(ms.size() - 1); M &m = ms[x]; int op = (int)g.range(0, 11); g.log() << " " << x << ":" << op; auto when = [&]() { return g.chance(20) ? (long)g.range(0, 3) - 1 : (long)g.edge(0, 4000000000000L); };
        if (op == 0) { m.pts = when(); m.f->setPresentationTime(us(m.pts)); } else if (op == 1) { m.dts = g.chance(30) ? m.pts + (long)g.range(0, 2) - 1 : when(); m.f->setDecodeTime(us(m.dts)); } else if (op == 2) { m.seq = g.edge(0, 1ULL << 62); m.f->setSequenceNumber(m.seq); } else if (op == 3) { m.consumed = g.chance(50); m.f->setConsumed(m.consumed); } else if (op == 4) { m.org = std::chrono::system_clock::time_point(std::chrono::microseconds(g.edge(1, 4000000000000ULL))); m.f->setOriginTime(m.org); }
        else if (op == 5 && m.kind <= 3) { m.len = (unsigned)g.edge(0, m.max); m.f->setLength(m.len); }
        else if (op == 6 && m.planes && m.max) { size_t p = g.raw(m.planes - 1), a = g.raw(m.max - 1), b = a + g.raw(m.max - a); if (g.chance(40)) { a = 0; b = m.max; whole = true; } int v = (int)g.range(0, 255); for (size_t i = a; i < b; i++) m.data[p][i] = plane(m, p)[i] = (unsigned char)(v + i); }
        else if (op == 7 && m.kind <= 1) { int v = g.chance(50) ? 0 : (int)g.range(0, 255); dynamic_cast<AudioFrame *>(m.f.get())->fillWithValue(v); for (size_t p = 0; p < (m.kind ? m.ch : 1); p++) std::fill(m.data[p].begin(), m.data[p].end(), (unsigned char)v); whole = true; }
        else if (op == 8 && m.kind <= 1) { AudioFrame *a = dynamic_cast<AudioFrame *>(m.f.get()); switch (g.range(0, 5)) { case 0: a->setSamples(m.samples = (int)g.edge(0, m.kind ? 100000 : 5000000)); break; case 1: a->setSampleRate(m.rate = (int)g.edge(1, 192000)); break; case 2: a->setChannels(m.ch = (int)g.range(1, MAX_CHANNELS)); break; case 3: a->setCodec(m.ac = (ACodecType)g.range(0, 5)); break; case 4: a->setMaxSamples(m.maxSamples = (int)g.edge(0, 5000)); break; default: a->setSampleFormat(m.sf = m.kind ? PL[g.range(0, 2)] : IL[g.range(0, 2)]); } }
        else if (op == 9 && m.kind >= 2) { VideoFrame *v = dynamic_cast<VideoFrame *>(m.f.get()); if (g.chance(50)) v->setSize(m.w = (int)g.edge(0, 8000), m.h = (int)g.edge(0, 8000)); else v->setPixelFormat(m.px = PX[g.range(0, 7)]); }
        else if (m.kind == 4) { SlicedVideoFrame *s = dynamic_cast<SlicedVideoFrame *>(m.f.get()); for (int n = (int)g.range(1, 9); n > 0; n--) { unsigned char *d = arena + g.range(0, 255); unsigned sz = (unsigned)g.edge(0, 1 << 20); bool ok = s->setSlice(d, sz); PBT_CHECK(ok == (m.slices.size() < MAX_SLICES), "slice %zu was%s accepted", m.slices.size(), ok ? "" : " not"); if (ok) m.slices.push_back(std::make_pair(d, sz)); } if (g.chance(25)) { s->clear(); m.slices.clear(); } }
        else if (op == 10 && g.chance(20) && ms.size() > 1) { ms.erase(ms.begin() + x); continue; } else continue;
        for (auto &o : ms) check(o, false); if (g.chance(30)) for (auto &o : ms) check(o, true);
    }
    for (auto &o : ms) check(o, true); if (two && whole && ops >= 10) g.nontrivial(); g.label(two ? "several frames" : "one frame"); if (whole) g.label("whole buffer");
}
