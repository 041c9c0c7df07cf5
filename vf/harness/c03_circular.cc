// C03: AudioCircularBuffer against a sample-exact model of the stream.
#include "common.hh"
#include "AudioCircularBuffer.hh"
#include <deque>
#include <memory>
#include <thread>
#include <atomic>
#include <mutex>
using namespace pbt;
const char *pbt::RULE = "histories of input blocks (any sample count, timestamps with jitter, gaps, overlaps) and block reads on a planar circular buffer of "
    "generated format, rate, channels and capacity, compared sample by sample and microsecond by microsecond with a model stream; a share of the cases "
    "reads and writes from two threads. Non-trivial: at least one gap was filled or block discarded, and more samples were read than the buffer holds, or "
    "(threads) more than twice the capacity moved";
void pbt::setup() { quietLog(); }
namespace {
const uint64_t SIL = UINT64_MAX;
void sample(uint64_t id, unsigned ch, unsigned bps, unsigned char *o) {
    uint64_t s = id * 0x9e3779b97f4a7c15ULL + ch * 77 + 3; uint64_t v = splitmix(s);
    for (unsigned i = 0; i < bps; i++) o[i] = (unsigned char)(v >> (8 * i));
    o[0] |= 1;   // never all zero
}
}
void pbt::property(Gen &g) {
    ConnectionData cd; cd.wFilterId = (int)g.range(1, 99); cd.writerId = 1; ReaderData rd; rd.rFilterId = 7; rd.readerId = 1; cd.readers.push_back(rd);
    if (g.chance(2)) {   // requests that cannot be honoured
        unsigned ch = (unsigned)g.range(0, 6), sr = g.pick({0u, 1u, 999u, 8000u, 48000u}), ms = g.pick({0u, 20u, 100u}); SampleFmt f = g.pick({U8P, S16P, FLTP, U8, S16, FLT, S_NONE});
        std::unique_ptr<AudioCircularBuffer> b(AudioCircularBuffer::createNew(cd, ch, sr, ms, f));
        bool valid = ch >= 1 && ch <= MAX_CHANNELS && sr >= 1000 && ms && (f == U8P || f == S16P || f == FLTP);
        g.label("create"); g.log() << "create ch=" << ch << " rate=" << sr << " max=" << ms << " fmt=" << f;
        PBT_CHECK((b.get() != NULL) == valid, "buffer %s (ch %u, rate %u, max %u, format %d)", b ? "created" : "refused", ch, sr, ms, (int)f);
        if (!b) return;
        PlanarAudioFrame *in = dynamic_cast<PlanarAudioFrame *>(b->getRear()); in->setSamples(1); in->setPresentationTime(us(0)); in->fillWithValue(5); b->addFrame();
        return;
    }
    unsigned ch = (unsigned)g.range(1, MAX_CHANNELS);
    unsigned rate = g.pick({8000u, 11025u, 16000u, 22050u, 32000u, 44100u, 48000u, 48000u, 96000u});
    SampleFmt fmtS = g.pick({U8P, S16P, FLTP}); unsigned bps = fmtS == U8P ? 1 : fmtS == S16P ? 2 : 4;
    unsigned chMax = g.chance(3) ? (unsigned)DEFAULT_BUFFER_SIZE : (unsigned)g.pick({100, 150, 200, 333, 500, 1000, 2000});
    std::unique_ptr<AudioCircularBuffer> b(AudioCircularBuffer::createNew(cd, ch, rate, chMax, fmtS));
    PBT_CHECK(b.get() != NULL, "buffer refused");
    int capS = b->getFreeSamples(); PBT_CHECK(capS > 0, "no room in an empty buffer");
    unsigned maxS = AudioFrame::getMaxSamples(rate), outS = AudioFrame::getDefaultSamples(rate);
    long thr = 64L * 1000000 / rate;      // jitter below 64 samples is ignored
    if (g.chance(70)) { outS = (unsigned)g.edge(1, std::min<int>(maxS, capS)); b->setOutputFrameSamples(outS); }
    g.log() << "ch=" << ch << " rate=" << rate << " bps=" << bps << " max=" << chMax << " cap=" << capS << " out=" << outS;

    if (g.chance(5)) {     // writer and reader threads, contiguous stream
        g.label("threads"); int64_t total = std::min<int64_t>(4LL * capS, 400000); unsigned blk = (unsigned)g.range(1, std::min<int>(maxS, capS)); if (blk < maxS / 20) blk = maxS / 20;
        if (outS < maxS / 20) { outS = maxS / 20; b->setOutputFrameSamples(outS); }
        if ((int)(blk + outS) > capS) throw Discard();
        std::atomic<bool> stop(false); std::atomic<int64_t> wr(0), rdn(0); std::string err;
        std::thread w([&] {
            int64_t pos = 0;
            while (pos < total && !stop) {
                if (pos - rdn + blk > capS - (int64_t)0) { std::this_thread::yield(); continue; }   // room for sure
                PlanarAudioFrame *in = dynamic_cast<PlanarAudioFrame *>(b->getRear());
                for (unsigned c = 0; c < ch; c++) for (unsigned i = 0; i < blk; i++) sample(pos + i, c, bps, in->getPlanarDataBuf()[c] + i * bps);
                in->setSamples(blk); in->setLength(blk * bps); in->setPresentationTime(us((pos * 1000000) / rate)); b->addFrame(); pos += blk; wr = pos;
            }
        });
        int64_t pos = 0; double t0 = now();
        while (true) {
            bool done = wr >= total;
            Frame *f = b->getFront();
            if (!f) { if (done) { f = b->getFront(); if (!f) break; } else { if (now() - t0 > 30) { err = "starved"; break; } std::this_thread::yield(); continue; } }
            for (unsigned c = 0; c < ch && err.empty(); c++) for (unsigned i = 0; i < outS; i++) {
                unsigned char e[4]; sample(pos + i, c, bps, e);
                if (memcmp(e, f->getPlanarDataBuf()[c] + i * bps, bps)) { err = fmt("sample %lld of channel %u differs", (long long)(pos + i), c); break; } }
            if (!err.empty()) break;
            if (std::abs(f->getPresentationTime().count() - pos * 1000000 / rate) > 1) { err = fmt("block at sample %lld stamped %ld", (long long)pos, (long)f->getPresentationTime().count()); break; }
            pos += outS; rdn = pos; b->removeFrame();
        }
        stop = true; w.join();
        if (err == "starved") throw Discard();
        PBT_CHECK(err.empty(), "%s", err.c_str());
        PBT_CHECK(pos + outS > (int64_t)wr, "%lld samples written, only %lld delivered", (long long)wr, (long long)pos);
        PBT_CHECK(b->getFreeSamples() == capS - (int)(wr - pos), "free space %d does not match what is buffered", b->getFreeSamples());
        if (total > 2LL * capS) g.nontrivial();
        return;
    }

    if (g.raw(2999) == 2999) {       // more samples than 32 bits can count (a day of audio)
        g.label("longrun"); g.log() << " longrun";
        b.reset(AudioCircularBuffer::createNew(cd, 1, 48000, 200, U8P)); PlanarAudioFrame *in = dynamic_cast<PlanarAudioFrame *>(b->getRear());
        unsigned blk = 4800; b->setOutputFrameSamples(blk); int64_t start = (int64_t)g.range(0, 1000), n = (1LL << 32) / blk + 50;
        in->setSamples(blk); in->setLength(blk);
        for (int64_t k = 0; k < n; k++) {
            in->setPresentationTime(us(start + k * blk * 1000000 / 48000)); in->getPlanarDataBuf()[0][0] = (unsigned char)(k + 1);
            PBT_CHECK(b->addFrame().size() == 1, "block %lld of a contiguous stream was not stored", (long long)k);
            Frame *f = b->getFront(); PBT_CHECK(f != NULL, "block %lld not readable", (long long)k);
            PBT_CHECK(std::abs(f->getPresentationTime().count() - (long)(start + k * blk * 1000000 / 48000)) <= 1, "block %lld stamped %ld", (long long)k, (long)f->getPresentationTime().count());
            PBT_CHECK(f->getPlanarDataBuf()[0][0] == (unsigned char)(k + 1), "block %lld is not the one written", (long long)k);
            b->removeFrame();
        }
        g.nontrivial(); return;
    }

    // model
    bool synced = false; long base = 0; int64_t rear = 0, front = 0;   // stream positions in samples, relative to base
    std::deque<uint64_t> buf; uint64_t nextId = 1; bool held = false; std::deque<uint64_t> heldS; long heldTs = 0; size_t lost = 0; long lastOrg = 0; bool haveOrg = false;
    int64_t readN = 0; bool special = false; long clock = (long)g.edge(0, 1L << 40);
    int ops = (int)g.range(1, 60); int bias = (int)g.range(30, 75);
    auto checkOut = [&](Frame *f) {
        PlanarAudioFrame *o = dynamic_cast<PlanarAudioFrame *>(f); PBT_CHECK(o != NULL, "output is not planar audio");
        PBT_CHECK(o->getSamples() == heldS.size(), "block of %u samples, expected %zu", o->getSamples(), heldS.size());
        PBT_CHECK(o->getLength() == heldS.size() * bps, "length %u for %zu samples", o->getLength(), heldS.size());
        PBT_CHECK(std::abs(o->getPresentationTime().count() - heldTs) <= 1, "block stamped %ld, its first sample is at %ld", (long)o->getPresentationTime().count(), heldTs);
        for (unsigned c = 0; c < ch; c++) for (size_t i = 0; i < heldS.size(); i++) {
            unsigned char e[4]; if (heldS[i] == SIL) memset(e, 0, 4); else sample(heldS[i], c, bps, e);
            PBT_CHECK(!memcmp(e, o->getPlanarDataBuf()[c] + i * bps, bps), "channel %u sample %zu of the block is not the one written (%s)", c, i, heldS[i] == SIL ? "silence" : "signal");
        }
    };
    for (int i = 0; i < ops; i++) {
        if (g.chance(bias)) {
            unsigned n = (unsigned)(g.chance(20) ? g.edge(0, maxS) : g.range(1, maxS / 3)); PlanarAudioFrame *in = dynamic_cast<PlanarAudioFrame *>(b->getRear());
            PBT_CHECK(in != NULL, "no input frame");
            long rearTs = base + (long)(rear * 1000000 / rate);
            long ts = synced ? rearTs : clock; int64_t pad = 0; bool past = false, jump = false; int kind = 0;
            if (synced) {
                kind = (int)g.range(0, 9);
                if (kind < 5) ts += (long)g.range(-thr + 2, thr - 2);                                     // jitter
                else if (kind < 7) { int64_t s = (int64_t)g.edge(66, chMax - 3 > 66 ? chMax - 3 : 66); ts += (long)(s * 1000000 / rate) + 1; }   // gap, filled with silence
                else if (kind == 7) { ts -= thr + (long)g.edge(1, 1000000); }                               // from the past
                else if (kind == 8 && g.chance(30)) ts += (long)((int64_t)(chMax + 3) * 1000000 / rate) + (long)g.edge(1, 100000000); // discontinuity
                long dev = ts - rearTs;
                if (dev < -thr) past = true;
                else if (dev > thr) { pad = (int64_t)dev * rate / 1000000; if (pad >= (int64_t)chMax) jump = true; }
                if (pad && std::llabs(pad - (int64_t)chMax) < 3) continue;   // exactly at the limit either reading is fine
            }
            for (unsigned c = 0; c < ch; c++) for (unsigned k = 0; k < n; k++) sample(nextId + k, c, bps, in->getPlanarDataBuf()[c] + k * bps);
            long org = 1000000 + ts; in->setSamples(n); in->setLength(n * bps); in->setPresentationTime(us(ts)); in->setOriginTime(std::chrono::system_clock::time_point(us(org)));
            int free0 = b->getFreeSamples();
            std::vector<int> r = b->addFrame();
            g.log() << " w" << n << "@" << (ts - rearTs);
            bool accepted = false;
            if (past) { special = true; g.label("past"); }
            else if (jump) { special = true; g.label("discontinuity"); buf.clear(); rear = front = 0; synced = false; lost++; clock = ts; }
            else {
                if (!synced) { synced = true; base = ts; rear = front = 0; }
                if (pad && pad > capS - (int64_t)buf.size()) { pad = -1; g.label("gap does not fit"); }
                else { for (int64_t k = 0; k < pad; k++) buf.push_back(SIL); rear += pad; if (pad) { special = true; g.label("gap"); if ((unsigned)pad > maxS) g.label("gap over one frame"); } }
                if (pad >= 0 && (int64_t)n <= capS - (int64_t)buf.size()) { for (unsigned k = 0; k < n; k++) buf.push_back(nextId + k); rear += n; accepted = true; lastOrg = org; haveOrg = true; }
                else { special = true; g.label("overflow"); }
            }
            (void)free0;
            nextId += n;
            PBT_CHECK((r.size() == 1 && r[0] == 7) == accepted && (accepted || r.empty()), "a %s block wakes %zu consumers", accepted ? "stored" : "discarded", r.size());
        } else {
            Frame *f = b->getFront();
            if (!held) {
                bool avail = buf.size() >= outS;
                PBT_CHECK((f != NULL) == avail, "a block of %u is %s with %zu samples buffered", outS, f ? "given" : "refused", buf.size());
                if (f) {
                    heldS.assign(buf.begin(), buf.begin() + outS); buf.erase(buf.begin(), buf.begin() + outS); heldTs = base + (long)(front * 1000000 / rate); front += outS; held = true; readN += outS;
                    checkOut(f);
                    if (haveOrg) { long e = lastOrg - (long)((int64_t)buf.size() * 1000000 / rate); long got = std::chrono::duration_cast<us>(f->getOriginTime().time_since_epoch()).count();
                        PBT_CHECK(std::abs(got - e) <= 2, "origin time %ld, expected %ld", got, e); }
                    g.log() << " r";
                }
            } else { PBT_CHECK(f != NULL, "the block being read vanished"); checkOut(f); }
            if (held && g.chance(80)) {
                int r = b->removeFrame(); PBT_CHECK(r == cd.wFilterId, "producer to wake %d", r); held = false;
                checkOut(b->forceGetFront());      // the last block stays readable
                if (g.chance(8)) { outS = (unsigned)g.edge(1, std::min<int>(maxS, capS)); b->setOutputFrameSamples(outS); g.label("block size changed"); g.log() << " out=" << outS; }
            }
        }
        PBT_CHECK(b->getFreeSamples() == capS - (int)buf.size(), "free space %d, capacity %d, buffered %zu", b->getFreeSamples(), capS, buf.size());
        PBT_CHECK(b->getElements() == buf.size() / outS, "%u blocks reported, %zu samples buffered, block %u", b->getElements(), buf.size(), outS);
        PBT_CHECK(b->getLostBlocs() == lost, "losses %zu, expected %zu", b->getLostBlocs(), lost);
    }
    if (special && readN > 0) g.nontrivial();
}
