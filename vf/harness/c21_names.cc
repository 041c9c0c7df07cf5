// C21: names and values of formats, and descriptions of streams.
#include "common.hh"
#include "StreamInfo.hh"
extern "C" {
#include <libavcodec/codec_desc.h>
}
using namespace pbt;
const char *pbt::RULE = "a name near one of the tables (changed in case, cut, extended or taken from another table) was looked up";
void pbt::setup() { quietLog(); }
namespace {
struct Table { const char *what; int first, last; std::string (*name)(int); int (*value)(const std::string &); int none; };
#define T(what, type, last, n, v) {what, 0, last, [](int i) { return utils::n((type)i); }, [](const std::string &s) { return (int)utils::v(s); }, -1}
const Table TABLES[] = {T("audio codec", ACodecType, MP3, getAudioCodecAsString, getAudioCodecFromString), T("video codec", VCodecType, RAW, getVideoCodecAsString, getVideoCodecFromString), T("sample format", SampleFmt, FLTP, getSampleFormatAsString, getSampleFormatFromString),
    T("filter type", FilterType, V4L_CAPTURE, getFilterTypeAsString, getFilterTypeFromString), T("role", FilterRole, SERVER, getRoleAsString, getRoleTypeFromString), T("transmission format", TxFormat, MPEGTS, getTxFormatAsString, getTxFormatFromString)};
const int N = sizeof TABLES / sizeof *TABLES; std::set<std::string> names[N];
}
void pbt::property(Gen &g) {
    bool near = false;
    for (int t = 0; t < N; t++) { const Table &T = TABLES[t]; names[t].clear(); for (int i = T.first; i <= T.last; i++) { std::string n = T.name(i); PBT_CHECK(!n.empty(), "%s %d has no name", T.what, i); PBT_CHECK(names[t].insert(n).second, "two values of %s are called %s", T.what, n.c_str()); int v = T.value(n); PBT_CHECK(v == i, "%s %d is called %s, which is read as %d", T.what, i, n.c_str(), v); } PBT_CHECK(!names[t].count(T.name(T.none)), "no %s has the name of one", T.what); PBT_CHECK(T.value(T.name(T.none)) == T.none, "the name of no %s is read as one", T.what); }
    { std::set<std::string> s; for (int i = 0; i <= YUVJ420P; i++) PBT_CHECK(s.insert(utils::getPixTypeAsString((PixType)i)).second, "two pixel formats are called %s", utils::getPixTypeAsString((PixType)i).c_str()); PBT_CHECK(s.insert(utils::getPixTypeAsString(P_NONE)).second, "no pixel format has the name of one"); }
    for (int i = 0; i <= FLTP; i++) { int b = utils::getBytesPerSampleFromFormat((SampleFmt)i), want = i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : 4; PBT_CHECK(b == want, "%d bytes per sample of %s", b, utils::getSampleFormatAsString((SampleFmt)i).c_str()); } PBT_CHECK(utils::getBytesPerSampleFromFormat(S_NONE) == 0, "bytes of no format");
    int looks = (int)g.range(1, 20);
    for (int k = 0; k < looks; k++) {
        int t = (int)g.range(0, N - 1), o = g.chance(70) ? t : (int)g.range(0, N - 1); std::string s = *std::next(names[o].begin(), g.range(0, names[o].size() - 1));
        switch (g.range(0, 7)) { case 0: for (auto &c : s) c = g.chance(50) ? toupper(c) : tolower(c); break; case 1: s.resize(g.raw(s.size())); break; case 2: s += (char)g.range(0, 255); break; case 3: s = (char)g.range(0, 255) + s; break; case 4: if (!s.empty()) s[g.raw(s.size() - 1)] = (char)g.range(0, 255); break; case 5: { s = ""; for (int n = (int)g.edge(0, 40); n > 0; n--) s += (char)g.range(0, 255); break; } case 6: s = s + s; break; default: break; }
        near = true; int v = TABLES[t].value(s); if (!names[t].count(s)) PBT_CHECK(v == TABLES[t].none, "'%s' is read as %s %d", s.c_str(), TABLES[t].what, v); else PBT_CHECK(TABLES[t].name(v) == s, "%s '%s' is read as %s", TABLES[t].what, s.c_str(), TABLES[t].name(v).c_str());
        int c = utils::getAudioCodecFromLibavString(s), w = utils::getVideoCodecFromLibavString(s); (void)c; (void)w; PBT_CHECK(utils::getPixTypeAsString(utils::getPixTypeFromString(s)) != "" , "pixel format");
        g.log() << " " << TABLES[t].what << " '" << s << "'";
    }
    // names of the demuxing library
    struct L { const char *n; int a, v; }; const L ls[] = {{"pcm_alaw", G711, -1}, {"pcm_mulaw", G711, -1}, {"pcm_u8", PCMU, -1}, {"pcm_u16le", PCMU, -1}, {"pcm_s16le", PCM, -1}, {"pcm_s24be", PCM, -1}, {"opus", OPUS, -1}, {"aac", AAC, -1}, {"mp3", MP3, -1}, {"h264", -1, H264}, {"hevc", -1, H265}, {"vp8", -1, VP8}, {"mjpeg", -1, MJPEG}, {"rawvideo", -1, RAW}, {"vorbis", -1, -1}, {"", -1, -1}, {"pcm", -1, -1}};
    for (auto &l : ls) { PBT_CHECK((int)utils::getAudioCodecFromLibavString(l.n) == l.a, "audio codec of '%s'", l.n); PBT_CHECK((int)utils::getVideoCodecFromLibavString(l.n) == l.v, "video codec of '%s'", l.n); }
    if (g.chance(10)) for (const AVCodecDescriptor *d = NULL; (d = avcodec_descriptor_next(d)); ) { std::string n = d->name; bool planar = n.size() > 7 && n.substr(n.size() - 7) == "_planar"; int a = n == "pcm_alaw" || n == "pcm_mulaw" ? G711 : n == "opus" ? OPUS : n == "aac" ? AAC : n == "mp3" ? MP3 : -1, v = n == "h264" ? H264 : n == "hevc" ? H265 : n == "vp8" ? VP8 : n == "mjpeg" ? MJPEG : n == "rawvideo" ? RAW : -1, ga = utils::getAudioCodecFromLibavString(n), gv = utils::getVideoCodecFromLibavString(n);
        if (a < 0 && n.compare(0, 5, "pcm_u") == 0) a = PCMU; else if (a < 0 && n.compare(0, 5, "pcm_s") == 0 && n != "pcm_sga") a = PCM; if (n == "pcm_sga") continue; /* a game's format, whose name happens to begin so */
        PBT_CHECK(ga == a || (planar && ga == -1), "audio codec '%s' is taken for %d", d->name, ga); PBT_CHECK(gv == v, "video codec '%s' is taken for %d", d->name, gv); }
    unsigned len = (unsigned)g.edge(0, 300); std::string id = utils::randomIdGenerator(len); PBT_CHECK(id.size() == len, "an identifier of %zu characters, asked for %u", id.size(), len); for (char c : id) PBT_CHECK(isalnum((unsigned char)c), "character %d in an identifier", c);
    // stream descriptions own their codec data
    StreamInfo si(g.chance(50) ? AUDIO : VIDEO); std::vector<uint8_t> want; for (int n = (int)g.range(0, 5); n > 0; n--) { want.clear(); size_t z = g.edge(0, 500); for (size_t i = 0; i < z; i++) want.push_back((uint8_t)g.raw(255)); std::vector<uint8_t> src = want; if (g.chance(20)) { want.clear(); si.setExtraData(NULL, 0); } else { src.push_back(0); si.setExtraData(src.data(), (int)want.size()); } std::fill(src.begin(), src.end(), 0xAA); PBT_CHECK(si.extradata_size == (int)want.size() && (want.empty() || !memcmp(si.extradata, want.data(), want.size())), "codec data of %zu bytes", want.size()); }
    if (si.type == AUDIO) { si.audio.codec = (ACodecType)g.range(0, MP3); si.audio.sampleRate = (int)g.edge(0, 192000); si.audio.channels = (int)g.range(0, 8); si.audio.sampleFormat = (SampleFmt)g.range(0, FLTP); std::string d = utils::getStreamInfoAsString(&si); PBT_CHECK(d.find(utils::getAudioCodecAsString(si.audio.codec)) != std::string::npos && d.find(std::to_string(si.audio.sampleRate)) != std::string::npos && d.find(utils::getSampleFormatAsString(si.audio.sampleFormat)) != std::string::npos, "description %s", d.c_str());
        unsigned r = si.audio.sampleRate, c = si.audio.channels; si.setCodecDefaults(); if (si.audio.codec == G711) PBT_CHECK(si.audio.sampleRate == 8000 && si.audio.channels == 1 && si.audio.sampleFormat == U8, "G.711 defaults"); else PBT_CHECK(si.audio.sampleRate == r && si.audio.channels == c, "defaults changed the rate or channels"); }
    else { si.video.codec = (VCodecType)g.range(0, RAW); si.video.pixelFormat = (PixType)g.range(0, YUVJ420P); si.setCodecDefaults(); bool h = si.video.codec == H264 || si.video.codec == H265; PBT_CHECK(si.video.h264or5.annexb == h && si.video.h264or5.framed == h, "video defaults"); std::string d = utils::getStreamInfoAsString(&si); PBT_CHECK(d.find(utils::getVideoCodecAsString(si.video.codec)) != std::string::npos && d.find(utils::getPixTypeAsString(si.video.pixelFormat)) != std::string::npos, "description %s", d.c_str()); }
    if (near) g.nontrivial(); g.label("lookups");
}
