// C22: sequence parameter sets written by an independent writer, and arbitrary bytes, read by the parser and by the
// adapter that reports the picture size (over a stand-in for live555).
#include "common.hh"
extern "C" {
#include "modules/transmitter/SPSparser/h264_stream.h"
}
#include "modules/transmitter/H264VideoStreamSampler.hh"
using namespace pbt;
const char *pbt::RULE = "a parameter set with at least one optional part (high profile syntax, cropping, picture order count cycle, VUI or HRD) was parsed, or damaged bytes were";
void pbt::setup() { quietLog(); }
SPropRecord *parseSPropParameterSets(char const *, unsigned &n) { n = 0; return NULL; }
namespace {
struct BW { std::string s; int n = 0; void bit(int b) { if (n % 8 == 0) s.push_back(0); if (b) s.back() |= 0x80 >> (n % 8); n++; } void u(int k, uint64_t v) { for (int i = k - 1; i >= 0; i--) bit((v >> i) & 1); } void ue(uint64_t v) { v++; int k = 0; while (v >> (k + 1)) k++; u(k, 0); u(k + 1, v); } void se(int64_t v) { ue(v > 0 ? 2 * v - 1 : -2 * v); } void trail() { bit(1); while (n % 8) bit(0); } };
struct Fields { std::vector<std::pair<std::string, int64_t>> v; };
// the elements, in the order of the standard, each remembered with the place the parser keeps it
struct Sps { sps_t e; bool opt; std::vector<std::pair<int, int>> lists; bool useDef[12]; std::vector<int> list[12]; int nlists; int64_t w, h; double fps; };
std::string escape(const std::string &r) { std::string o; int z = 0; for (unsigned char c : r) { if (z == 2 && c <= 3) { o += 3; z = 0; } o += c; z = c ? 0 : z + 1; } if (!r.empty() && !r.back()) o += 3; return o; }
void hrd(Gen &g, BW &b, sps_t &e) {
    e.hrd.cpb_cnt_minus1 = (int)g.edge(0, 31); b.ue(e.hrd.cpb_cnt_minus1); b.u(4, e.hrd.bit_rate_scale = g.range(0, 15)); b.u(4, e.hrd.cpb_size_scale = g.range(0, 15)); memset(e.hrd.bit_rate_value_minus1, 0, sizeof e.hrd.bit_rate_value_minus1);
    for (int i = 0; i <= e.hrd.cpb_cnt_minus1; i++) { uint64_t x = g.edge(0, 4294967294ULL), y = g.chance(20) ? g.edge(0, 4294967294ULL) : g.range(0, 500000); b.ue(x); b.ue(y); e.hrd.bit_rate_value_minus1[i] = (int)(uint32_t)x; e.hrd.cpb_size_value_minus1[i] = (int)(uint32_t)y; b.bit(e.hrd.cbr_flag[i] = g.range(0, 1)); }
    b.u(5, e.hrd.initial_cpb_removal_delay_length_minus1 = g.range(0, 31)); b.u(5, e.hrd.cpb_removal_delay_length_minus1 = g.range(0, 31)); b.u(5, e.hrd.dpb_output_delay_length_minus1 = g.range(0, 31)); b.u(5, e.hrd.time_offset_length = g.range(0, 31));
}
std::string make(Gen &g, Sps &S) {
    memset(&S.e, 0, sizeof S.e); S.opt = false; S.nlists = 0; sps_t &e = S.e; BW b; for (auto &l : S.list) l.clear(); memset(S.useDef, 0, sizeof S.useDef);
    b.u(8, e.profile_idc = g.pick({66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128})); b.bit(e.constraint_set0_flag = g.range(0, 1)); b.bit(e.constraint_set1_flag = g.range(0, 1)); b.bit(e.constraint_set2_flag = g.range(0, 1)); b.bit(e.constraint_set3_flag = g.range(0, 1)); b.bit(e.constraint_set4_flag = g.range(0, 1)); b.bit(e.constraint_set5_flag = g.range(0, 1)); b.u(2, 0); b.u(8, e.level_idc = (int)g.range(0, 255)); b.ue(e.seq_parameter_set_id = (int)g.edge(0, 31)); e.chroma_format_idc = 1;
    if (e.profile_idc != 66 && e.profile_idc != 77 && e.profile_idc != 88) {
        S.opt = true; b.ue(e.chroma_format_idc = (int)g.range(0, 3)); if (e.chroma_format_idc == 3) b.bit(e.residual_colour_transform_flag = g.range(0, 1)); b.ue(e.bit_depth_luma_minus8 = (int)g.range(0, 6)); b.ue(e.bit_depth_chroma_minus8 = (int)g.range(0, 6)); b.bit(e.qpprime_y_zero_transform_bypass_flag = g.range(0, 1)); b.bit(e.seq_scaling_matrix_present_flag = g.chance(50));
        if (e.seq_scaling_matrix_present_flag) { S.nlists = e.chroma_format_idc == 3 ? 12 : 8; for (int i = 0; i < S.nlists; i++) { bool p = g.chance(50); b.bit(p); if (!p) continue; int n = i < 6 ? 16 : 64, last = 8, stop = g.chance(30) ? (int)g.edge(0, n) : n; for (int j = 0; j < n; j++) { if (j == stop) { int d = -last; if (d < -128) d += 256; b.se(d); S.useDef[i] = j == 0; for (; j < n; j++) S.list[i].push_back(last); break; } int v = (int)g.edge(1, 255), d = v - last; if (d < -128) d += 256; if (d > 127) d -= 256; b.se(d); last = v; S.list[i].push_back(v); } } }
    }
    b.ue(e.log2_max_frame_num_minus4 = (int)g.range(0, 12)); b.ue(e.pic_order_cnt_type = (int)g.range(0, 2));
    if (e.pic_order_cnt_type == 0) b.ue(e.log2_max_pic_order_cnt_lsb_minus4 = (int)g.range(0, 12));
    else if (e.pic_order_cnt_type == 1) { S.opt = true; auto off = [&]() { int64_t v = g.chance(70) ? (int64_t)g.range(0, 40) - 20 : (int64_t)g.edge(0, 4294967294ULL) - 2147483647; b.se(v); return (int)v; }; b.bit(e.delta_pic_order_always_zero_flag = g.range(0, 1)); e.offset_for_non_ref_pic = off(); e.offset_for_top_to_bottom_field = off(); b.ue(e.num_ref_frames_in_pic_order_cnt_cycle = (int)(g.chance(50) ? g.range(0, 4) : g.edge(0, 255))); for (int i = 0; i < e.num_ref_frames_in_pic_order_cnt_cycle; i++) e.offset_for_ref_frame[i] = off(); }
    b.ue(e.num_ref_frames = (int)g.range(0, 16)); b.bit(e.gaps_in_frame_num_value_allowed_flag = g.range(0, 1)); b.ue(e.pic_width_in_mbs_minus1 = (int)g.edge(0, 543)); b.ue(e.pic_height_in_map_units_minus1 = (int)g.edge(0, 543)); b.bit(e.frame_mbs_only_flag = g.chance(70)); if (!e.frame_mbs_only_flag) b.bit(e.mb_adaptive_frame_field_flag = g.range(0, 1)); b.bit(e.direct_8x8_inference_flag = g.range(0, 1)); b.bit(e.frame_cropping_flag = g.chance(50));
    int cf = e.residual_colour_transform_flag ? 0 : e.chroma_format_idc, cx = cf == 1 || cf == 2 ? 2 : 1, cy = (cf == 1 ? 2 : 1) * (2 - e.frame_mbs_only_flag); S.w = 16 * (e.pic_width_in_mbs_minus1 + 1); S.h = 16 * (2 - e.frame_mbs_only_flag) * (e.pic_height_in_map_units_minus1 + 1);
    if (e.frame_cropping_flag) { S.opt = true; int mx = (int)(S.w - 1) / cx, my = (int)(S.h - 1) / cy; b.ue(e.frame_crop_left_offset = (int)g.edge(0, g.chance(70) ? std::min(8, mx) : mx)); b.ue(e.frame_crop_right_offset = (int)g.edge(0, mx - e.frame_crop_left_offset)); b.ue(e.frame_crop_top_offset = (int)g.edge(0, g.chance(70) ? std::min(8, my) : my)); b.ue(e.frame_crop_bottom_offset = (int)g.edge(0, my - e.frame_crop_top_offset)); S.w -= cx * (e.frame_crop_left_offset + e.frame_crop_right_offset); S.h -= cy * (e.frame_crop_top_offset + e.frame_crop_bottom_offset); }
    b.bit(e.vui_parameters_present_flag = g.chance(60)); S.fps = -1;
    if (e.vui_parameters_present_flag) { S.opt = true; auto &v = e.vui;
        b.bit(v.aspect_ratio_info_present_flag = g.range(0, 1)); if (v.aspect_ratio_info_present_flag) { b.u(8, v.aspect_ratio_idc = g.chance(50) ? 255 : (int)g.range(0, 255)); if (v.aspect_ratio_idc == 255) { b.u(16, v.sar_width = (int)g.edge(0, 65535)); b.u(16, v.sar_height = (int)g.edge(0, 65535)); } }
        b.bit(v.overscan_info_present_flag = g.range(0, 1)); if (v.overscan_info_present_flag) b.bit(v.overscan_appropriate_flag = g.range(0, 1));
        b.bit(v.video_signal_type_present_flag = g.range(0, 1)); if (v.video_signal_type_present_flag) { b.u(3, v.video_format = g.range(0, 7)); b.bit(v.video_full_range_flag = g.range(0, 1)); b.bit(v.colour_description_present_flag = g.range(0, 1)); if (v.colour_description_present_flag) { b.u(8, v.colour_primaries = g.range(0, 255)); b.u(8, v.transfer_characteristics = g.range(0, 255)); b.u(8, v.matrix_coefficients = g.range(0, 255)); } }
        b.bit(v.chroma_loc_info_present_flag = g.range(0, 1)); if (v.chroma_loc_info_present_flag) { b.ue(v.chroma_sample_loc_type_top_field = g.range(0, 5)); b.ue(v.chroma_sample_loc_type_bottom_field = g.range(0, 5)); }
        b.bit(v.timing_info_present_flag = g.range(0, 1)); if (v.timing_info_present_flag) { uint32_t n = (uint32_t)g.edge(1, g.chance(70) ? 2000 : 4294967295ULL), t = (uint32_t)g.edge(1, g.chance(70) ? 120000 : 4294967295ULL); v.num_units_in_tick = (int)n; v.time_scale = (int)t; b.u(32, n); b.u(32, t); b.bit(v.fixed_frame_rate_flag = g.range(0, 1)); S.fps = (double)t / (2.0 * n); }
        b.bit(v.nal_hrd_parameters_present_flag = g.chance(30)); if (v.nal_hrd_parameters_present_flag) hrd(g, b, e); b.bit(v.vcl_hrd_parameters_present_flag = g.chance(30)); if (v.vcl_hrd_parameters_present_flag) hrd(g, b, e); if (v.nal_hrd_parameters_present_flag || v.vcl_hrd_parameters_present_flag) b.bit(v.low_delay_hrd_flag = g.range(0, 1));
        b.bit(v.pic_struct_present_flag = g.range(0, 1)); b.bit(v.bitstream_restriction_flag = g.range(0, 1)); if (v.bitstream_restriction_flag) { b.bit(v.motion_vectors_over_pic_boundaries_flag = g.range(0, 1)); b.ue(v.max_bytes_per_pic_denom = g.range(0, 16)); b.ue(v.max_bits_per_mb_denom = g.range(0, 16)); b.ue(v.log2_max_mv_length_horizontal = g.range(0, 16)); b.ue(v.log2_max_mv_length_vertical = g.range(0, 16)); b.ue(v.num_reorder_frames = g.range(0, 16)); b.ue(v.max_dec_frame_buffering = g.range(0, 16)); }
    }
    b.trail(); return std::string(1, (char)(0x07 | (g.range(1, 3) << 5))) + escape(b.s);
}
#define EQ(f) PBT_CHECK(p.f == e.f, #f " is %lld, written as %lld", (long long)p.f, (long long)e.f)
void compare(const sps_t &p, const Sps &S) {
    const sps_t &e = S.e; EQ(profile_idc); EQ(constraint_set0_flag); EQ(constraint_set1_flag); EQ(constraint_set2_flag); EQ(constraint_set3_flag); EQ(constraint_set4_flag); EQ(constraint_set5_flag); EQ(reserved_zero_2bits); EQ(level_idc); EQ(seq_parameter_set_id); EQ(chroma_format_idc); EQ(residual_colour_transform_flag); EQ(bit_depth_luma_minus8); EQ(bit_depth_chroma_minus8); EQ(qpprime_y_zero_transform_bypass_flag); EQ(seq_scaling_matrix_present_flag);
    for (int i = 0; i < std::min(8, S.nlists); i++) { PBT_CHECK(p.seq_scaling_list_present_flag[i] == !S.list[i].empty(), "scaling list %d present: %d", i, p.seq_scaling_list_present_flag[i]); for (size_t j = 0; j < S.list[i].size(); j++) { int v = i < 6 ? p.ScalingList4x4[i][j] : p.ScalingList8x8[i - 6][j]; PBT_CHECK(v == S.list[i][j], "element %zu of scaling list %d is %d, written as %d", j, i, v, S.list[i][j]); } if (!S.list[i].empty()) PBT_CHECK(!!(i < 6 ? p.UseDefaultScalingMatrix4x4Flag[i] : p.UseDefaultScalingMatrix8x8Flag[i - 6]) == S.useDef[i], "default flag of scaling list %d", i); }
    EQ(log2_max_frame_num_minus4); EQ(pic_order_cnt_type); EQ(log2_max_pic_order_cnt_lsb_minus4); EQ(delta_pic_order_always_zero_flag); EQ(offset_for_non_ref_pic); EQ(offset_for_top_to_bottom_field); EQ(num_ref_frames_in_pic_order_cnt_cycle); for (int i = 0; i < e.num_ref_frames_in_pic_order_cnt_cycle; i++) EQ(offset_for_ref_frame[i]);
    EQ(num_ref_frames); EQ(gaps_in_frame_num_value_allowed_flag); EQ(pic_width_in_mbs_minus1); EQ(pic_height_in_map_units_minus1); EQ(frame_mbs_only_flag); EQ(mb_adaptive_frame_field_flag); EQ(direct_8x8_inference_flag); EQ(frame_cropping_flag); EQ(frame_crop_left_offset); EQ(frame_crop_right_offset); EQ(frame_crop_top_offset); EQ(frame_crop_bottom_offset); EQ(vui_parameters_present_flag);
    EQ(vui.aspect_ratio_info_present_flag); EQ(vui.aspect_ratio_idc); EQ(vui.sar_width); EQ(vui.sar_height); EQ(vui.overscan_info_present_flag); EQ(vui.overscan_appropriate_flag); EQ(vui.video_signal_type_present_flag); EQ(vui.video_format); EQ(vui.video_full_range_flag); EQ(vui.colour_description_present_flag); EQ(vui.colour_primaries); EQ(vui.transfer_characteristics); EQ(vui.matrix_coefficients); EQ(vui.chroma_loc_info_present_flag); EQ(vui.chroma_sample_loc_type_top_field); EQ(vui.chroma_sample_loc_type_bottom_field); EQ(vui.timing_info_present_flag); EQ(vui.num_units_in_tick); EQ(vui.time_scale); EQ(vui.fixed_frame_rate_flag); EQ(vui.nal_hrd_parameters_present_flag); EQ(vui.vcl_hrd_parameters_present_flag); EQ(vui.low_delay_hrd_flag); EQ(vui.pic_struct_present_flag); EQ(vui.bitstream_restriction_flag); EQ(vui.motion_vectors_over_pic_boundaries_flag); EQ(vui.max_bytes_per_pic_denom); EQ(vui.max_bits_per_mb_denom); EQ(vui.log2_max_mv_length_horizontal); EQ(vui.log2_max_mv_length_vertical); EQ(vui.num_reorder_frames); EQ(vui.max_dec_frame_buffering);
    EQ(hrd.cpb_cnt_minus1); EQ(hrd.bit_rate_scale); EQ(hrd.cpb_size_scale); if (e.vui.nal_hrd_parameters_present_flag || e.vui.vcl_hrd_parameters_present_flag) for (int i = 0; i <= e.hrd.cpb_cnt_minus1; i++) { EQ(hrd.bit_rate_value_minus1[i]); EQ(hrd.cpb_size_value_minus1[i]); EQ(hrd.cbr_flag[i]); } EQ(hrd.initial_cpb_removal_delay_length_minus1); EQ(hrd.cpb_removal_delay_length_minus1); EQ(hrd.dpb_output_delay_length_minus1); EQ(hrd.time_offset_length);
}
// parses one NAL unit held in buffers of exactly its size; false when it is refused
bool parse(const std::string &nal, sps_t *out) {
    std::unique_ptr<uint8_t[]> in(new uint8_t[nal.size()]), rb(new uint8_t[nal.size()]); memcpy(in.get(), nal.data(), nal.size()); int n = (int)nal.size(), r = n; int rc = nal_to_rbsp(in.get(), &n, rb.get(), &r); if (rc < 0) return false; PBT_CHECK(rc == r && r >= 0 && r <= (int)nal.size(), "%d bytes of payload in a NAL unit of %zu", r, nal.size());
    std::unique_ptr<uint8_t[]> ex(new uint8_t[r]); memcpy(ex.get(), rb.get(), r); bs_t *b = bs_new(ex.get(), r); std::unique_ptr<sps_t> s(new sps_t); rc = read_seq_parameter_set_rbsp(s.get(), b); bs_free(b); if (rc < 0) return false; *out = *s; return true;
}
// a source that hands out NAL units one by one
struct Nals : public FramedSource { std::deque<std::string> q; Nals(UsageEnvironment &e) : FramedSource(e) {} void doGetNextFrame() { if (q.empty()) return; std::string s = q.front(); q.pop_front(); fFrameSize = std::min<unsigned>(fMaxSize, s.size()); fNumTruncatedBytes = s.size() - fFrameSize; memcpy(fTo, s.data(), fFrameSize); FramedSource::afterGetting(this); } };
struct Out { bool got; unsigned size, cut; };
void after(void *d, unsigned n, unsigned cut, struct timeval, unsigned) { Out *o = (Out *)d; o->got = true; o->size = n; o->cut = cut; }
}
void pbt::property(Gen &g) {
    std::unique_ptr<Sps> S(new Sps()); int n = (int)g.range(1, 4); bool nt = false;
    for (int k = 0; k < n; k++) {
        std::string nal = make(g, *S); std::unique_ptr<sps_t> p(new sps_t); bool damaged = g.chance(45);
        if (!damaged) { PBT_CHECK(parse(nal, p.get()), "a legal parameter set of %zu bytes was refused", nal.size()); compare(*p, *S); nt |= S->opt; g.label(S->nlists ? "scaling lists" : S->opt ? "optional parts" : "plain"); g.log() << " set(" << S->w << "x" << S->h << "," << nal.size() << " bytes)"; }
        else { switch (g.range(0, 4)) { case 0: nal.resize(g.raw(nal.size())); break; case 1: for (int m = (int)g.range(1, 6); m > 0; m--) nal[g.raw(nal.size() - 1)] = (char)g.range(0, 255); break; case 2: { nal = ""; for (int m = (int)g.edge(0, 400); m > 0; m--) nal += (char)g.pick({0, 0, 1, 3, 0x80, 0xff, (int)g.range(0, 255)}); break; } case 3: { size_t a = g.raw(nal.size()); nal.insert(a, std::string(g.edge(1, 40), (char)g.pick({0, 1, 0xff}))); break; } default: { size_t a = g.raw(nal.size() - 1); nal.erase(a, g.edge(1, nal.size() - a)); } } bool ok = parse(nal, p.get()); nt = true; g.label(ok ? "damaged, read" : "damaged, refused"); g.log() << " damaged(" << nal.size() << " bytes)"; }
    }
    // through the adapter: a picture of several NAL units, delimited by access unit delimiters, into a buffer of any size
    TaskScheduler ts; UsageEnvironment env(ts); Nals *src = new Nals(env); bool annexb = g.chance(50); H264VideoStreamSampler *f = H264VideoStreamSampler::createNew(env, src, annexb); int pics = (int)g.range(1, 4); int64_t w = 0, h = 0; double fps = 0; size_t max = g.chance(60) ? 8000 : g.edge(4, 300); bool known = false, unknown = false;
    std::vector<std::vector<std::string>> want; bool truncated = false;
    for (int i = 0; i < pics; i++) { std::vector<std::string> us; bool bad = false; if (g.chance(60)) { std::string s = make(g, *S); if (g.chance(20)) { bad = true; for (int m = (int)g.range(1, 6); m > 0; m--) s[1 + g.raw(s.size() - 2)] = (char)g.range(0, 255); if (g.chance(50)) s.resize(1 + g.raw(s.size() - 1)); } us.push_back(s); } for (int m = (int)g.range(0, 3); m > 0; m--) { std::string u(1, (char)g.pick({0x41, 0x65, 0x68, 0x06})); for (int z = (int)g.edge(0, 120); z > 0; z--) u += (char)(1 + g.raw(254)); us.push_back(u); } want.push_back(us); bool sps = !us.empty() && (us[0][0] & 31) == 7;
        for (auto &u : us) src->q.push_back(u); src->q.push_back(std::string("\x09\xf0", 2)); size_t total = 0; std::string expect; for (auto &u : us) { total += 4 + u.size(); uint32_t z = htonl(u.size()); expect += annexb ? std::string("\0\0\0\1", 4) : std::string((char *)&z, 4); expect += u; }
        std::unique_ptr<unsigned char[]> to(new unsigned char[max]); Out o = {false, 0, 0}; f->getNextFrame(to.get(), (unsigned)max, after, &o, NULL, NULL); PBT_CHECK(o.got, "no picture was delivered"); PBT_CHECK(o.size <= max, "a picture of %u bytes in a buffer of %zu", o.size, max);
        if (total + 6 <= max) { PBT_CHECK(o.size == expect.size() && !memcmp(to.get(), expect.data(), o.size), "a picture of %u bytes, expected %zu", o.size, expect.size()); PBT_CHECK(f->pictureEndMarker(), "the end of a picture is not marked"); if (bad) { unknown = true; known = false; fps = -1; continue; } if (sps) { unknown = false; w = S->w; h = S->h; if (S->fps > 0) fps = S->fps, known = true; } if (!unknown) PBT_CHECK(f->getWidth() == w && f->getHeight() == h, "picture size %dx%d, expected %lldx%lld", f->getWidth(), f->getHeight(), (long long)w, (long long)h); if (known) PBT_CHECK(std::abs(f->getFrameRate() - fps) <= 1e-6 * fps, "frame rate %g, expected %g", f->getFrameRate(), fps); if (!known && fps == 0) PBT_CHECK(f->getFrameRate() == 0, "frame rate %g before any was given", f->getFrameRate()); }
        else { truncated = true; break; }
    }
    // after a cut picture only memory safety is required of what follows
    if (truncated) for (int i = 0; i < 4; i++) { std::unique_ptr<unsigned char[]> to(new unsigned char[max]); Out o = {false, 0, 0}; if (f->isCurrentlyAwaitingData()) break; f->getNextFrame(to.get(), (unsigned)max, after, &o, NULL, NULL); if (o.got) PBT_CHECK(o.size <= max, "a picture of %u bytes in a buffer of %zu", o.size, max); else break; }
    g.label(truncated ? "cut picture" : "whole pictures"); Medium::close(f); if (nt) g.nontrivial();
}
