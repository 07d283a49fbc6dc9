#pragma once
// E.2.1 vui_parameters()
#include "ref_hrd.h"
#include "h265_vui_parameters_parser.h"

struct VuiM { Seg s; bool has_hrd; HrdM hrd; unsigned maxSub; };
static bool ref_vui(Ref& r, VuiM& m, unsigned maxSub) {
  m.s.b = sx_in_mark(); m.has_hrd = false; m.maxSub = maxSub;
  RU(arp, 1, "aspect_ratio_info_present_flag");
  if (arp) {
    RU(idc, 8, "aspect_ratio_idc");
    if (idc == 255) { RU(w, 16, "sar_width"); RU(h, 16, "sar_height"); }
  }
  RU(osp, 1, "overscan_info_present_flag");
  if (osp) { RU(a, 1, "overscan_appropriate_flag"); }
  RU(vst, 1, "video_signal_type_present_flag");
  if (vst) {
    RU(a, 3, "video_format");
    RU(b, 1, "video_full_range_flag");
    RU(c, 1, "colour_description_present_flag");
    if (c) { RU(d, 8, "colour_primaries"); RU(e, 8, "transfer_characteristics"); RU(f, 8, "matrix_coeffs"); }
  }
  RU(cl, 1, "chroma_loc_info_present_flag");
  if (cl) {
    RUE(a, "chroma_sample_loc_type_top_field"); REJ(a > 5);
    RUE(b, "chroma_sample_loc_type_bottom_field"); REJ(b > 5);
  }
  RU(nc, 1, "neutral_chroma_indication_flag");
  RU(fs, 1, "field_seq_flag");
  RU(ff, 1, "frame_field_info_present_flag");
  RU(dw, 1, "default_display_window_flag");
  if (dw) {
    RUE(a, "def_disp_win_left_offset"); REJ(a > 16384);
    RUE(b, "def_disp_win_right_offset"); REJ(b > 16384);
    RUE(c, "def_disp_win_top_offset"); REJ(c > 16384);
    RUE(d, "def_disp_win_bottom_offset"); REJ(d > 16384);
  }
  RU(ti, 1, "vui_timing_info_present_flag");
  if (ti) {
    RU(a, 32, "vui_num_units_in_tick");
    RU(b, 32, "vui_time_scale");
    RU(c, 1, "vui_poc_proportional_to_timing_flag");
    if (c) { RUE(d, "vui_num_ticks_poc_diff_one_minus1"); }
    RU(h, 1, "vui_hrd_parameters_present_flag");
    if (h) { if (!ref_hrd(r, m.hrd, true, maxSub)) return false; m.has_hrd = true; }
  }
  RU(br, 1, "bitstream_restriction_flag");
  if (br) {
    RU(a, 1, "tiles_fixed_structure_flag");
    RU(b, 1, "motion_vectors_over_pic_boundaries_flag");
    RU(c, 1, "restricted_ref_pic_lists_flag");
    RUE(d, "min_spatial_segmentation_idc"); REJ(d > 4095);
    RUE(e, "max_bytes_per_pic_denom"); REJ(e > 16);
    RUE(f, "max_bits_per_min_cu_denom"); REJ(f > 16);
    RUE(g, "log2_max_mv_length_horizontal"); REJ(g > 16);
    RUE(h, "log2_max_mv_length_vertical"); REJ(h > 15);
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_vui(const h265nal::H265VuiParametersParser::VuiParametersState& p, const VuiM& m) {
  DUMP(p);
  const Seg& s = m.s;
#define F(n) CMP(p.n, s, #n, 0)
  F(aspect_ratio_info_present_flag); F(aspect_ratio_idc); F(sar_width); F(sar_height);
  F(overscan_info_present_flag); F(overscan_appropriate_flag); F(video_signal_type_present_flag);
  F(video_full_range_flag); F(colour_description_present_flag);
  F(chroma_loc_info_present_flag); F(chroma_sample_loc_type_top_field); F(chroma_sample_loc_type_bottom_field);
  F(neutral_chroma_indication_flag); F(field_seq_flag); F(frame_field_info_present_flag);
  F(default_display_window_flag); F(def_disp_win_left_offset); F(def_disp_win_right_offset);
  F(def_disp_win_top_offset); F(def_disp_win_bottom_offset);
  F(vui_timing_info_present_flag); F(vui_num_units_in_tick); F(vui_time_scale);
  F(vui_poc_proportional_to_timing_flag); F(vui_num_ticks_poc_diff_one_minus1); F(vui_hrd_parameters_present_flag);
  F(bitstream_restriction_flag); F(tiles_fixed_structure_flag); F(restricted_ref_pic_lists_flag);
  F(min_spatial_segmentation_idc);
#undef F
  // the standard infers non-zero values for these when absent; the decoder
  // leaves absent VUI elements at their defaults, so only presence is compared
#define F(n) CMPX(p.n, s, #n)
  F(video_format); F(colour_primaries); F(transfer_characteristics); F(matrix_coeffs);
  F(motion_vectors_over_pic_boundaries_flag); F(max_bytes_per_pic_denom); F(max_bits_per_min_cu_denom);
  F(log2_max_mv_length_horizontal); F(log2_max_mv_length_vertical);
#undef F
  sx_check((p.hrd_parameters != nullptr) == m.has_hrd, "vui.hrd_parameters present");
  if (m.has_hrd && p.hrd_parameters) cmp_hrd(*p.hrd_parameters, m.hrd);
}
