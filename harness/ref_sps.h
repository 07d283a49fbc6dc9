#pragma once
// 7.3.2.2 seq_parameter_set_rbsp()
#include "ref_ptl.h"
#include "ref_vui.h"
#include "ref_rps.h"
#include "ref_sl.h"
#include "ref_ext.h"
#include "h265_sps_parser.h"
struct SpsM {
  Seg s;
  PtlM ptl; SlM sl; bool has_sl; RpsM rps[66]; int nrps; VuiM vui; bool has_vui;
  SpsRangeM range; SpsMlM ml; Sps3dM d3; SpsSccM scc; bool has_range, has_ml, has_3d, has_scc;
  Arr<40> ltpoc;
  uint64_t cfi, scp, w, h, cl, cr, ct, cb, log2min, log2diff, bdl, bdc, log2poc, maxsub;
};
static bool ref_sps(Ref& r, SpsM& m) {
  m.s.b = sx_in_mark();
  m.has_sl = m.has_vui = m.has_range = m.has_ml = m.has_3d = m.has_scc = false; m.nrps = 0; m.ltpoc.n = 0;
  m.scp = m.cl = m.cr = m.ct = m.cb = 0;
  RU(vid, 4, "sps_video_parameter_set_id");
  RU(ms, 3, "sps_max_sub_layers_minus1");
  m.maxsub = sx_concretize(ms);
  RU(nest, 1, "sps_temporal_id_nesting_flag");
  if (!ref_ptl(r, m.ptl, true, (unsigned)m.maxsub)) return false;
  RUE(sid, "sps_seq_parameter_set_id"); REJ(sid > 15);
  RUE(cfi, "chroma_format_idc"); REJ(cfi > 3); m.cfi = cfi;
  if (cfi == 3) { RU(scp, 1, "separate_colour_plane_flag"); m.scp = scp; }
  // the supported picture size: one 8.4 level limit, sqrt(8 * 35651584)
  RUE(w, "pic_width_in_luma_samples"); m.w = w; REJ(w < 1 || w > 16888 || (w & 7));
  RUE(h, "pic_height_in_luma_samples"); m.h = h; REJ(h < 1 || h > 16888 || (h & 7));
  RU(cw, 1, "conformance_window_flag");
  if (cw) {
    uint64_t sw = sx_ite(m.cfi == 1 || m.cfi == 2, 2, 1), sh = sx_ite(m.cfi == 1, 2, 1);
    RUE(l, "conf_win_left_offset"); REJ(l > w);
    RUE(ri, "conf_win_right_offset"); REJ(ri > w);
    RUE(t, "conf_win_top_offset"); REJ(t > h);
    RUE(b, "conf_win_bottom_offset"); REJ(b > h);
    REJ((uint32_t)sw * (l + ri) >= w || (uint32_t)sh * (t + b) >= h);
    m.cl = l; m.cr = ri; m.ct = t; m.cb = b;
  }
  RUE(bdl, "bit_depth_luma_minus8"); REJ(bdl > 8); m.bdl = bdl;
  RUE(bdc, "bit_depth_chroma_minus8"); REJ(bdc > 8); m.bdc = bdc;
  RUE(poc, "log2_max_pic_order_cnt_lsb_minus4"); REJ(poc > 12); m.log2poc = poc;
  RU(oi, 1, "sps_sub_layer_ordering_info_present_flag");
  for (unsigned i = oi ? 0 : (unsigned)m.maxsub; i <= m.maxsub; i++) {
    RUE(a, "sps_max_dec_pic_buffering_minus1"); REJ(a > 15);
    RUE(b, "sps_max_num_reorder_pics");
    RUE(c, "sps_max_latency_increase_plus1");
  }
  RUE(lmin, "log2_min_luma_coding_block_size_minus3"); REJ(lmin > 3); m.log2min = lmin + 3;
  uint32_t mask = (uint32_t)sx_ite(lmin == 0, 7, sx_ite(lmin == 1, 15, sx_ite(lmin == 2, 31, 63)));
  REJ((w & mask) != 0 || (h & mask) != 0);
  RUE(ldiff, "log2_diff_max_min_luma_coding_block_size"); REJ(ldiff > 3); m.log2diff = ldiff;
  RUE(tmin, "log2_min_luma_transform_block_size_minus2");
  RUE(tdiff, "log2_diff_max_min_luma_transform_block_size");
  RUE(dinter, "max_transform_hierarchy_depth_inter");
  RUE(dintra, "max_transform_hierarchy_depth_intra");
  RU(sle, 1, "scaling_list_enabled_flag");
  if (sle) {
    RU(slp, 1, "sps_scaling_list_data_present_flag");
    if (slp) { if (!ref_sl(r, m.sl)) return false; m.has_sl = true; }
  }
  RU(amp, 1, "amp_enabled_flag");
  RU(sao, 1, "sample_adaptive_offset_enabled_flag");
  RU(pcm, 1, "pcm_enabled_flag");
  if (pcm) {
    RU(a, 4, "pcm_sample_bit_depth_luma_minus1");
    RU(b, 4, "pcm_sample_bit_depth_chroma_minus1");
    RUE(c, "log2_min_pcm_luma_coding_block_size_minus3");
    RUE(d, "log2_diff_max_min_pcm_luma_coding_block_size");
    RU(e, 1, "pcm_loop_filter_disabled_flag");
  }
  RUE(nr, "num_short_term_ref_pic_sets"); REJH(nr > 64);
  m.nrps = (int)sx_concretize(nr);
  for (int i = 0; i < m.nrps; i++) if (!ref_rps(r, m.rps, i, m.nrps, 15)) return false;
  RU(lt, 1, "long_term_ref_pics_present_flag");
  if (lt) {
    RUE(nl, "num_long_term_ref_pics_sps"); REJH(nl > 32 || m.log2poc > 12);
    unsigned n = (unsigned)sx_concretize(nl), bits = n ? (unsigned)sx_concretize(m.log2poc) + 4 : 0;
    for (unsigned i = 0; i < n; i++) {
      RU(a, bits, "lt_ref_pic_poc_lsb_sps"); m.ltpoc.push(a);
      RU(b, 1, "used_by_curr_pic_lt_sps_flag");
    }
  }
  RU(mvp, 1, "sps_temporal_mvp_enabled_flag");
  RU(sis, 1, "strong_intra_smoothing_enabled_flag");
  RU(vui, 1, "vui_parameters_present_flag");
  if (vui) { if (!ref_vui(r, m.vui, (unsigned)m.maxsub)) return false; m.has_vui = true; }
  RU(ext, 1, "sps_extension_present_flag");
  if (ext) {
    RU(er, 1, "sps_range_extension_flag");
    RU(em, 1, "sps_multilayer_extension_flag");
    RU(e3, 1, "sps_3d_extension_flag");
    RU(es, 1, "sps_scc_extension_flag");
    RU(e4, 4, "sps_extension_4bits");
    if (er) { if (!ref_sps_range(r, m.range)) return false; m.has_range = true; }
    if (em) { if (!ref_sps_ml(r, m.ml)) return false; m.has_ml = true; }
    if (e3) { if (!ref_sps_3d(r, m.d3)) return false; m.has_3d = true; }
    if (es) { if (!ref_sps_scc(r, m.scc, m.cfi, m.bdl, m.bdc)) return false; m.has_scc = true; }
    if (e4) for (unsigned i = 0; r.more("@more_data"); i++) { r.trunc = false; BOUND(i == 3, "extension data bound"); RU(d, 1, "sps_extension_data_flag"); }
  }
  m.s.e = sx_in_mark();
  return true;
}
#define SPS_FIELDS(X) X(sps_video_parameter_set_id) X(sps_max_sub_layers_minus1) X(sps_temporal_id_nesting_flag) X(sps_seq_parameter_set_id) \
  X(chroma_format_idc) X(separate_colour_plane_flag) X(pic_width_in_luma_samples) X(pic_height_in_luma_samples) X(conformance_window_flag) \
  X(conf_win_left_offset) X(conf_win_right_offset) X(conf_win_top_offset) X(conf_win_bottom_offset) X(bit_depth_luma_minus8) X(bit_depth_chroma_minus8) \
  X(log2_max_pic_order_cnt_lsb_minus4) X(sps_sub_layer_ordering_info_present_flag) X(log2_min_luma_coding_block_size_minus3) \
  X(log2_diff_max_min_luma_coding_block_size) X(log2_min_luma_transform_block_size_minus2) X(log2_diff_max_min_luma_transform_block_size) \
  X(max_transform_hierarchy_depth_inter) X(max_transform_hierarchy_depth_intra) X(scaling_list_enabled_flag) X(sps_scaling_list_data_present_flag) \
  X(amp_enabled_flag) X(sample_adaptive_offset_enabled_flag) X(pcm_enabled_flag) X(pcm_sample_bit_depth_luma_minus1) X(pcm_sample_bit_depth_chroma_minus1) \
  X(log2_min_pcm_luma_coding_block_size_minus3) X(log2_diff_max_min_pcm_luma_coding_block_size) X(pcm_loop_filter_disabled_flag) \
  X(num_short_term_ref_pic_sets) X(long_term_ref_pics_present_flag) X(num_long_term_ref_pics_sps) X(sps_temporal_mvp_enabled_flag) \
  X(strong_intra_smoothing_enabled_flag) X(vui_parameters_present_flag) X(sps_extension_present_flag) X(sps_range_extension_flag) \
  X(sps_multilayer_extension_flag) X(sps_3d_extension_flag) X(sps_scc_extension_flag) X(sps_extension_4bits)
static void cmp_sps(const h265nal::H265SpsParser::SpsState& p, const SpsM& m) {
  const Seg& s = m.s;
  h265nal::ParsingOptions po; po.add_resolution = true;
  DUMPF(p.fdump(sx_file(), ind, po));
  // a number of set counters also appears inside each set's dump
#define X(f) CMP(p.f, s, #f, 0);
  SPS_FIELDS(X)
#undef X
  { unsigned n = CNT(s, "sps_extension_data_flag"); sx_check(p.sps_extension_data_flag == (n ? VAL(s, "sps_extension_data_flag", n - 1) : 0), "sps_extension_data_flag"); }
  CMPV(p.sps_max_dec_pic_buffering_minus1, s, "sps_max_dec_pic_buffering_minus1");
  CMPV(p.sps_max_num_reorder_pics, s, "sps_max_num_reorder_pics");
  CMPV(p.sps_max_latency_increase_plus1, s, "sps_max_latency_increase_plus1");
  CMPV(p.lt_ref_pic_poc_lsb_sps, s, "lt_ref_pic_poc_lsb_sps");
  CMPV(p.used_by_curr_pic_lt_sps_flag, s, "used_by_curr_pic_lt_sps_flag");
  if (g_dump) {
    // resolution shown on request
    uint64_t sw = sx_ite(m.cfi == 1 || m.cfi == 2, 2, 1), sh = sx_ite(m.cfi == 1, 2, 1);
    sx_check(sx_dump_count("width") == 1 && sx_dump_count("height") == 1, "dump resolution");
    if (sx_dump_count("width") && sx_dump_count("height")) {
      sx_check((uint32_t)sx_dump_val("width", 0) == (uint32_t)m.w - (uint32_t)sw * ((uint32_t)m.cl + (uint32_t)m.cr), "dump width");
      sx_check((uint32_t)sx_dump_val("height", 0) == (uint32_t)m.h - (uint32_t)sh * ((uint32_t)m.ct + (uint32_t)m.cb), "dump height");
    }
  }
  sx_check(p.profile_tier_level != nullptr, "sps.profile_tier_level");
  if (p.profile_tier_level) cmp_ptl(*p.profile_tier_level, m.ptl);
#define SUB(ptr, has, cmp, mm) do { sx_check((ptr != nullptr) == (has), #ptr " present"); if ((has) && ptr) cmp(*ptr, mm); } while (0)
  SUB(p.scaling_list_data, m.has_sl, cmp_sl, m.sl);
  SUB(p.vui_parameters, m.has_vui, cmp_vui, m.vui);
  SUB(p.sps_range_extension, m.has_range, cmp_sps_range, m.range);
  SUB(p.sps_multilayer_extension, m.has_ml, cmp_sps_ml, m.ml);
  SUB(p.sps_3d_extension, m.has_3d, cmp_sps_3d, m.d3);
  SUB(p.sps_scc_extension, m.has_scc, cmp_sps_scc, m.scc);
  sx_check(p.st_ref_pic_set.size() == (size_t)m.nrps, "st_ref_pic_set.size");
  for (int i = 0; i < m.nrps && i < (int)p.st_ref_pic_set.size(); i++) {
    sx_check(p.st_ref_pic_set[i] != nullptr, "st_ref_pic_set");
    if (p.st_ref_pic_set[i]) cmp_rps(*p.st_ref_pic_set[i], m.rps[i], i, m.nrps);
  }
}
