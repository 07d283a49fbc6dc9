#pragma once
// 7.3.2.2.2, 7.3.2.2.3, F.7.3.2.2.4, I.7.3.2.2.5 (SPS extensions) and
// 7.3.2.3.3, F.7.3.2.3.4 (PPS extensions)
#include "ref_hrd.h"
#include "h265_sps_range_extension_parser.h"
#include "h265_sps_multilayer_extension_parser.h"
#include "h265_sps_3d_extension_parser.h"
#include "h265_sps_scc_extension_parser.h"
#include "h265_pps_multilayer_extension_parser.h"
#include "h265_pps_scc_extension_parser.h"

#define SPS_RANGE(X) X(transform_skip_rotation_enabled_flag) X(transform_skip_context_enabled_flag) \
  X(implicit_rdpcm_enabled_flag) X(explicit_rdpcm_enabled_flag) X(extended_precision_processing_flag) \
  X(intra_smoothing_disabled_flag) X(high_precision_offsets_enabled_flag) \
  X(persistent_rice_adaptation_enabled_flag) X(cabac_bypass_alignment_enabled_flag)
struct SpsRangeM { Seg s; };
static bool ref_sps_range(Ref& r, SpsRangeM& m) {
  m.s.b = sx_in_mark();
#define X(f) { RU(v, 1, #f); }
  SPS_RANGE(X)
#undef X
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_sps_range(const h265nal::H265SpsRangeExtensionParser::SpsRangeExtensionState& p, const SpsRangeM& m) {
  DUMP(p);
#define X(f) CMP(p.f, m.s, #f, 0);
  SPS_RANGE(X)
#undef X
}
struct SpsMlM { Seg s; };
static bool ref_sps_ml(Ref& r, SpsMlM& m) {
  m.s.b = sx_in_mark();
  RU(v, 1, "inter_view_mv_vert_constraint_flag");
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_sps_ml(const h265nal::H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState& p, const SpsMlM& m) {
  DUMP(p);
  CMP(p.inter_view_mv_vert_constraint_flag, m.s, "inter_view_mv_vert_constraint_flag", 0);
}
struct Sps3dM { Seg s; };
static bool ref_sps_3d(Ref& r, Sps3dM& m) {
  m.s.b = sx_in_mark();
  for (int d = 0; d <= 1; d++) {
    { RU(v, 1, "iv_di_mc_enabled_flag"); }
    { RU(v, 1, "iv_mv_scal_enabled_flag"); }
    if (d == 0) {
      RUE(a, "log2_ivmc_sub_pb_size_minus3");
      RU(b, 1, "iv_res_pred_enabled_flag");
      RU(c, 1, "depth_ref_enabled_flag");
      RU(e, 1, "vsp_mc_enabled_flag");
      RU(f, 1, "dbbp_enabled_flag");
    } else {
      RU(a, 1, "tex_mc_enabled_flag");
      RUE(b, "log2_texmc_sub_pb_size_minus3");
      RU(c, 1, "intra_contour_enabled_flag");
      RU(e, 1, "intra_dc_only_wedge_enabled_flag");
      RU(f, 1, "cqt_cu_part_pred_enabled_flag");
      RU(g, 1, "inter_dc_only_enabled_flag");
      RU(h, 1, "skip_intra_enabled_flag");
    }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_sps_3d(const h265nal::H265Sps3dExtensionParser::Sps3dExtensionState& p, const Sps3dM& m) {
  DUMP(p);
  CMPV(p.iv_di_mc_enabled_flag, m.s, "iv_di_mc_enabled_flag");
  CMPV(p.iv_mv_scal_enabled_flag, m.s, "iv_mv_scal_enabled_flag");
#define X(f) CMP(p.f, m.s, #f, 0);
  X(log2_ivmc_sub_pb_size_minus3) X(iv_res_pred_enabled_flag) X(depth_ref_enabled_flag) X(vsp_mc_enabled_flag) X(dbbp_enabled_flag)
  X(tex_mc_enabled_flag) X(log2_texmc_sub_pb_size_minus3) X(intra_contour_enabled_flag) X(intra_dc_only_wedge_enabled_flag)
  X(cqt_cu_part_pred_enabled_flag) X(inter_dc_only_enabled_flag) X(skip_intra_enabled_flag)
#undef X
}
const int kPal = 128;  // palette predictor entries per component
static inline int palMax() { return sx_param("pal") > 0 ? (int)sx_param("pal") : 8; }
struct PalM { int comps; int n; uint64_t v[3][kPal]; };
template <class VV> static void cmp_pal(const VV& vv, const PalM& m, const char* name) {
  sx_check(vv.size() == (size_t)m.comps, name);
  unsigned k = 0;
  for (int c = 0; c < m.comps && c < (int)vv.size(); c++) {
    sx_check(vv[c].size() == (size_t)m.n, name);
    for (int i = 0; i < m.n && i < (int)vv[c].size(); i++, k++) {
      sx_check(vv[c][i] == m.v[c][i], name);
      if (g_dump) sx_check(sx_dump_val(name, k) == (uint32_t)m.v[c][i], name);
    }
  }
  if (g_dump && m.comps) sx_check(sx_dump_count(name) == k, name);
}
struct SpsSccM { Seg s; PalM pal; };
static bool ref_sps_scc(Ref& r, SpsSccM& m, uint64_t cfi, uint64_t bdl, uint64_t bdc) {
  m.s.b = sx_in_mark(); m.pal.comps = 0; m.pal.n = 0;
  RU(a, 1, "sps_curr_pic_ref_enabled_flag");
  RU(pm, 1, "palette_mode_enabled_flag");
  if (pm) {
    RUE(pms, "palette_max_size"); REJ(pms > 64);
    RUE(dp, "delta_palette_max_predictor_size"); REJ(dp > 128);
    RU(ip, 1, "sps_palette_predictor_initializers_present_flag");
    if (ip) {
      RUE(n, "sps_num_palette_predictor_initializers_minus1"); REJH(n > 127);
      REJH(bdl > 8 || bdc > 8 || cfi > 3);
      m.pal.comps = cfi == 0 ? 1 : 3;
      m.pal.n = (int)sx_concretize(n) + 1;
      BOUND(m.pal.n > palMax(), "palette entries bound");
      for (int c = 0; c < m.pal.comps; c++) for (int i = 0; i < m.pal.n; i++) {
        RU(v, (unsigned)sx_concretize((c == 0 ? bdl : bdc) + 8), "sps_palette_predictor_initializers"); m.pal.v[c][i] = v;
      }
    }
  }
  RU(mv, 2, "motion_vector_resolution_control_idc");
  RU(ib, 1, "intra_boundary_filtering_disabled_flag");
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_sps_scc(const h265nal::H265SpsSccExtensionParser::SpsSccExtensionState& p, const SpsSccM& m) {
  DUMP(p);
#define X(f) CMP(p.f, m.s, #f, 0);
  X(sps_curr_pic_ref_enabled_flag) X(palette_mode_enabled_flag) X(palette_max_size) X(delta_palette_max_predictor_size)
  X(sps_palette_predictor_initializers_present_flag) X(sps_num_palette_predictor_initializers_minus1)
  X(motion_vector_resolution_control_idc) X(intra_boundary_filtering_disabled_flag)
#undef X
  cmp_pal(p.sps_palette_predictor_initializers, m.pal, "sps_palette_predictor_initializers");
}
struct PpsMlM { Seg s; };
static bool ref_pps_ml(Ref& r, PpsMlM& m) {
  m.s.b = sx_in_mark();
  RU(a, 1, "poc_reset_info_present_flag");
  RU(inf, 1, "pps_infer_scaling_list_flag");
  if (inf) { RU(b, 6, "pps_scaling_list_ref_layer_id"); }
  RUE(n, "num_ref_loc_offsets");
  BOUND(n > lim(3), "num_ref_loc_offsets bound");
  unsigned cnt = (unsigned)sx_concretize(n);
  for (unsigned i = 0; i < cnt; i++) {
    RU(id, 6, "ref_loc_offset_layer_id");
    RU(so, 1, "scaled_ref_layer_offset_present_flag");
    if (so) { RSE(l, "scaled_ref_layer_left_offset"); RSE(t, "scaled_ref_layer_top_offset"); RSE(ri, "scaled_ref_layer_right_offset"); RSE(b, "scaled_ref_layer_bottom_offset"); }
    RU(ro, 1, "ref_region_offset_present_flag");
    if (ro) { RSE(l, "ref_region_left_offset"); RSE(t, "ref_region_top_offset"); RSE(ri, "ref_region_right_offset"); RSE(b, "ref_region_bottom_offset"); }
    RU(rp, 1, "resample_phase_set_present_flag");
    if (rp) { RUE(l, "phase_hor_luma"); RUE(t, "phase_ver_luma"); RUE(ri, "phase_hor_chroma_plus8"); RUE(b, "phase_ver_chroma_plus8"); }
  }
  RU(cm, 1, "colour_mapping_enabled_flag");
  UNSUP(cm, "colour_mapping_table()");
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_pps_ml(const h265nal::H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState& p, const PpsMlM& m) {
  DUMP(p);
#define X(f) CMP(p.f, m.s, #f, 0);
  X(poc_reset_info_present_flag) X(pps_infer_scaling_list_flag) X(pps_scaling_list_ref_layer_id) X(num_ref_loc_offsets) X(colour_mapping_enabled_flag)
#undef X
#define X(f) CMPV(p.f, m.s, #f);
  X(ref_loc_offset_layer_id) X(scaled_ref_layer_offset_present_flag) X(ref_region_offset_present_flag) X(resample_phase_set_present_flag)
#undef X
#define X(f) CMPVSE(p.f, m.s, #f);
  X(scaled_ref_layer_left_offset) X(scaled_ref_layer_top_offset) X(scaled_ref_layer_right_offset) X(scaled_ref_layer_bottom_offset)
  X(ref_region_left_offset) X(ref_region_top_offset) X(ref_region_right_offset) X(ref_region_bottom_offset)
  X(phase_hor_luma) X(phase_ver_luma) X(phase_hor_chroma_plus8) X(phase_ver_chroma_plus8)
#undef X
}
struct PpsSccM { Seg s; PalM pal; };
static bool ref_pps_scc(Ref& r, PpsSccM& m) {
  m.s.b = sx_in_mark(); m.pal.comps = 0; m.pal.n = 0;
  RU(a, 1, "pps_curr_pic_ref_enabled_flag");
  RU(ra, 1, "residual_adaptive_colour_transform_enabled_flag");
  if (ra) {
    RU(b, 1, "pps_slice_act_qp_offsets_present_flag");
    RSE(y, "pps_act_y_qp_offset_plus5"); RSE(cb, "pps_act_cb_qp_offset_plus5"); RSE(cr, "pps_act_cr_qp_offset_plus3");
  }
  RU(pp, 1, "pps_palette_predictor_initializer_present_flag");
  if (pp) {
    RUE(n, "pps_num_palette_predictor_initializer");
    if (n > 0) {
      RU(mono, 1, "monochrome_palette_flag");
      RUE(bl, "luma_bit_depth_entry_minus8");
      uint32_t bc = 0;
      if (!mono) { RUE(c, "chroma_bit_depth_entry_minus8"); bc = c; }
      // depths beyond 16 bits are not valid content and not constrained here
      if (bl > 8 || bc > 8) sx_prune("palette bit depth above 16");
      m.pal.comps = mono ? 1 : 3;
      BOUND(n > (unsigned)palMax(), "palette entries bound");
      m.pal.n = (int)sx_concretize(n);
      for (int c = 0; c < m.pal.comps; c++) for (int i = 0; i < m.pal.n; i++) {
        RU(v, (unsigned)sx_concretize((c == 0 ? bl : bc) + 8), "pps_palette_predictor_initializers"); m.pal.v[c][i] = v;
      }
    }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_pps_scc(const h265nal::H265PpsSccExtensionParser::PpsSccExtensionState& p, const PpsSccM& m) {
  DUMP(p);
#define X(f) CMP(p.f, m.s, #f, 0);
  X(pps_curr_pic_ref_enabled_flag) X(residual_adaptive_colour_transform_enabled_flag) X(pps_slice_act_qp_offsets_present_flag)
  X(pps_palette_predictor_initializer_present_flag) X(pps_num_palette_predictor_initializer) X(monochrome_palette_flag)
  X(luma_bit_depth_entry_minus8) X(chroma_bit_depth_entry_minus8)
#undef X
  CMPSE(p.pps_act_y_qp_offset_plus5, m.s, "pps_act_y_qp_offset_plus5", 0);
  CMPSE(p.pps_act_cb_qp_offset_plus5, m.s, "pps_act_cb_qp_offset_plus5", 0);
  CMPSE(p.pps_act_cr_qp_offset_plus3, m.s, "pps_act_cr_qp_offset_plus3", 0);
  cmp_pal(p.pps_palette_predictor_initializers, m.pal, "pps_palette_predictor_initializers");
}
