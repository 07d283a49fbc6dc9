#pragma once
// 7.3.2.3 pic_parameter_set_rbsp()
#include "ref_sl.h"
#include "ref_ext.h"
#include "h265_pps_parser.h"
struct PpsM { Seg s; SlM sl; bool has_sl; PpsMlM ml; PpsSccM scc; bool has_ml, has_scc; };
static bool ref_pps(Ref& r, PpsM& m) {
  m.s.b = sx_in_mark(); m.has_sl = m.has_ml = m.has_scc = false;
  RUE(pid, "pps_pic_parameter_set_id");
  RUE(sid, "pps_seq_parameter_set_id");
  RU(a1, 1, "dependent_slice_segments_enabled_flag");
  RU(a2, 1, "output_flag_present_flag");
  RU(a3, 3, "num_extra_slice_header_bits");
  RU(a4, 1, "sign_data_hiding_enabled_flag");
  RU(a5, 1, "cabac_init_present_flag");
  RUE(a6, "num_ref_idx_l0_default_active_minus1");
  RUE(a7, "num_ref_idx_l1_default_active_minus1");
  RSE(a8, "init_qp_minus26");
  RU(a9, 1, "constrained_intra_pred_flag");
  RU(b1, 1, "transform_skip_enabled_flag");
  RU(b2, 1, "cu_qp_delta_enabled_flag");
  if (b2) { RUE(d, "diff_cu_qp_delta_depth"); }
  RSE(b3, "pps_cb_qp_offset");
  RSE(b4, "pps_cr_qp_offset");
  RU(b5, 1, "pps_slice_chroma_qp_offsets_present_flag");
  RU(b6, 1, "weighted_pred_flag");
  RU(b7, 1, "weighted_bipred_flag");
  RU(b8, 1, "transquant_bypass_enabled_flag");
  RU(tiles, 1, "tiles_enabled_flag");
  RU(sync, 1, "entropy_coding_sync_enabled_flag");
  if (tiles) {
    RUE(c, "num_tile_columns_minus1");
    RUE(rw, "num_tile_rows_minus1");
    RU(u, 1, "uniform_spacing_flag");
    if (!u) {
      BOUND(c > lim(4) || rw > lim(4), "tile count bound");
      unsigned nc = (unsigned)sx_concretize(c), nr = (unsigned)sx_concretize(rw);
      for (unsigned i = 0; i < nc; i++) { RUE(x, "column_width_minus1"); }
      for (unsigned i = 0; i < nr; i++) { RUE(x, "row_height_minus1"); }
    }
    RU(l, 1, "loop_filter_across_tiles_enabled_flag");
  }
  RU(c1, 1, "pps_loop_filter_across_slices_enabled_flag");
  RU(dc, 1, "deblocking_filter_control_present_flag");
  if (dc) {
    RU(o, 1, "deblocking_filter_override_enabled_flag");
    RU(d, 1, "pps_deblocking_filter_disabled_flag");
    if (!d) { RSE(be, "pps_beta_offset_div2"); RSE(tc, "pps_tc_offset_div2"); }
  }
  RU(sl, 1, "pps_scaling_list_data_present_flag");
  if (sl) { if (!ref_sl(r, m.sl)) return false; m.has_sl = true; }
  RU(d1, 1, "lists_modification_present_flag");
  RUE(d2, "log2_parallel_merge_level_minus2");
  RU(d3, 1, "slice_segment_header_extension_present_flag");
  RU(ext, 1, "pps_extension_present_flag");
  if (ext) {
    RU(er, 1, "pps_range_extension_flag");
    RU(em, 1, "pps_multilayer_extension_flag");
    RU(e3, 1, "pps_3d_extension_flag");
    RU(es, 1, "pps_scc_extension_flag");
    RU(e4, 4, "pps_extension_4bits");
    UNSUP(er, "pps_range_extension()");
    if (em) { if (!ref_pps_ml(r, m.ml)) return false; m.has_ml = true; }
    UNSUP(e3, "pps_3d_extension()");
    if (es) { if (!ref_pps_scc(r, m.scc)) return false; m.has_scc = true; }
    if (e4) for (unsigned i = 0; r.more("@more_data"); i++) { r.trunc = false; BOUND(i == 3, "extension data bound"); RU(d, 1, "pps_extension_data_flag"); }
  }
  m.s.e = sx_in_mark();
  return true;
}
#define PPS_FIELDS(X) X(pps_pic_parameter_set_id) X(pps_seq_parameter_set_id) X(dependent_slice_segments_enabled_flag) X(output_flag_present_flag) \
  X(num_extra_slice_header_bits) X(sign_data_hiding_enabled_flag) X(cabac_init_present_flag) X(num_ref_idx_l0_default_active_minus1) \
  X(num_ref_idx_l1_default_active_minus1) X(constrained_intra_pred_flag) X(transform_skip_enabled_flag) X(cu_qp_delta_enabled_flag) \
  X(diff_cu_qp_delta_depth) X(pps_slice_chroma_qp_offsets_present_flag) X(weighted_pred_flag) X(weighted_bipred_flag) X(transquant_bypass_enabled_flag) \
  X(tiles_enabled_flag) X(entropy_coding_sync_enabled_flag) X(num_tile_columns_minus1) X(num_tile_rows_minus1) \
  X(pps_loop_filter_across_slices_enabled_flag) X(deblocking_filter_control_present_flag) X(deblocking_filter_override_enabled_flag) \
  X(pps_deblocking_filter_disabled_flag) X(pps_scaling_list_data_present_flag) X(lists_modification_present_flag) X(log2_parallel_merge_level_minus2) \
  X(slice_segment_header_extension_present_flag) X(pps_extension_present_flag) X(pps_range_extension_flag) X(pps_multilayer_extension_flag) \
  X(pps_3d_extension_flag) X(pps_scc_extension_flag) X(pps_extension_4bits)
static void cmp_pps(const h265nal::H265PpsParser::PpsState& p, const PpsM& m) {
  const Seg& s = m.s;
#ifndef SUB
#define SUB(ptr, has, cmp, mm) do { sx_check((ptr != nullptr) == (has), #ptr " present"); if ((has) && ptr) cmp(*ptr, mm); } while (0)
#endif
  DUMP(p);
#define X(f) CMP(p.f, s, #f, 0);
  PPS_FIELDS(X)
#undef X
  CMP(p.uniform_spacing_flag, s, "uniform_spacing_flag", 1);
  CMP(p.loop_filter_across_tiles_enabled_flag, s, "loop_filter_across_tiles_enabled_flag", 1);
  CMPSE(p.init_qp_minus26, s, "init_qp_minus26", 0);
  CMPSE(p.pps_cb_qp_offset, s, "pps_cb_qp_offset", 0);
  CMPSE(p.pps_cr_qp_offset, s, "pps_cr_qp_offset", 0);
  CMPSE(p.pps_beta_offset_div2, s, "pps_beta_offset_div2", 0);
  CMPSE(p.pps_tc_offset_div2, s, "pps_tc_offset_div2", 0);
  CMPV(p.column_width_minus1, s, "column_width_minus1");
  CMPV(p.row_height_minus1, s, "row_height_minus1");
  { unsigned n = CNT(s, "pps_extension_data_flag"); sx_check(p.pps_extension_data_flag == (n ? VAL(s, "pps_extension_data_flag", n - 1) : 0), "pps_extension_data_flag"); }
  SUB(p.scaling_list_data, m.has_sl, cmp_sl, m.sl);
  SUB(p.pps_multilayer_extension, m.has_ml, cmp_pps_ml, m.ml);
  SUB(p.pps_scc_extension, m.has_scc, cmp_pps_scc, m.scc);
}
