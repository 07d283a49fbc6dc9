#pragma once
// 7.3.6.1 slice_segment_header(), for given active parameter sets
#include "ref_rps.h"
#include "ref_pwt.h"
#include "h265_slice_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_sps_parser.h"
#include "h265_pps_parser.h"
struct SliceM {
  Seg s; unsigned nut;
  bool found, dep, isP, isB, nonIdr;
  RpsM rps[66]; bool has_rps; PwtM pwt; bool has_pwt;
  uint64_t cat, l0, l1;
};
// symbolic parameter sets: the fields slice_segment_header() depends on
struct ParamSets {
  std::shared_ptr<h265nal::H265SpsParser::SpsState> sps;
  std::shared_ptr<h265nal::H265PpsParser::PpsState> pps;
};
#define PSF(o, f, n) o->f = (uint32_t)sx_elem(n, #o "." #f)
// param "wild": also values a PPS parser lets through although the standard does not
static ParamSets make_ps() {
  ParamSets q;
  const bool wild = sx_param("wild") == 1;
  auto sps = std::make_shared<h265nal::H265SpsParser::SpsState>();
  auto pps = std::make_shared<h265nal::H265PpsParser::PpsState>();
  PSF(sps, chroma_format_idc, 2);
  PSF(sps, separate_colour_plane_flag, 1);
  sx_assume(sps->chroma_format_idc == 3 || sps->separate_colour_plane_flag == 0);
  PSF(sps, log2_min_luma_coding_block_size_minus3, 2);
  PSF(sps, log2_diff_max_min_luma_coding_block_size, 2);
  PSF(sps, pic_width_in_luma_samples, 15);
  PSF(sps, pic_height_in_luma_samples, 15);
  sx_assume(sps->pic_width_in_luma_samples >= 1 && sps->pic_width_in_luma_samples <= 16888);
  sx_assume(sps->pic_height_in_luma_samples >= 1 && sps->pic_height_in_luma_samples <= 16888);
  PSF(sps, log2_max_pic_order_cnt_lsb_minus4, 4);
  sx_assume(sps->log2_max_pic_order_cnt_lsb_minus4 <= 12);
  PSF(sps, long_term_ref_pics_present_flag, 1);
  PSF(sps, num_long_term_ref_pics_sps, 6);
  sx_assume(sps->num_long_term_ref_pics_sps <= 32);
  PSF(sps, sps_temporal_mvp_enabled_flag, 1);
  PSF(sps, sample_adaptive_offset_enabled_flag, 1);
  PSF(sps, sps_scc_extension_flag, 1);
  if (sps->sps_scc_extension_flag) {
    sps->sps_scc_extension = std::make_unique<h265nal::H265SpsSccExtensionParser::SpsSccExtensionState>();
    sps->sps_scc_extension->motion_vector_resolution_control_idc = (uint32_t)sx_elem(2, "sps.motion_vector_resolution_control_idc");
  }
  PSF(pps, dependent_slice_segments_enabled_flag, 1);
  PSF(pps, num_extra_slice_header_bits, 3);
  PSF(pps, output_flag_present_flag, 1);
  PSF(pps, lists_modification_present_flag, 1);
  PSF(pps, cabac_init_present_flag, 1);
  PSF(pps, weighted_pred_flag, 1);
  PSF(pps, weighted_bipred_flag, 1);
  PSF(pps, num_ref_idx_l0_default_active_minus1, wild ? 32 : 4);
  PSF(pps, num_ref_idx_l1_default_active_minus1, wild ? 32 : 4);
  PSF(pps, pps_slice_chroma_qp_offsets_present_flag, 1);
  PSF(pps, deblocking_filter_override_enabled_flag, 1);
  PSF(pps, pps_deblocking_filter_disabled_flag, 1);
  pps->pps_beta_offset_div2 = (int32_t)(uint32_t)sx_elem(32, "pps.pps_beta_offset_div2");
  pps->pps_tc_offset_div2 = (int32_t)(uint32_t)sx_elem(32, "pps.pps_tc_offset_div2");
  PSF(pps, pps_loop_filter_across_slices_enabled_flag, 1);
  PSF(pps, tiles_enabled_flag, 1);
  PSF(pps, entropy_coding_sync_enabled_flag, 1);
  PSF(pps, num_tile_columns_minus1, wild ? 32 : 5);
  PSF(pps, num_tile_rows_minus1, wild ? 32 : 5);
  PSF(pps, slice_segment_header_extension_present_flag, 1);
  PSF(pps, pps_scc_extension_flag, 1);
  if (pps->pps_scc_extension_flag) {
    pps->pps_scc_extension = std::make_unique<h265nal::H265PpsSccExtensionParser::PpsSccExtensionState>();
    pps->pps_scc_extension->pps_slice_act_qp_offsets_present_flag = (uint32_t)sx_elem(1, "pps.pps_slice_act_qp_offsets_present_flag");
  }
  q.sps = sps; q.pps = pps;
  return q;
}
static unsigned ceil_log2(uint64_t v) {  // v >= 1
  uint64_t l = 0;
  for (int k = 0; k < 26; k++) l = sx_ite(v > (1ull << k), k + 1, l);
  return (unsigned)sx_concretize(l);
}
static bool ref_slice(Ref& r, SliceM& m, unsigned nut, const ParamSets& q, const std::map<uint32_t, uint32_t>& pps2sps, unsigned num_rps) {
  const auto& S = *q.sps; const auto& P = *q.pps;
  m.s.b = sx_in_mark(); m.nut = nut; m.has_rps = m.has_pwt = m.dep = m.isP = m.isB = m.nonIdr = false; m.l0 = m.l1 = 0; m.cat = 0;
  RU(first, 1, "first_slice_segment_in_pic_flag");
  if (nut >= 16 && nut <= 23) { RU(a, 1, "no_output_of_prior_pics_flag"); }
  RUE(pid, "slice_pic_parameter_set_id");
  bool found = false;
  for (auto& e : pps2sps) if (pid == e.first) { found = e.second == 1; break; }
  REJ(!found);
  uint64_t lc = S.log2_min_luma_coding_block_size_minus3 + 3 + S.log2_diff_max_min_luma_coding_block_size;
  uint64_t ctb = 1ull << lc;
  uint64_t wc = (S.pic_width_in_luma_samples + ctb - 1) >> lc, hc = (S.pic_height_in_luma_samples + ctb - 1) >> lc;
  if (!first) {
    if (P.dependent_slice_segments_enabled_flag) { RU(d, 1, "dependent_slice_segment_flag"); m.dep = d != 0; }
    unsigned len = ceil_log2((uint32_t)(wc * hc));
    REJ(len == 0);  // a one-CTB picture has no second slice segment
    RU(a, len, "slice_segment_address");
  }
  if (!m.dep) {
    unsigned ex = (unsigned)sx_concretize(P.num_extra_slice_header_bits);
    for (unsigned i = 0; i < ex; i++) { RU(f, 1, "slice_reserved_flag"); }
    RUE(type, "slice_type");
    m.isB = type == 0; m.isP = type == 1;
    if (P.output_flag_present_flag) { RU(o, 1, "pic_output_flag"); }
    if (S.separate_colour_plane_flag) { RU(c, 2, "colour_plane_id"); }
    bool mvp = false;
    m.nonIdr = nut != 19 && nut != 20;
    if (m.nonIdr) {
      unsigned pl = (unsigned)sx_concretize(S.log2_max_pic_order_cnt_lsb_minus4) + 4;
      RU(poc, pl, "slice_pic_order_cnt_lsb");
      RU(sf, 1, "short_term_ref_pic_set_sps_flag");
      if (!sf) { if (!ref_rps(r, m.rps, num_rps, num_rps, 15)) return false; m.has_rps = true; }
      else if (num_rps > 1) { RU(ix, ceil_log2(num_rps), "short_term_ref_pic_set_idx"); }
      if (S.long_term_ref_pics_present_flag) {
        uint64_t ns = 0;
        if (S.num_long_term_ref_pics_sps > 0) { RUE(n1, "num_long_term_sps"); ns = n1; }
        RUE(np, "num_long_term_pics");
        BOUND(ns > lim(2) || np > lim(2), "long-term picture count bound");
        unsigned a = (unsigned)sx_concretize(ns), b = (unsigned)sx_concretize(np);
        unsigned il = 0;
        if (a && S.num_long_term_ref_pics_sps > 1) il = ceil_log2(S.num_long_term_ref_pics_sps);
        for (unsigned i = 0; i < a + b; i++) {
          if (i < a) { if (il) { RU(x, il, "lt_idx_sps"); } }
          else { RU(x, pl, "poc_lsb_lt"); RU(y, 1, "used_by_curr_pic_lt_flag"); }
          RU(mp, 1, "delta_poc_msb_present_flag");
          if (mp) { RUE(cy, "delta_poc_msb_cycle_lt"); }
        }
      }
      if (S.sps_temporal_mvp_enabled_flag) { RU(t, 1, "slice_temporal_mvp_enabled_flag"); mvp = t != 0; }
    }
    m.cat = sx_ite(S.separate_colour_plane_flag != 0, 0, S.chroma_format_idc);
    uint64_t saoL = 0, saoC = 0;
    if (S.sample_adaptive_offset_enabled_flag) {
      RU(l, 1, "slice_sao_luma_flag"); saoL = l;
      if (m.cat != 0) { RU(c, 1, "slice_sao_chroma_flag"); saoC = c; }
    }
    if (m.isP || m.isB) {
      RU(ov, 1, "num_ref_idx_active_override_flag");
      m.l0 = P.num_ref_idx_l0_default_active_minus1;
      if (m.isB) m.l1 = P.num_ref_idx_l1_default_active_minus1;
      if (ov) {
        RUE(a, "num_ref_idx_l0_active_minus1"); m.l0 = a;
        if (m.isB) { RUE(b, "num_ref_idx_l1_active_minus1"); m.l1 = b; }
      }
      UNSUP(P.lists_modification_present_flag, "ref_pic_lists_modification()");
      if (m.isB) { RU(z, 1, "mvd_l1_zero_flag"); }
      if (P.cabac_init_present_flag) { RU(c, 1, "cabac_init_flag"); }
      if (mvp) {
        uint64_t from0 = 1;
        if (m.isB) { RU(f0, 1, "collocated_from_l0_flag"); from0 = f0; }
        if (from0 ? m.l0 > 0 : m.l1 > 0) { RUE(ci, "collocated_ref_idx"); }
      }
      if (m.isP ? P.weighted_pred_flag : P.weighted_bipred_flag) {
        BOUND(m.l0 > lim(2) || m.l1 > lim(2), "weighted reference count bound");
        unsigned n0 = (unsigned)sx_concretize(m.l0), n1 = m.isB ? (unsigned)sx_concretize(m.l1) : 0;
        if (!ref_pwt(r, m.pwt, m.cat, n0, m.isB, n1)) return false;
        m.has_pwt = true;
      }
      RUE(mm, "five_minus_max_num_merge_cand");
      if (S.sps_scc_extension_flag && S.sps_scc_extension->motion_vector_resolution_control_idc == 2) { RU(im, 1, "use_integer_mv_flag"); }
    }
    RSE(qd, "slice_qp_delta");
    if (P.pps_slice_chroma_qp_offsets_present_flag) { RSE(a, "slice_cb_qp_offset"); RSE(b, "slice_cr_qp_offset"); }
    if (P.pps_scc_extension_flag && P.pps_scc_extension->pps_slice_act_qp_offsets_present_flag) {
      RSE(a, "slice_act_y_qp_offset"); RSE(b, "slice_act_cb_qp_offset"); RSE(c, "slice_act_cr_qp_offset");
    }
    bool dov = false;
    if (P.deblocking_filter_override_enabled_flag) { RU(o, 1, "deblocking_filter_override_flag"); dov = o != 0; }
    uint64_t ddis = P.pps_deblocking_filter_disabled_flag;
    if (dov) {
      RU(d, 1, "slice_deblocking_filter_disabled_flag"); ddis = d;
      if (!d) { RSE(a, "slice_beta_offset_div2"); RSE(b, "slice_tc_offset_div2"); }
    }
    if (P.pps_loop_filter_across_slices_enabled_flag && (saoL || saoC || !ddis)) { RU(x, 1, "slice_loop_filter_across_slices_enabled_flag"); }
  }
  if (P.tiles_enabled_flag || P.entropy_coding_sync_enabled_flag) {
    RUE(n, "num_entry_point_offsets");
    uint64_t cols = P.num_tile_columns_minus1 + 1, rows = P.num_tile_rows_minus1 + 1;
    uint64_t most = !P.tiles_enabled_flag ? hc - 1 : (!P.entropy_coding_sync_enabled_flag ? cols * rows - 1 : cols * hc - 1);
    REJ(n > most); REJH(n > most && n > lim(4));
    if (n > 0) {
      RUE(ol, "offset_len_minus1"); REJH(ol > 31);
      BOUND(n > lim(4), "entry point count bound");
      unsigned c = (unsigned)sx_concretize(n), bl = (unsigned)sx_concretize(ol) + 1;
      for (unsigned i = 0; i < c; i++) { RU(x, bl, "entry_point_offset_minus1"); }
    }
  }
  if (P.slice_segment_header_extension_present_flag) {
    RUE(el, "slice_segment_header_extension_length");
    BOUND(el > lim(3), "slice header extension length bound");
    unsigned c = (unsigned)sx_concretize(el);
    for (unsigned i = 0; i < c; i++) { RU(x, 8, "slice_segment_header_extension_data_byte"); }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_slice(const h265nal::H265SliceSegmentHeaderParser::SliceSegmentHeaderState& p, const SliceM& m, const ParamSets& q, unsigned num_rps) {
  const Seg& s = m.s;
  const auto& P = *q.pps;
  DUMP(p);
  sx_check(p.nal_unit_type == m.nut, "nal_unit_type");
#define X(f) CMP(p.f, s, #f, 0);
  X(first_slice_segment_in_pic_flag) X(no_output_of_prior_pics_flag) X(slice_pic_parameter_set_id) X(dependent_slice_segment_flag)
  X(slice_segment_address) X(slice_type) X(colour_plane_id) X(slice_pic_order_cnt_lsb) X(short_term_ref_pic_set_sps_flag)
  X(short_term_ref_pic_set_idx) X(num_long_term_sps) X(num_long_term_pics) X(slice_temporal_mvp_enabled_flag)
  X(slice_sao_luma_flag) X(slice_sao_chroma_flag) X(num_ref_idx_active_override_flag) X(mvd_l1_zero_flag)
  X(cabac_init_flag) X(collocated_ref_idx) X(five_minus_max_num_merge_cand) X(use_integer_mv_flag)
  X(num_entry_point_offsets) X(offset_len_minus1) X(slice_segment_header_extension_length) X(deblocking_filter_override_flag)
#undef X
#define X(f) CMPSE(p.f, s, #f, 0);
  X(slice_qp_delta) X(slice_cb_qp_offset) X(slice_cr_qp_offset) X(slice_act_y_qp_offset) X(slice_act_cb_qp_offset) X(slice_act_cr_qp_offset)
#undef X
  if (m.isP || m.isB) { CMP(p.num_ref_idx_l0_active_minus1, s, "num_ref_idx_l0_active_minus1", m.l0); CMP(p.collocated_from_l0_flag, s, "collocated_from_l0_flag", 1); }
  if (m.isB) CMP(p.num_ref_idx_l1_active_minus1, s, "num_ref_idx_l1_active_minus1", m.l1);
  if (!m.dep) {
    CMP(p.pic_output_flag, s, "pic_output_flag", 1);
    CMP(p.slice_deblocking_filter_disabled_flag, s, "slice_deblocking_filter_disabled_flag", P.pps_deblocking_filter_disabled_flag);
    CMPSE(p.slice_beta_offset_div2, s, "slice_beta_offset_div2", P.pps_beta_offset_div2);
    CMPSE(p.slice_tc_offset_div2, s, "slice_tc_offset_div2", P.pps_tc_offset_div2);
    CMP(p.slice_loop_filter_across_slices_enabled_flag, s, "slice_loop_filter_across_slices_enabled_flag", P.pps_loop_filter_across_slices_enabled_flag);
  }
#define X(f) CMPV(p.f, s, #f);
  X(slice_reserved_flag) X(lt_idx_sps) X(poc_lsb_lt) X(used_by_curr_pic_lt_flag) X(delta_poc_msb_present_flag) X(delta_poc_msb_cycle_lt)
  X(entry_point_offset_minus1) X(slice_segment_header_extension_data_byte)
#undef X
  sx_check((p.st_ref_pic_set != nullptr) == m.has_rps, "slice st_ref_pic_set present");
  if (m.has_rps && p.st_ref_pic_set) cmp_rps(*p.st_ref_pic_set, m.rps[num_rps], num_rps, num_rps);
  sx_check((p.pred_weight_table != nullptr) == m.has_pwt, "slice pred_weight_table present");
  if (m.has_pwt && p.pred_weight_table) cmp_pwt(*p.pred_weight_table, m.pwt);
}
