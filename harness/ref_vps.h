#pragma once
// 7.3.2.1 video_parameter_set_rbsp()
#include "ref_ptl.h"
#include "ref_hrd.h"
#include "h265_vps_parser.h"
struct VpsM { Seg s; PtlM ptl; HrdM hrd; bool has_hrd; Arr<16> cprms; int sets; unsigned layers; uint64_t inc[1100]; };
static bool ref_vps(Ref& r, VpsM& m) {
  m.s.b = sx_in_mark(); m.has_hrd = false; m.cprms.n = 0; m.sets = 0; m.layers = 0;
  RU(a1, 4, "vps_video_parameter_set_id");
  RU(a2, 1, "vps_base_layer_internal_flag");
  RU(a3, 1, "vps_base_layer_available_flag");
  RU(a4, 6, "vps_max_layers_minus1");
  RU(ms, 3, "vps_max_sub_layers_minus1");
  unsigned maxsub = (unsigned)sx_concretize(ms);
  RU(a5, 1, "vps_temporal_id_nesting_flag");
  RU(a6, 16, "vps_reserved_0xffff_16bits");
  if (!ref_ptl(r, m.ptl, true, maxsub)) return false;
  RU(oi, 1, "vps_sub_layer_ordering_info_present_flag");
  for (unsigned i = oi ? 0 : maxsub; i <= maxsub; i++) {
    RUE(a, "vps_max_dec_pic_buffering_minus1");
    RUE(b, "vps_max_num_reorder_pics");
    RUE(c, "vps_max_latency_increase_plus1");
  }
  RU(ml, 6, "vps_max_layer_id"); REJH(ml > 62);
  RUE(ls, "vps_num_layer_sets_minus1"); REJH(ls > 1023);
  m.sets = (int)sx_concretize(ls);
  if (m.sets) m.layers = (unsigned)sx_concretize(ml) + 1;
  BOUND((unsigned)m.sets * m.layers > 1100, "layer set bound");
  for (int i = 1; i <= m.sets; i++) for (unsigned j = 0; j < m.layers; j++) { RU(f, 1, "layer_id_included_flag"); m.inc[(unsigned)(i - 1) * m.layers + j] = f; }
  RU(ti, 1, "vps_timing_info_present_flag");
  if (ti) {
    RU(a, 32, "vps_num_units_in_tick");
    RU(b, 32, "vps_time_scale");
    RU(c, 1, "vps_poc_proportional_to_timing_flag");
    if (c) { RUE(d, "vps_num_ticks_poc_diff_one_minus1"); }
    RUE(nh, "vps_num_hrd_parameters"); REJH(nh > (unsigned)m.sets + 1);
    unsigned n = (unsigned)sx_concretize(nh);
    for (unsigned i = 0; i < n; i++) {
      RUE(hi, "hrd_layer_set_idx");
      bool cp = true;
      if (i > 0) { RU(c2, 1, "cprms_present_flag"); cp = c2 != 0; }
      m.cprms.push(cp);
      if (!ref_hrd(r, m.hrd, cp, maxsub)) return false;
      m.has_hrd = true;
    }
  }
  RU(ext, 1, "vps_extension_flag");
  if (ext) for (unsigned i = 0; r.more("@more_data"); i++) { r.trunc = false; BOUND(i == 3, "extension data bound"); RU(d, 1, "vps_extension_data_flag"); }
  m.s.e = sx_in_mark();
  return true;
}
#define VPS_FIELDS(X) X(vps_video_parameter_set_id) X(vps_base_layer_internal_flag) X(vps_base_layer_available_flag) X(vps_max_layers_minus1) \
  X(vps_max_sub_layers_minus1) X(vps_temporal_id_nesting_flag) X(vps_reserved_0xffff_16bits) X(vps_sub_layer_ordering_info_present_flag) \
  X(vps_max_layer_id) X(vps_num_layer_sets_minus1) X(vps_timing_info_present_flag) X(vps_num_units_in_tick) X(vps_time_scale) \
  X(vps_poc_proportional_to_timing_flag) X(vps_num_ticks_poc_diff_one_minus1) X(vps_num_hrd_parameters) X(vps_extension_flag)
static void cmp_vps(const h265nal::H265VpsParser::VpsState& p, const VpsM& m) {
  const Seg& s = m.s;
  DUMP(p);
#define X(f) CMP(p.f, s, #f, 0);
  VPS_FIELDS(X)
#undef X
  { unsigned n = CNT(s, "vps_extension_data_flag"); sx_check(p.vps_extension_data_flag == (n ? VAL(s, "vps_extension_data_flag", n - 1) : 0), "vps_extension_data_flag"); }
  CMPV(p.vps_max_dec_pic_buffering_minus1, s, "vps_max_dec_pic_buffering_minus1");
  CMPV(p.vps_max_num_reorder_pics, s, "vps_max_num_reorder_pics");
  CMPV(p.vps_max_latency_increase_plus1, s, "vps_max_latency_increase_plus1");
  CMPV(p.hrd_layer_set_idx, s, "hrd_layer_set_idx");
  CMPARR(p.cprms_present_flag, m.cprms, "cprms_present_flag");
  sx_check(p.layer_id_included_flag.size() == (size_t)m.sets, "layer_id_included_flag.size");
  unsigned k = 0;
  for (int i = 0; i < m.sets && i < (int)p.layer_id_included_flag.size(); i++) {
    sx_check(p.layer_id_included_flag[i].size() == m.layers, "layer_id_included_flag[].size");
    for (unsigned j = 0; j < m.layers && j < p.layer_id_included_flag[i].size(); j++, k++) {
      sx_check(p.layer_id_included_flag[i][j] == m.inc[(unsigned)i * m.layers + j], "layer_id_included_flag");
      if (g_dump) sx_check(sx_dump_val("layer_id_included_flag", k) == m.inc[(unsigned)i * m.layers + j], "dump layer_id_included_flag");
    }
  }
  sx_check(p.profile_tier_level != nullptr, "vps.profile_tier_level");
  if (p.profile_tier_level) cmp_ptl(*p.profile_tier_level, m.ptl);
  // the decoder keeps the last hrd_parameters() structure
  sx_check((p.hrd_parameters != nullptr) == m.has_hrd, "vps.hrd_parameters present");
  if (m.has_hrd && p.hrd_parameters) cmp_hrd(*p.hrd_parameters, m.hrd);
}
