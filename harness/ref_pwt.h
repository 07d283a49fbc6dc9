#pragma once
// 7.3.6.3 pred_weight_table()
#include "ref_hrd.h"
#include "h265_pred_weight_table_parser.h"
struct PwtM { Seg s; uint64_t cat; unsigned n0, n1; bool b; Arr<64> cw[2], co[2]; };
static bool ref_pwt_list(Ref& r, PwtM& m, unsigned n, int l) {
  static const char* const N[2][6] = {
    {"luma_weight_l0_flag", "chroma_weight_l0_flag", "delta_luma_weight_l0", "luma_offset_l0", "delta_chroma_weight_l0", "delta_chroma_offset_l0"},
    {"luma_weight_l1_flag", "chroma_weight_l1_flag", "delta_luma_weight_l1", "luma_offset_l1", "delta_chroma_weight_l1", "delta_chroma_offset_l1"}};
  uint64_t lf[16], cf[16];
  for (unsigned i = 0; i < n; i++) { RU(f, 1, N[l][0]); lf[i] = f; cf[i] = 0; }
  if (m.cat != 0) for (unsigned i = 0; i < n; i++) { RU(f, 1, N[l][1]); cf[i] = f; }
  for (unsigned i = 0; i < n; i++) {
    if (lf[i]) { RSE(w, N[l][2]); RSE(o, N[l][3]); }
    if (cf[i]) for (int j = 0; j < 2; j++) { RSE(w, N[l][4]); m.cw[l].push((uint64_t)(int64_t)w); RSE(o, N[l][5]); m.co[l].push((uint64_t)(int64_t)o); }
  }
  return true;
}
static bool ref_pwt(Ref& r, PwtM& m, uint64_t cat, unsigned n0minus1, bool bslice, unsigned n1minus1) {
  m.s.b = sx_in_mark(); m.cat = cat; m.n0 = n0minus1 + 1; m.n1 = bslice ? n1minus1 + 1 : 0; m.b = bslice;
  for (int l = 0; l < 2; l++) m.cw[l].n = m.co[l].n = 0;
  if (m.n0 > 16 || m.n1 > 16) sx_prune("pwt bound");
  RUE(ld, "luma_log2_weight_denom");
  if (cat != 0) { RSE(cd, "delta_chroma_log2_weight_denom"); }
  if (!ref_pwt_list(r, m, m.n0, 0)) return false;
  if (bslice && !ref_pwt_list(r, m, m.n1, 1)) return false;
  m.s.e = sx_in_mark();
  return true;
}
template <class VV> static void cmp_chroma(const VV& vv, const Arr<64>& a, const char* name) {
  sx_check(vv.size() * 2 == (size_t)a.n, name);
  for (int i = 0; i < a.n / 2 && i < (int)vv.size(); i++) {
    sx_check(vv[i].size() == 2, name);
    for (int j = 0; j < 2 && j < (int)vv[i].size(); j++) sx_check((uint64_t)(int64_t)vv[i][j] == a.v[2 * i + j], name);
  }
  if (g_dump && a.n) {
    sx_check(sx_dump_count(name) == (unsigned)a.n, name);
    for (int i = 0; i < a.n && i < (int)sx_dump_count(name); i++) sx_check(sx_dump_val(name, i) == (uint32_t)a.v[i], name);
  }
}
static void cmp_pwt(const h265nal::H265PredWeightTableParser::PredWeightTableState& p, const PwtM& m) {
  DUMP(p);
  const Seg& s = m.s;
  CMP(p.luma_log2_weight_denom, s, "luma_log2_weight_denom", 0);
  CMPSE(p.delta_chroma_log2_weight_denom, s, "delta_chroma_log2_weight_denom", 0);
  CMPV(p.luma_weight_l0_flag, s, "luma_weight_l0_flag");
  CMPV(p.chroma_weight_l0_flag, s, "chroma_weight_l0_flag");
  CMPVSE(p.delta_luma_weight_l0, s, "delta_luma_weight_l0");
  CMPVSE(p.luma_offset_l0, s, "luma_offset_l0");
  cmp_chroma(p.delta_chroma_weight_l0, m.cw[0], "delta_chroma_weight_l0");
  cmp_chroma(p.delta_chroma_offset_l0, m.co[0], "delta_chroma_offset_l0");
  CMPV(p.luma_weight_l1_flag, s, "luma_weight_l1_flag");
  CMPV(p.chroma_weight_l1_flag, s, "chroma_weight_l1_flag");
  CMPVSE(p.delta_luma_weight_l1, s, "delta_luma_weight_l1");
  CMPVSE(p.luma_offset_l1, s, "luma_offset_l1");
  cmp_chroma(p.delta_chroma_weight_l1, m.cw[1], "delta_chroma_weight_l1");
  cmp_chroma(p.delta_chroma_offset_l1, m.co[1], "delta_chroma_offset_l1");
}
