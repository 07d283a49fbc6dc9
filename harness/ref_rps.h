#pragma once
// 7.3.7 st_ref_pic_set(), 7.4.8 derivation (7-61, 7-62)
#include "ref_hrd.h"
#include "h265_st_ref_pic_set_parser.h"
const int kMaxRps = 18;
struct RpsM {
  Seg s; bool inter;
  int nneg, npos;
  int32_t d0[kMaxRps], d1[kMaxRps]; uint64_t u0[kMaxRps], u1[kMaxRps];
  Arr<kMaxRps> use;  // use_delta_flag including inferred ones
};
// (values beyond the range may wrap: they are refused)
static inline int32_t wadd(int32_t a, int32_t b) { return (int32_t)((uint32_t)a + (uint32_t)b); }
static bool ref_rps(Ref& r, RpsM* set, unsigned idx, unsigned num, uint64_t max_pics) {
  RpsM& m = set[idx];
  m.s.b = sx_in_mark(); m.inter = false; m.nneg = m.npos = 0; m.use.n = 0;
  // param "plain": the sets of the SPS are all explicit
  if (idx != 0) { RU(f, 1, "inter_ref_pic_set_prediction_flag"); if (sx_param("plain") == 1 && idx != num) sx_assume(f == 0); m.inter = f != 0; }
  if (m.inter) {
    unsigned di = 0;
    if (idx == num) { RUE(d, "delta_idx_minus1"); REJH(d > idx - 1); di = (unsigned)sx_concretize(d); }
    RU(sign, 1, "delta_rps_sign");
    RUE(absd, "abs_delta_rps_minus1"); REJ(absd > 32767);
    int32_t delta = (int32_t)(sign ? 0u - (absd + 1) : absd + 1);  // (7-60)
    RpsM& q = set[idx - (di + 1)];
    int nd = q.nneg + q.npos;
    REJH(nd >= 16);
    uint64_t used[kMaxRps];
    for (int j = 0; j <= nd; j++) {
      RU(u, 1, "used_by_curr_pic_flag"); used[j] = u;
      if (!u) { RU(d, 1, "use_delta_flag"); m.use.push(d); } else m.use.push(1);
    }
    // (7-61)
    int i = 0;
    for (int j = q.npos - 1; j >= 0; j--) { int32_t d = wadd(q.d1[j], delta); if (d < 0 && m.use.v[q.nneg + j]) { m.d0[i] = d; m.u0[i++] = used[q.nneg + j]; } }
    if (delta < 0 && m.use.v[nd]) { m.d0[i] = delta; m.u0[i++] = used[nd]; }
    for (int j = 0; j < q.nneg; j++) { int32_t d = wadd(q.d0[j], delta); if (d < 0 && m.use.v[j]) { m.d0[i] = d; m.u0[i++] = used[j]; } }
    m.nneg = i;
    // (7-62)
    i = 0;
    for (int j = q.nneg - 1; j >= 0; j--) { int32_t d = wadd(q.d0[j], delta); if (d > 0 && m.use.v[j]) { m.d1[i] = d; m.u1[i++] = used[j]; } }
    if (delta > 0 && m.use.v[nd]) { m.d1[i] = delta; m.u1[i++] = used[nd]; }
    for (int j = 0; j < q.npos; j++) { int32_t d = wadd(q.d1[j], delta); if (d > 0 && m.use.v[q.nneg + j]) { m.d1[i] = d; m.u1[i++] = used[q.nneg + j]; } }
    m.npos = i;
  } else {
    RUE(nn, "num_negative_pics"); REJH(nn > max_pics);
    RUE(np, "num_positive_pics"); REJH(np > max_pics - nn);
    m.nneg = (int)sx_concretize(nn); m.npos = (int)sx_concretize(np);
    int32_t acc = 0;
    for (int i = 0; i < m.nneg; i++) {
      RUE(d, "delta_poc_s0_minus1"); REJ(d > 32767);
      RU(u, 1, "used_by_curr_pic_s0_flag");
      acc = wadd(acc, (int32_t)(0u - (d + 1))); m.d0[i] = acc; m.u0[i] = u;
    }
    acc = 0;
    for (int i = 0; i < m.npos; i++) {
      RUE(d, "delta_poc_s1_minus1"); REJ(d > 32767);
      RU(u, 1, "used_by_curr_pic_s1_flag");
      acc = wadd(acc, (int32_t)(d + 1)); m.d1[i] = acc; m.u1[i] = u;
    }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_rps(const h265nal::H265StRefPicSetParser::StRefPicSetState& p, const RpsM& m, unsigned idx, unsigned num) {
  DUMP(p);
  const Seg& s = m.s;
  sx_check(p.stRpsIdx == idx, "stRpsIdx");
  sx_check(p.num_short_term_ref_pic_sets == num, "rps.num_short_term_ref_pic_sets");
  CMP(p.inter_ref_pic_set_prediction_flag, s, "inter_ref_pic_set_prediction_flag", 0);
  CMP(p.delta_idx_minus1, s, "delta_idx_minus1", 0);
  CMP(p.delta_rps_sign, s, "delta_rps_sign", 0);
  CMP(p.abs_delta_rps_minus1, s, "abs_delta_rps_minus1", 0);
  CMPV(p.used_by_curr_pic_flag, s, "used_by_curr_pic_flag");
  if (m.inter) CMPARR(p.use_delta_flag, m.use, "use_delta_flag");
  if (!m.inter) {
    CMP(p.num_negative_pics, s, "num_negative_pics", 0);
    CMP(p.num_positive_pics, s, "num_positive_pics", 0);
    CMPV(p.delta_poc_s0_minus1, s, "delta_poc_s0_minus1");
    CMPV(p.used_by_curr_pic_s0_flag, s, "used_by_curr_pic_s0_flag");
    CMPV(p.delta_poc_s1_minus1, s, "delta_poc_s1_minus1");
    CMPV(p.used_by_curr_pic_s1_flag, s, "used_by_curr_pic_s1_flag");
    return;
  }
  sx_check(p.num_negative_pics == (uint32_t)m.nneg, "derived num_negative_pics");
  sx_check(p.num_positive_pics == (uint32_t)m.npos, "derived num_positive_pics");
  sx_check(p.delta_poc_s0_minus1.size() == (size_t)m.nneg && p.used_by_curr_pic_s0_flag.size() == (size_t)m.nneg, "derived s0 size");
  sx_check(p.delta_poc_s1_minus1.size() == (size_t)m.npos && p.used_by_curr_pic_s1_flag.size() == (size_t)m.npos, "derived s1 size");
  for (int i = 0; i < m.nneg && i < (int)p.delta_poc_s0_minus1.size(); i++) {
    sx_check(p.delta_poc_s0_minus1[i] == (uint32_t)((i ? m.d0[i - 1] : 0) - m.d0[i] - 1), "derived delta_poc_s0_minus1");
    sx_check(p.used_by_curr_pic_s0_flag[i] == m.u0[i], "derived used_by_curr_pic_s0_flag");
  }
  for (int i = 0; i < m.npos && i < (int)p.delta_poc_s1_minus1.size(); i++) {
    sx_check(p.delta_poc_s1_minus1[i] == (uint32_t)(m.d1[i] - (i ? m.d1[i - 1] : 0) - 1), "derived delta_poc_s1_minus1");
    sx_check(p.used_by_curr_pic_s1_flag[i] == m.u1[i], "derived used_by_curr_pic_s1_flag");
  }
}
