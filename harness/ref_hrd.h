#pragma once
// E.2.2 hrd_parameters(), E.2.3 sub_layer_hrd_parameters()
#include "stream.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_sub_layer_hrd_parameters_parser.h"

template <int N> struct Arr { uint64_t v[N]; int n; void push(uint64_t x) { if (n >= N) sx_prune("array bound"); v[n++] = x; } };
// every element of an inferred-or-present array
#define CMPARR(vec, arr, name) do { \
    FCHK((vec).size() == (size_t)(arr).n, name ".size"); \
    for (int cmp_i = 0; cmp_i < (arr).n && cmp_i < (int)(vec).size(); cmp_i++) FCHK((uint64_t)(int64_t)(vec)[cmp_i] == (arr).v[cmp_i], name); \
    dump_chk_vec(name, vec, true); } while (0)

struct SubHrdM { Seg s; unsigned layer, cnt; bool du; Arr<40> size_du, rate_du; };
struct HrdM { Seg s; bool common; unsigned maxSub; Arr<8> cvs, elem, low, cpb; int nsub; SubHrdM sub[16]; };

static bool ref_sub_hrd(Ref& r, SubHrdM& m, unsigned layer, unsigned cnt, bool du) {
  m.s.b = sx_in_mark(); m.layer = layer; m.cnt = cnt; m.du = du; m.size_du.n = m.rate_du.n = 0;
  for (unsigned i = 0; i < cnt; i++) {
    RUE(a, "bit_rate_value_minus1");
    RUE(b, "cpb_size_value_minus1");
    if (du) {
      RUE(c, "cpb_size_du_value_minus1"); m.size_du.push(c);
      RUE(d, "bit_rate_du_value_minus1"); m.rate_du.push(d);
    } else { m.size_du.push(0); m.rate_du.push(0); }
    RU(e, 1, "cbr_flag");
  }
  m.s.e = sx_in_mark();
  return true;
}
static bool ref_hrd(Ref& r, HrdM& m, bool common, unsigned maxSub) {
  m.s.b = sx_in_mark(); m.common = common; m.maxSub = maxSub; m.nsub = 0;
  m.cvs.n = m.elem.n = m.low.n = m.cpb.n = 0;
  bool nal = false, vcl = false, sub = false;
  if (common) {
    RU(a, 1, "nal_hrd_parameters_present_flag"); nal = a != 0;
    RU(b, 1, "vcl_hrd_parameters_present_flag"); vcl = b != 0;
    if (nal || vcl) {
      RU(c, 1, "sub_pic_hrd_params_present_flag"); sub = c != 0;
      if (sub) {
        RU(d, 8, "tick_divisor_minus2");
        RU(e, 5, "du_cpb_removal_delay_increment_length_minus1");
        RU(f, 1, "sub_pic_cpb_params_in_pic_timing_sei_flag");
        RU(g, 5, "dpb_output_delay_du_length_minus1");
      }
      RU(h, 4, "bit_rate_scale");
      RU(i, 4, "cpb_size_scale");
      if (sub) { RU(j, 4, "cpb_size_du_scale"); }
      RU(k, 5, "initial_cpb_removal_delay_length_minus1");
      RU(l, 5, "au_cpb_removal_delay_length_minus1");
      RU(o, 5, "dpb_output_delay_length_minus1");
    }
  }
  for (unsigned i = 0; i <= maxSub; i++) {
    RU(gen, 1, "fixed_pic_rate_general_flag");
    bool cvs = true;
    if (!gen) { RU(c, 1, "fixed_pic_rate_within_cvs_flag"); cvs = c != 0; }
    m.cvs.push(cvs);
    bool low = false;
    if (cvs) { RUE(e, "elemental_duration_in_tc_minus1"); m.elem.push(e); }
    else { m.elem.push(0); RU(l, 1, "low_delay_hrd_flag"); low = l != 0; }
    m.low.push(low);
    unsigned cnt = 0;
    if (!low) { RUE(c, "cpb_cnt_minus1"); cnt = c; m.cpb.push(c); } else m.cpb.push(0);
    if (nal) { if (!ref_sub_hrd(r, m.sub[m.nsub], i, cnt + 1, sub)) return false; m.nsub++; }
    if (vcl) { if (!ref_sub_hrd(r, m.sub[m.nsub], i, cnt + 1, sub)) return false; m.nsub++; }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_sub_hrd(const h265nal::H265SubLayerHrdParametersParser::SubLayerHrdParametersState& p, const SubHrdM& m) {
  DUMP(p);
  sx_check(p.subLayerId == m.layer, "subLayerId");
  sx_check(p.CpbCnt == m.cnt, "CpbCnt");
  CMPV(p.bit_rate_value_minus1, m.s, "bit_rate_value_minus1");
  CMPV(p.cpb_size_value_minus1, m.s, "cpb_size_value_minus1");
  CMPARR(p.cpb_size_du_value_minus1, m.size_du, "cpb_size_du_value_minus1");
  CMPARR(p.bit_rate_du_value_minus1, m.rate_du, "bit_rate_du_value_minus1");
  CMPV(p.cbr_flag, m.s, "cbr_flag");
}
static void cmp_hrd(const h265nal::H265HrdParametersParser::HrdParametersState& p, const HrdM& m) {
  DUMP(p);
  sx_check(p.commonInfPresentFlag == (uint32_t)m.common, "commonInfPresentFlag");
  sx_check(p.maxNumSubLayersMinus1 == m.maxSub, "maxNumSubLayersMinus1");
  CMP(p.nal_hrd_parameters_present_flag, m.s, "nal_hrd_parameters_present_flag", 0);
  CMP(p.vcl_hrd_parameters_present_flag, m.s, "vcl_hrd_parameters_present_flag", 0);
  CMP(p.sub_pic_hrd_params_present_flag, m.s, "sub_pic_hrd_params_present_flag", 0);
  CMP(p.tick_divisor_minus2, m.s, "tick_divisor_minus2", 0);
  CMP(p.du_cpb_removal_delay_increment_length_minus1, m.s, "du_cpb_removal_delay_increment_length_minus1", 0);
  CMP(p.sub_pic_cpb_params_in_pic_timing_sei_flag, m.s, "sub_pic_cpb_params_in_pic_timing_sei_flag", 0);
  CMP(p.dpb_output_delay_du_length_minus1, m.s, "dpb_output_delay_du_length_minus1", 0);
  CMP(p.bit_rate_scale, m.s, "bit_rate_scale", 0);
  CMP(p.cpb_size_scale, m.s, "cpb_size_scale", 0);
  CMP(p.cpb_size_du_scale, m.s, "cpb_size_du_scale", 0);
  CMP(p.initial_cpb_removal_delay_length_minus1, m.s, "initial_cpb_removal_delay_length_minus1", 0);
  CMP(p.au_cpb_removal_delay_length_minus1, m.s, "au_cpb_removal_delay_length_minus1", 0);
  CMP(p.dpb_output_delay_length_minus1, m.s, "dpb_output_delay_length_minus1", 0);
  CMPV(p.fixed_pic_rate_general_flag, m.s, "fixed_pic_rate_general_flag");
  CMPARR(p.fixed_pic_rate_within_cvs_flag, m.cvs, "fixed_pic_rate_within_cvs_flag");
  CMPARR(p.elemental_duration_in_tc_minus1, m.elem, "elemental_duration_in_tc_minus1");
  CMPARR(p.low_delay_hrd_flag, m.low, "low_delay_hrd_flag");
  CMPARR(p.cpb_cnt_minus1, m.cpb, "cpb_cnt_minus1");
  sx_check(p.sub_layer_hrd_parameters_vector.size() == (size_t)m.nsub, "sub_layer_hrd_parameters.size");
  for (int i = 0; i < m.nsub && i < (int)p.sub_layer_hrd_parameters_vector.size(); i++) {
    sx_check(p.sub_layer_hrd_parameters_vector[i] != nullptr, "sub_layer_hrd_parameters");
    if (p.sub_layer_hrd_parameters_vector[i]) cmp_sub_hrd(*p.sub_layer_hrd_parameters_vector[i], m.sub[i]);
  }
}
