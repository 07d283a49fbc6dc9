#pragma once
// 7.3.3 profile_tier_level()
#include "stream.h"
#include "h265_profile_tier_level_parser.h"

struct PiM { Seg s; uint64_t idc, space; uint32_t compat; };
struct PtlM { Seg s; bool profilePresent; unsigned maxSub; PiM general; int nsub; PiM sub[8]; bool subprof[8], sublev[8]; };

static bool ref_profile_info(Ref& r, PiM& m) {
  m.s.b = sx_in_mark();
  RU(space, 2, "profile_space");
  RU(tier, 1, "tier_flag");
  RU(idc, 5, "profile_idc");
  uint32_t c = 0;
  for (int i = 0; i < 32; i++) { RU(f, 1, "profile_compatibility_flag"); c |= (uint32_t)f << i; }
  RU(a, 1, "progressive_source_flag");
  RU(b, 1, "interlaced_source_flag");
  RU(d, 1, "non_packed_constraint_flag");
  RU(e, 1, "frame_only_constraint_flag");
  m.idc = idc; m.space = space; m.compat = c;
  uint32_t set = c | (uint32_t)(1u << idc);
  if (set & 0xff0) {  // 4..11
    RU(f1, 1, "max_12bit_constraint_flag");
    RU(f2, 1, "max_10bit_constraint_flag");
    RU(f3, 1, "max_8bit_constraint_flag");
    RU(f4, 1, "max_422chroma_constraint_flag");
    RU(f5, 1, "max_420chroma_constraint_flag");
    RU(f6, 1, "max_monochrome_constraint_flag");
    RU(f7, 1, "intra_constraint_flag");
    RU(f8, 1, "one_picture_only_constraint_flag");
    RU(f9, 1, "lower_bit_rate_constraint_flag");
    if (set & ((1u << 5) | (1u << 9) | (1u << 10) | (1u << 11))) {
      RU(g1, 1, "max_14bit_constraint_flag");
      RU(g2, 33, "reserved_zero_33bits");
    } else {
      RU(g2, 34, "reserved_zero_34bits");
    }
  } else if (set & (1u << 2)) {
    RU(h1, 7, "reserved_zero_7bits");
    RU(h2, 1, "one_picture_only_constraint_flag");
    RU(h3, 35, "reserved_zero_35bits");
  } else {
    RU(h3, 43, "reserved_zero_43bits");
  }
  if (set & ((1u << 1) | (1u << 2) | (1u << 3) | (1u << 4) | (1u << 5) | (1u << 9) | (1u << 11))) {
    RU(i1, 1, "inbld_flag");
  } else {
    RU(i1, 1, "reserved_zero_bit");
  }
  m.s.e = sx_in_mark();
  return true;
}
static bool ref_ptl(Ref& r, PtlM& m, bool profilePresent, unsigned maxSub) {
  m.s.b = sx_in_mark();
  m.profilePresent = profilePresent; m.maxSub = maxSub; m.nsub = 0;
  if (profilePresent && !ref_profile_info(r, m.general)) return false;
  RU(lvl, 8, "general_level_idc");
  for (unsigned i = 0; i < maxSub; i++) {
    RU(p, 1, "sub_layer_profile_present_flag"); m.subprof[i] = p != 0;
    RU(l, 1, "sub_layer_level_present_flag"); m.sublev[i] = l != 0;
  }
  if (maxSub > 0) for (unsigned i = maxSub; i < 8; i++) { RU(z, 2, "reserved_zero_2bits"); }
  for (unsigned i = 0; i < maxSub; i++) {
    if (m.subprof[i]) { if (!ref_profile_info(r, m.sub[m.nsub])) return false; m.nsub++; }
    if (m.sublev[i]) { RU(l, 8, "sub_layer_level_idc"); }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_profile_info(const h265nal::H265ProfileInfoParser::ProfileInfoState& p, const PiM& m) {
  DUMP(p);
  const Seg& s = m.s;
  CMP(p.profile_space, s, "profile_space", 0);
  CMP(p.tier_flag, s, "tier_flag", 0);
  CMP(p.profile_idc, s, "profile_idc", 0);
  CMPV(p.profile_compatibility_flag, s, "profile_compatibility_flag");
  CMP(p.progressive_source_flag, s, "progressive_source_flag", 0);
  CMP(p.interlaced_source_flag, s, "interlaced_source_flag", 0);
  CMP(p.non_packed_constraint_flag, s, "non_packed_constraint_flag", 0);
  CMP(p.frame_only_constraint_flag, s, "frame_only_constraint_flag", 0);
  CMP(p.max_12bit_constraint_flag, s, "max_12bit_constraint_flag", 0);
  CMP(p.max_10bit_constraint_flag, s, "max_10bit_constraint_flag", 0);
  CMP(p.max_8bit_constraint_flag, s, "max_8bit_constraint_flag", 0);
  CMP(p.max_422chroma_constraint_flag, s, "max_422chroma_constraint_flag", 0);
  CMP(p.max_420chroma_constraint_flag, s, "max_420chroma_constraint_flag", 0);
  CMP(p.max_monochrome_constraint_flag, s, "max_monochrome_constraint_flag", 0);
  CMP(p.intra_constraint_flag, s, "intra_constraint_flag", 0);
  CMP(p.one_picture_only_constraint_flag, s, "one_picture_only_constraint_flag", 0);
  CMP(p.lower_bit_rate_constraint_flag, s, "lower_bit_rate_constraint_flag", 0);
  CMP(p.max_14bit_constraint_flag, s, "max_14bit_constraint_flag", 0);
  CMP(p.reserved_zero_33bits, s, "reserved_zero_33bits", 0);
  CMP(p.reserved_zero_34bits, s, "reserved_zero_34bits", 0);
  CMP(p.reserved_zero_7bits, s, "reserved_zero_7bits", 0);
  CMP(p.reserved_zero_35bits, s, "reserved_zero_35bits", 0);
  CMP(p.reserved_zero_43bits, s, "reserved_zero_43bits", 0);
  CMP(p.inbld_flag, s, "inbld_flag", 0);
  CMP(p.reserved_zero_bit, s, "reserved_zero_bit", 0);
}
static void cmp_ptl(const h265nal::H265ProfileTierLevelParser::ProfileTierLevelState& p, const PtlM& m) {
  DUMP(p);
  CMP(p.general_level_idc, m.s, "general_level_idc", 0);
  CMPV(p.sub_layer_profile_present_flag, m.s, "sub_layer_profile_present_flag");
  CMPV(p.sub_layer_level_present_flag, m.s, "sub_layer_level_present_flag");
  CMPV(p.reserved_zero_2bits, m.s, "reserved_zero_2bits");
  CMPV(p.sub_layer_level_idc, m.s, "sub_layer_level_idc");
  sx_check((p.general != nullptr) == m.profilePresent, "ptl.general present");
  if (m.profilePresent && p.general) cmp_profile_info(*p.general, m.general);
  sx_check(p.sub_layer.size() == (size_t)m.nsub, "ptl.sub_layer.size");
  for (int i = 0; i < m.nsub && i < (int)p.sub_layer.size(); i++) {
    sx_check(p.sub_layer[i] != nullptr, "ptl.sub_layer");
    if (p.sub_layer[i]) cmp_profile_info(*p.sub_layer[i], m.sub[i]);
  }
}
