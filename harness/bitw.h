// A bit string with symbolic bits, and template NAL units.
#pragma once
#include <vector>
#include "sx.h"
struct BitW {
  std::vector<uint8_t> b;
  BitW& u(unsigned n, uint64_t v) { for (unsigned i = n; i-- > 0;) b.push_back((uint8_t)((v >> i) & 1)); return *this; }
  // concrete value
  BitW& ue(uint32_t v) { uint64_t x = (uint64_t)v + 1; unsigned l = 1; while (x >> l) l++; return u(l - 1, 0).u(l, x); }
  // code word with z leading zeros and the given suffix: codeNum = 2^z - 1 + suffix
  BitW& code(unsigned z, uint64_t suffix) { return u(z, 0).u(1, 1).u(z, suffix); }
  BitW& trail() { b.push_back(1); while (b.size() % 8) b.push_back(0); return *this; }
  void to(std::vector<uint8_t>& o) const {
    for (size_t i = 0; i + 8 <= b.size(); i += 8) { unsigned v = 0; for (unsigned k = 0; k < 8; k++) v = v << 1 | b[i + k]; o.push_back((uint8_t)v); }
  }
};
// the bytes of a NAL unit, with emulation prevention where the template has it
static inline void put(std::vector<uint8_t>& o, const BitW& w, bool four) {
  if (four) o.push_back(0);
  o.push_back(0); o.push_back(0); o.push_back(1);
  std::vector<uint8_t> p;
  w.to(p);
  int z = 0;
  for (uint8_t c : p) {
    if (z >= 2 && c <= 3) { o.push_back(3); z = 0; }
    o.push_back(c);
    z = c == 0 ? z + 1 : 0;
  }
}
static inline uint8_t* exact(const std::vector<uint8_t>& v) { uint8_t* d = new uint8_t[v.size()]; for (size_t i = 0; i < v.size(); i++) d[i] = v[i]; return d; }
static inline BitW nalhdr(unsigned type, unsigned layer = 0, unsigned tid1 = 1) { BitW w; w.u(1, 0).u(6, type).u(6, layer).u(3, tid1); return w; }
// 64x64 Main profile SPS with everything optional switched off
// (pocbits: log2_max_pic_order_cnt_lsb_minus4)
static inline BitW nal_sps(unsigned id, unsigned pocbits = 4) {
  BitW w = nalhdr(33);
  w.u(4, 0).u(3, 0).u(1, 1);
  w.u(2, 0).u(1, 0).u(5, 1).u(32, 0x60000000).u(4, 9).u(43, 0x12345678).u(1, 0).u(8, 93);
  w.ue(id).ue(1).ue(64).ue(64).u(1, 0).ue(0).ue(0).ue(pocbits).u(1, 1).ue(1).ue(0).ue(0).ue(0).ue(1).ue(0).ue(0).ue(0).ue(0);
  w.u(1, 0).u(1, 0).u(1, 0).u(1, 0).ue(0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0);
  return w.trail();
}
// z, s: the code word of init_qp_minus26
static inline BitW nal_pps(unsigned id, unsigned sps, unsigned z, uint64_t s) {
  BitW w = nalhdr(34);
  w.ue(id).ue(sps).u(1, 0).u(1, 0).u(3, 0).u(1, 0).u(1, 0).ue(0).ue(0).code(z, s).u(1, 0).u(1, 0).u(1, 0).ue(0).ue(0);
  w.u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).ue(0).u(1, 0).u(1, 0);
  return w.trail();
}
// an IDR slice; z, s: the code word of slice_qp_delta
static inline BitW nal_idr(unsigned pps, unsigned z, uint64_t s) {
  BitW w = nalhdr(20);
  w.u(1, 1).u(1, 0).ue(pps).ue(2).code(z, s);
  return w.trail();
}
static inline BitW nal_vps(unsigned id, unsigned level = 93) {
  BitW w = nalhdr(32);
  w.u(4, id).u(2, 3).u(6, 0).u(3, 0).u(1, 1).u(16, 0xffff);
  w.u(2, 0).u(1, 0).u(5, 1).u(32, 0x60000000).u(4, 9).u(43, 0x12345678).u(1, 0).u(8, level);
  w.u(1, 0).ue(1).ue(0).ue(0).u(6, 0).ue(0).u(1, 0).u(1, 0);
  return w.trail();
}
static inline BitW nal_sei(unsigned type) { BitW w = nalhdr(type); w.u(8, 144).u(8, 4).u(16, 0x1234).u(16, 0x5678); return w.trail(); }
static inline BitW nal_aud(unsigned pic) { BitW w = nalhdr(35); w.u(3, pic); return w.trail(); }
// an I slice segment of any type, with nal_sps(0) and nal_pps(pps); z, s: the code word of slice_qp_delta
static inline BitW nal_slice(unsigned type, unsigned first, uint64_t addr4, uint64_t poc8, unsigned pps, unsigned z, uint64_t s, unsigned pocbits = 4) {
  BitW w = nalhdr(type);
  w.u(1, first);
  if (type >= 16) w.u(1, 0);
  w.ue(pps);
  if (!first) w.u(4, addr4);
  w.ue(2);
  if (type != 19 && type != 20) w.u(pocbits + 4, poc8).u(1, 0).ue(0).ue(0);
  return w.code(z, s).trail();
}
