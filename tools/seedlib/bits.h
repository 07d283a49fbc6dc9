// Demonstration helper: builds bit strings and NAL payloads.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
struct Bits {
  std::vector<bool> b;
  Bits& u(unsigned n, uint64_t v) { for (unsigned i = n; i-- > 0;) b.push_back(i < 64 ? (v >> i) & 1 : 0); return *this; }
  Bits& ue(uint64_t v) { uint64_t x = v + 1; unsigned l = 64 - __builtin_clzll(x); u(l - 1, 0); return u(l, x); }
  Bits& se(int64_t v) { return ue(v > 0 ? 2 * v - 1 : -2 * v); }
  Bits& trail() { b.push_back(1); while (b.size() % 8) b.push_back(0); return *this; }
  std::vector<uint8_t> bytes() const { std::vector<uint8_t> r((b.size() + 7) / 8, 0); for (size_t i = 0; i < b.size(); i++) if (b[i]) r[i / 8] |= 0x80 >> (i % 8); return r; }
};
// profile_tier_level( 1, 0 ), Main profile
static inline void ptl_main(Bits& w) { w.u(2, 0).u(1, 0).u(5, 1).u(32, 0x60000000).u(4, 0).u(43, 0).u(1, 0).u(8, 93); }
static inline std::vector<uint8_t> escape(const std::vector<uint8_t>& in) {
  std::vector<uint8_t> o; int z = 0;
  for (uint8_t c : in) { if (z >= 2 && c <= 3) { o.push_back(3); z = 0; } o.push_back(c); z = c ? 0 : z + 1; }
  return o;
}
static inline int expect(bool ok, const char* what) { if (!ok) { fprintf(stderr, "FAILED: %s\n", what); exit(1); } return 0; }
#define EXPECT(c) expect((c) ? true : false, #c)
// An SPS up to (not including) the POC length; Main profile, one sub-layer
static inline void sps_head(Bits& w, unsigned id, unsigned chroma, unsigned width, unsigned height) {
  w.u(4, 0).u(3, 0).u(1, 1); ptl_main(w); w.ue(id).ue(chroma); if (chroma == 3) w.u(1, 0); w.ue(width).ue(height);
}
// A whole small SPS (64 x 64 unless told otherwise)
static inline Bits sps_simple(unsigned id, unsigned width = 64, unsigned height = 64) {
  Bits w; sps_head(w, id, 1, width, height);
  w.u(1, 0).ue(0).ue(0).ue(4).u(1, 1).ue(4).ue(0).ue(0).ue(0).ue(1).ue(0).ue(3).ue(0).ue(0);
  w.u(1, 0).u(1, 0).u(1, 0).u(1, 0).ue(0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0); return w.trail();
}
// A whole small PPS
static inline Bits pps_simple(unsigned id, unsigned sps, int init_qp = 0) {
  Bits w; w.ue(id).ue(sps).u(1, 0).u(1, 0).u(3, 0).u(1, 0).u(1, 0).ue(0).ue(0).se(init_qp).u(1, 0).u(1, 0).u(1, 0).se(0).se(0);
  w.u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).ue(0).u(1, 0).u(1, 0); return w.trail();
}
// NAL unit (header and escaped payload)
static inline std::vector<uint8_t> nal(unsigned type, const std::vector<uint8_t>& rbsp) {
  std::vector<uint8_t> r = {(uint8_t)(type << 1), 1}; auto e = escape(rbsp); r.insert(r.end(), e.begin(), e.end()); return r;
}
static inline void cat(std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { a.insert(a.end(), b.begin(), b.end()); }
