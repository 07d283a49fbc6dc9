// Replacement of the BitBuffer read API for symbolic execution of the syntax
// parsers: serves the elements of st::S bit-exactly.  The contract used here
// (MSB-first reads, exp-Golomb codes, failure at the end of data without
// consuming) is what properties P01/P02 establish for the real BitBuffer.
#include "stream.h"
#include <cassert>
#include "h265_common.h"

using st::S;
namespace st {
alignas(16) static uint8_t g_bbmem[sizeof(h265nal::BitBuffer)];
static uint8_t g_dummy[8];
static bool g_trail;
h265nal::BitBuffer* open(bool with_trailing) {
  S.pos = 0; S.bit = 0; S.trailing = 0; S.over = false;
  g_trail = with_trailing && !S.eof;
  if (sx_param("effort") == 1) sx_effort((uint64_t)S.n, 128);
  return new (g_bbmem) h265nal::BitBuffer(g_dummy, 0);
}
const uint8_t* bytes(size_t* len) { *len = 0; return g_dummy; }
bool at_end() { return S.pos >= S.n && S.bit == 0 && !S.over; }

// bits left in the current exp-Golomb atom are handled by turning the atom
// into plain bits (forking on the code length), so that mixed-kind reads are
// exact as well.
static void to_bits(int i) {
  Atom& a = S.a[i];
  if (a.kind == K_BITS) return;
  uint32_t v = code_num(a);
  uint64_t x = (uint64_t)v + 1;
  unsigned l = 1;
  while (l < 32 && (x >> l) != 0) l++;
  a.kind = K_BITS; a.n = (uint8_t)(2 * l - 1); a.v = x;
}
// another element on demand, unless the data ends here
static bool more_free(int kind, unsigned n) {
  if (!S.free) return false;
  if (S.zero) { if (S.left <= 0) sx_prune("stream length bound"); }
  else if (S.left <= 0 || sx_choose(2, "free_eof")) { S.free = false; S.eof = true; g_trail = false; return false; }
  S.left--;
  sx_effort_more(1);
  if (S.n >= kMaxAtoms) sx_prune("stream length bound");
  static char nm[16];
  const char* name = kind == K_UE ? "free_ue" : "free_se";
  if (kind == K_BITS) { char* q = nm; for (const char* c = "free_b"; *c; c++) *q++ = *c; if (n >= 10) *q++ = (char)('0' + n / 10); *q++ = (char)('0' + n % 10); *q = 0; name = nm; }
  uint64_t v = sx_elem(kind == K_BITS ? n : 32, name);
  if (kind == K_UE) sx_assume((uint32_t)v != 0xffffffffu);
  if (kind == K_SE) sx_assume((uint32_t)v != 0x80000000u);
  if (S.zero) sx_assume(v == 0);
  Atom& a = S.a[S.n++];
  a.kind = (uint8_t)kind; a.n = (uint8_t)n; a.v = v;
  return true;
}
static bool get(unsigned n, uint64_t* out, int* pos, unsigned* bit) {
  uint64_t v = 0;
  int p = *pos; unsigned b = *bit;
  unsigned left = n;
  while (left > 0) {
    if (p >= S.n && !more_free(K_BITS, left)) { return false; }
    if (S.a[p].kind != K_BITS) to_bits(p);
    Atom& a = S.a[p];
    unsigned have = a.n - b;
    unsigned t = left < have ? left : have;
    uint64_t part = a.v >> (have - t);
    if (t < 64) part &= ((1ull << t) - 1);
    v = t >= 64 ? part : ((v << t) | part);
    left -= t; b += t;
    if (b == a.n) { p++; b = 0; }
  }
  *out = v; *pos = p; *bit = b;
  return true;
}
static bool peek(size_t n, size_t lim, uint64_t* v, bool consume) {
  assert(n > 0);
  if (n > lim) return false;
  n = (size_t)sx_concretize(n);
  int p = S.pos; unsigned b = S.bit;
  if (!get((unsigned)n, v, &p, &b)) { if (consume) S.over = true; return false; }
  if (consume) { S.pos = p; S.bit = b; }
  return true;
}
static bool ue(uint32_t* v) {
  if (S.pos >= S.n && !more_free(K_UE, 0)) { S.over = true; return false; }
  Atom& a = S.a[S.pos];
  if (a.kind != K_BITS && S.bit == 0) { *v = code_num(a); S.pos++; return true; }
  int p = S.pos; unsigned b = S.bit;
  unsigned z = 0;
  uint64_t t = 0;
  for (;;) {
    if (!get(1, &t, &p, &b)) { S.over = true; return false; }
    if (t) break;
    z++;
  }
  if (z + 1 > 32) return false;
  uint64_t x = 0;
  if (z && !get(z, &x, &p, &b)) { S.over = true; return false; }
  *v = (uint32_t)(((1ull << z) | x) - 1);
  S.pos = p; S.bit = b;
  return true;
}
}  // namespace st

namespace h265nal {
bool BitBuffer::ReadBits(size_t n, uint32_t& val) { uint64_t v; if (!st::peek(n, 32, &v, true)) return false; val = (uint32_t)v; return true; }
bool BitBuffer::ReadBits(size_t n, uint64_t& val) { uint64_t v; if (!st::peek(n, 64, &v, true)) return false; val = v; return true; }
bool BitBuffer::PeekBits(size_t n, uint32_t& val) { uint64_t v; if (!st::peek(n, 32, &v, false)) return false; val = (uint32_t)v; return true; }
bool BitBuffer::PeekBits(size_t n, uint64_t& val) { uint64_t v; if (!st::peek(n, 64, &v, false)) return false; val = v; return true; }
bool BitBuffer::ReadUInt8(uint8_t& val) { uint64_t v; if (!st::peek(8, 32, &v, true)) return false; val = (uint8_t)v; return true; }
bool BitBuffer::ReadUInt16(uint16_t& val) { uint64_t v; if (!st::peek(16, 32, &v, true)) return false; val = (uint16_t)v; return true; }
bool BitBuffer::ReadUInt32(uint32_t& val) { uint64_t v; if (!st::peek(32, 32, &v, true)) return false; val = (uint32_t)v; return true; }
bool BitBuffer::ReadBytes(size_t n, uint8_t* buffer) { for (size_t i = 0; i < n; i++) if (!ReadUInt8(buffer[i])) return false; return true; }
bool BitBuffer::ConsumeBits(size_t n) {
  while (n > 0) { uint64_t v; size_t k = n > 32 ? 32 : n; if (!st::peek(k, 64, &v, true)) return false; n -= k; }
  return true;
}
bool BitBuffer::ConsumeBytes(size_t n) { return ConsumeBits(n * 8); }
bool BitBuffer::ReadExponentialGolomb(uint32_t& val) { return st::ue(&val); }
bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
  if (S.pos >= S.n && S.bit == 0) st::more_free(st::K_SE, 0);
  if (S.pos < S.n && S.bit == 0 && S.a[S.pos].kind == st::K_SE) { val = (int32_t)(uint32_t)S.a[S.pos].v; S.pos++; return true; }
  uint32_t k; if (!st::ue(&k)) return false; val = se_map(k); return true;
}
static uint64_t bits_of(int i) {
  st::Atom& a = S.a[i];
  if (a.kind == st::K_BITS) return a.n;
  uint64_t x = (uint64_t)st::code_num(a) + 1, l = 1;
  for (int k = 1; k <= 32; k++) l = sx_ite(x >= (1ull << k), k + 1, l);
  return 2 * l - 1;
}
static uint64_t off() { uint64_t t = 0; for (int i = 0; i < S.pos && i < S.n; i++) t += bits_of(i); return t + S.bit; }
void BitBuffer::GetCurrentOffset(size_t* by, size_t* bi) { uint64_t o = off(); *by = o / 8; *bi = o % 8; }
uint64_t BitBuffer::RemainingBitCount() const {
  if (S.free) sx_prune("remaining length of an open-ended stream");
  uint64_t t = 0; for (int i = S.pos; i < S.n; i++) t += bits_of(i);
  t -= S.bit;
  if (st::g_trail) { uint64_t all = off() + t; t += 8 - all % 8; }
  return t;
}
bool BitBuffer::Seek(size_t byte_offset, size_t bit_offset) {
  if (byte_offset == 0 && bit_offset == 0) { S.pos = 0; S.bit = 0; return true; }
  sx_prune("Seek in the middle of an element stream");
}
static bool ask_more() {
  if (S.pos < S.n || !S.free) return S.pos < S.n;
  if (S.zero) { S.free = false; st::g_trail = true; return false; }
  if (S.left <= 0) sx_prune("stream length bound");
  if (!sx_choose(2, "free_more")) { S.free = false; st::g_trail = true; return false; }
  S.left--;
  uint64_t v = sx_elem(1, "free_b1");
  st::Atom& a = S.a[S.n++];
  a.kind = st::K_BITS; a.n = 1; a.v = v;
  return true;
}
bool more_rbsp_data(BitBuffer*) { return ask_more(); }
bool rbsp_trailing_bits(BitBuffer*) { S.trailing++; if (S.free && S.pos >= S.n && ask_more()) return false; return S.pos >= S.n && st::g_trail; }
}  // namespace h265nal
