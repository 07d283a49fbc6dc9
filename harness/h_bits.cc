// Byte-level harnesses: the real bit reader and writer on symbolic bytes.
#include <climits>
#include <cstring>
#include <vector>
#include "sx.h"
#include "h265_common.h"
#include "rtc_common.h"
using namespace h265nal;

// param base: number of fixed bytes in front of those explored
static unsigned base() { int64_t b = sx_param("base"); return b > 0 ? (unsigned)b : 0; }
static uint8_t* mk(unsigned n, const char* name) {
  uint8_t* p = new uint8_t[n];  // exact size: any byte outside is out of bounds
  unsigned f = base();
  if (f) memset(p, 0xa5, f);
  for (unsigned i = f; i < n; i++) p[i] = (uint8_t)sx_elem(8, name);
  return p;
}
static unsigned bit(const uint8_t* p, unsigned i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
// the n (1..64) bits from bit position s
static uint64_t bits(const uint8_t* p, unsigned s, unsigned n) {
  uint64_t v = 0;
  unsigned i = 0;
  while (i < n) {
    if ((s + i) % 8 == 0 && n - i >= 8) { v = (v << 8) | p[(s + i) / 8]; i += 8; }
    else { v = (v << 1) | bit(p, s + i); i++; }
  }
  return v;
}
static uint64_t pos(BitBuffer& b) { size_t x = 0, y = 0; b.GetCurrentOffset(&x, &y); sx_check(y < 8, "bit offset below 8"); return (uint64_t)x * 8 + y; }
static void at(BitBuffer& b, unsigned n, uint64_t p) {
  sx_check(pos(b) == p, "position");
  sx_check(b.RemainingBitCount() == (uint64_t)n * 8 - p, "remaining bits");
}

// One read of every width at every position.
// params: max (bytes), w64 (use the 64 bit variant), lo, hi (requested widths)
SX_ENTRY2(e_read) {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "len"), lim = sx_param("w64") ? 64 : 32;
  unsigned smax = n * 8 < 17 ? n * 8 : 17;
  unsigned s = (unsigned)sx_choose((int)smax + 1, "start") + 8 * base();
  n += base();
  unsigned lo = (unsigned)sx_param("lo"), hi = (unsigned)sx_param("hi");
  unsigned k = lo + (unsigned)sx_choose((int)(hi - lo + 1), "width");
  uint8_t* p = mk(n, "byte");
  BitBuffer b(p, n);
  sx_check(b.Seek(s / 8, s % 8), "seek inside the buffer");
  at(b, n, s);
  bool want = k <= lim && k <= n * 8 - s;
  uint64_t ref = want ? bits(p, s, k) : 0;
  if (lim == 32) {
    uint32_t v = 0;
    bool ok = b.PeekBits(k, v);
    sx_check(ok == want, "peek accepts");
    if (ok) sx_check(v == (uint32_t)ref, "peeked bits");
    at(b, n, s);
    v = 0;
    ok = b.ReadBits(k, v);
    sx_check(ok == want, "read accepts");
    if (ok) sx_check(v == (uint32_t)ref, "read bits");
    at(b, n, ok ? s + k : s);
  } else {
    uint64_t v = 0;
    bool ok = b.PeekBits(k, v);
    sx_check(ok == want, "peek accepts");
    if (ok) sx_check(v == ref, "peeked bits");
    at(b, n, s);
    v = 0;
    ok = b.ReadBits(k, v);
    sx_check(ok == want, "read accepts");
    if (ok) sx_check(v == ref, "read bits");
    at(b, n, ok ? s + k : s);
  }
  sx_cover(want ? "inside" : "outside");
  delete[] p;
}
// Byte-sized reads
SX_ENTRY e_readbytes() {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "len");
  unsigned smax = n * 8 < 17 ? n * 8 : 17;
  unsigned s = (unsigned)sx_choose((int)smax + 1, "start") + 8 * base(), w = n;
  n += base();
  int op = sx_choose(4, "op");
  uint8_t* p = mk(n, "byte");
  BitBuffer b(p, n);
  sx_check(b.Seek(s / 8, s % 8), "seek inside the buffer");
  unsigned rem = n * 8 - s;
  if (op == 0) { uint8_t v = 0; bool ok = b.ReadUInt8(v); sx_check(ok == (rem >= 8), "u8 accepts"); if (ok) sx_check(v == bits(p, s, 8), "u8 value"); at(b, n, ok ? s + 8 : s); }
  if (op == 1) { uint16_t v = 0; bool ok = b.ReadUInt16(v); sx_check(ok == (rem >= 16), "u16 accepts"); if (ok) sx_check(v == bits(p, s, 16), "u16 value"); at(b, n, ok ? s + 16 : s); }
  if (op == 2) { uint32_t v = 0; bool ok = b.ReadUInt32(v); sx_check(ok == (rem >= 32), "u32 accepts"); if (ok) sx_check(v == bits(p, s, 32), "u32 value"); at(b, n, ok ? s + 32 : s); }
  if (op == 3) {
    unsigned k = (unsigned)sx_choose((int)w + 2, "count");
    sx_cover(rem < 8 * k ? "too many" : "enough");
    uint8_t* o = new uint8_t[k];
    bool ok = b.ReadBytes(k, o);
    sx_check(ok == (rem >= 8 * k), "bytes accepts");
    if (ok) { for (unsigned i = 0; i < k; i++) sx_check(o[i] == bits(p, s + 8 * i, 8), "bytes value"); at(b, n, s + 8 * k); } else at(b, n, s);
    delete[] o;
  }
  delete[] p;
}
// Moving: any 64-bit argument of Seek, ConsumeBits and ConsumeBytes
SX_ENTRY e_move() {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "len") + base();
  uint8_t* p = mk(n, "byte");
  BitBuffer b(p, n);
  uint64_t cur = 0;
  for (int step = 0; step < (int)sx_param("steps"); step++) {
    int op = sx_choose(3, "op");
    if (op == 0) {
      uint64_t x = sx_elem(64, "seek_bytes"), y = sx_elem(64, "seek_bits");
      bool want = y < 8 && (x < n || (x == n && y == 0));
      bool ok = b.Seek(x, y);
      sx_check(ok == want, "seek accepts");
      if (ok) { sx_cover("seek"); cur = x * 8 + y; }
    } else if (op == 1) {
      uint64_t k = sx_elem(64, "bits");
      bool want = k <= (uint64_t)n * 8 - cur;
      bool ok = b.ConsumeBits(k);
      sx_check(ok == want, "consume accepts");
      if (ok) { sx_cover("consume"); cur += k; }
    } else {
      uint64_t k = sx_elem(64, "bytes");
      bool want = k <= 1000000 && k * 8 <= (uint64_t)n * 8 - cur;
      bool ok = b.ConsumeBytes(k);
      sx_check(ok == want, "consume bytes accepts");
      if (ok) cur += k * 8;
    }
    at(b, n, cur);
  }
  // the position is the one the next read starts from
  uint32_t v = 0;
  sx_assume(cur >= 8 * base());
  cur = sx_concretize(cur);
  bool ok = b.ReadBits(1, v);
  sx_check(ok == (cur < (uint64_t)n * 8), "read after moving");
  if (ok) sx_check(v == bit(p, (unsigned)cur), "bit after moving");
  delete[] p;
}
// A buffer of any length (up to the 2^32 - 1 bytes a BitBuffer may have); only
// its first 16 bytes exist.
SX_ENTRY e_huge() {
  uint32_t n = (uint32_t)sx_elem(32, "byte_count");
  sx_assume(n >= 16);
  uint8_t* p = mk(16, "byte");
  BitBuffer b(p, n);
  uint64_t cur = 0, all = (uint64_t)n * 8;
  at(b, n, 0);
  for (int step = 0; step < (int)sx_param("steps"); step++) {
    int op = sx_choose(3, "op");
    if (op == 0) {
      uint64_t x = sx_elem(64, "seek_bytes"), y = sx_elem(64, "seek_bits");
      bool want = y < 8 && (x < n || (x == n && y == 0));
      bool ok = b.Seek(x, y);
      sx_check(ok == want, "seek accepts");
      if (ok) { sx_cover("seek"); cur = x * 8 + y; }
    } else if (op == 1) {
      uint64_t k = sx_elem(64, "bits");
      bool ok = b.ConsumeBits(k);
      sx_check(ok == (k <= all - cur), "consume accepts");
      if (ok) { sx_cover("consume"); cur += k; }
    } else {
      uint64_t k = sx_elem(64, "bytes");
      bool ok = b.ConsumeBytes(k);
      sx_check(ok == (k <= 0xffffffffu && k * 8 <= all - cur), "consume bytes accepts");
      if (ok) cur += k * 8;
    }
    at(b, n, cur);
  }
  // however much is behind it, what is there is read
  unsigned s = (unsigned)sx_choose(17, "start");
  sx_check(b.Seek(s / 8, s % 8), "seek back");
  unsigned k = sx_choose(2, "wide") ? 64 : 7;
  uint64_t v = 0;
  sx_check(b.PeekBits(k, v) && v == bits(p, s, k), "peeked bits");
  at(b, n, s);
  delete[] p;
}

// Exp-Golomb.  params: max, signed
SX_ENTRY e_ue() {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "len");
  unsigned smax = n ? 7 : 0;
  unsigned s = (unsigned)sx_choose((int)smax + 1, "start") + 8 * base();
  n += base();
  uint8_t* p = mk(n, "byte");
  BitBuffer b(p, n);
  sx_check(b.Seek(s / 8, s % 8), "seek");
  bool ok;
  uint32_t v = 0;
  int32_t sv = 0;
  bool sg = sx_param("signed") == 1;
  if (sg) ok = b.ReadSignedExponentialGolomb(sv); else ok = b.ReadExponentialGolomb(v);
  // 9.2: leading zero bits, then the code
  unsigned z = 0;
  while (s + z < n * 8 && bit(p, s + z) == 0) z++;
  bool want = s + 2 * z + 1 <= n * 8 && z < 32;
  sx_check(ok == want, "accepts");
  if (ok && want) {
    uint64_t code = ((1ull << z) - 1) + (z ? bits(p, s + z + 1, z) : 0);
    sx_cover("accepted");
    if (!sg) sx_check(v == code, "value");
    else {
      // 9.2.2: (-1)^(k+1) * Ceil(k / 2)
      int64_t h = (int64_t)((code >> 1) + (code & 1));
      int64_t w = (int64_t)sx_ite((code & 1) != 0, (uint64_t)h, (uint64_t)-h);
      sx_check((int64_t)sv == w, "value");
    }
    at(b, n, s + 2 * z + 1);
  } else { sx_cover("rejected"); at(b, n, s); }
  delete[] p;
}

// Writer.  params: kind (0 bits, 1 ue, 2 se, 3 non-symmetric, 4 bytes), max, lo, hi
SX_ENTRY2(e_write) {
  int kind = (int)sx_param("kind");
  int minlen = (int)sx_param("min");  // -1 when not given
  if (minlen < 0) minlen = 0;
  unsigned n = (unsigned)minlen + (unsigned)sx_choose((int)sx_param("max") - minlen + 1, "len");
  unsigned smax = n * 8 < 9 ? n * 8 : 9;
  unsigned s = (unsigned)sx_choose((int)smax + 1, "start") + 8 * base();
  n += base();
  uint8_t* p = mk(n, "byte");
  uint8_t* old = new uint8_t[n];
  memcpy(old, p, n);
  BitBufferWriter b(p, n);
  sx_check(b.Seek(s / 8, s % 8), "seek");
  unsigned rem = n * 8 - s;
  bool ok = false, want = false;
  unsigned len = 0;       // bits written
  uint64_t code = 0;      // their value
  uint64_t val = 0;
  uint32_t nv = 0;
  if (kind == 0) {
    unsigned lo = (unsigned)sx_param("lo"), hi = (unsigned)sx_param("hi");
    len = lo + (unsigned)sx_choose((int)(hi - lo + 1), "width");
    val = sx_elem(64, "value");
    if (len < 64) val &= (1ull << len) - 1;
    code = val; want = len <= rem;
    ok = b.WriteBits(val, len);
  } else if (kind == 1 || kind == 2) {
    uint32_t k;
    if (kind == 1) {
      val = sx_elem(32, "value");
      k = (uint32_t)val;
      ok = b.WriteExponentialGolomb((uint32_t)val);
      want = k != 0xffffffffu;
    } else {
      int32_t sv = (int32_t)sx_elem(32, "value");
      val = (uint64_t)(int64_t)sv;
      ok = b.WriteSignedExponentialGolomb(sv);
      want = sv != INT32_MIN;
      k = (uint32_t)sx_ite(sv > 0, 2u * (uint32_t)sv - 1u, 0u - 2u * (uint32_t)sv);
    }
    code = (uint64_t)k + 1;
    unsigned l = 1;
    while (l < 33 && (code >> l) != 0) l++;
    len = 2 * l - 1;
    want = want && len <= rem;
  } else if (kind == 3) {
    unsigned w = (unsigned)sx_param("w");   // number of values: w bits wide
    nv = (uint32_t)sx_elem(32, "num_values");
    sx_assume(nv >= (1u << (w - 1)) && (w == 32 ? nv <= (1u << 31) : nv < (1u << w)));
    val = sx_elem(32, "value");
    sx_assume(val < nv);
    uint64_t k = (1ull << w) - nv;
    ok = b.WriteNonSymmetric((uint32_t)val, nv);
    if (val < k) { len = w - 1; code = val; } else { len = w; code = val + k; }
    sx_check(BitBufferWriter::SizeNonSymmetricBits((uint32_t)val, nv) == len, "size");
    want = len <= rem;
  } else {
    int t = sx_choose(3, "bytes");
    len = 8u << t;
    val = sx_elem(len, "value");
    code = val; want = len <= rem;
    ok = t == 0 ? b.WriteUInt8((uint8_t)val) : t == 1 ? b.WriteUInt16((uint16_t)val) : b.WriteUInt32((uint32_t)val);
  }
  sx_check(ok == want, "accepts");
  if (!ok || !want) {
    sx_cover("refused");
    at(b, n, s);
    for (unsigned i = base() < 500 ? 0 : base(); i < n; i++) sx_check(p[i] == old[i], "buffer unchanged");
  } else {
    sx_cover("written");
    at(b, n, s + len);
    for (unsigned i = base() < 500 ? 0 : 8 * base(); i < n * 8; i++) {
      unsigned c = i < s || i >= s + len ? bit(old, i) : (s + len - 1 - i < 64 ? (unsigned)((code >> (s + len - 1 - i)) & 1) : 0);
      sx_check(bit(p, i) == c, "bits of the buffer");
    }
    sx_check(b.Seek(s / 8, s % 8), "seek back");
    uint64_t r = 0;
    bool rd = false;
    if (kind == 0) rd = b.ReadBits(len, r);
    else if (kind == 1) { uint32_t x = 0; rd = b.ReadExponentialGolomb(x); r = x; }
    else if (kind == 2) { int32_t x = 0; rd = b.ReadSignedExponentialGolomb(x); r = (uint64_t)(int64_t)x; }
    else if (kind == 3) { uint32_t x = 0; rd = b.ReadNonSymmetric(nv, x); r = x; }
    else if (len == 8) { uint8_t x = 0; rd = b.ReadUInt8(x); r = x; }
    else if (len == 16) { uint16_t x = 0; rd = b.ReadUInt16(x); r = x; }
    else { uint32_t x = 0; rd = b.ReadUInt32(x); r = x; }
    sx_check(rd, "read back");
    sx_check(r == val, "value read back");
    at(b, n, s + len);
  }
  delete[] p;
  delete[] old;
}

// End of payload.  params: max
SX_ENTRY e_more() {
  unsigned w = 1 + (unsigned)sx_choose((int)sx_param("max"), "len"), n = w + base();
  uint8_t* p = mk(n, "byte");
  sx_assume(p[n - 1] != 0);  // rbsp_trailing_bits() ends in the last byte
  unsigned last = 0;
  for (unsigned i = 0; i < 8; i++) last = (unsigned)sx_ite((p[n - 1] >> (7 - i)) & 1, (n - 1) * 8 + i, last);
  unsigned s = (unsigned)sx_choose((int)w * 8 + 1, "start") + 8 * base();
  BitBuffer b(p, n);
  sx_check(b.Seek(s / 8, s % 8), "seek");
  sx_assume(s == n * 8 || s <= last);
  sx_check(more_rbsp_data(&b) == (s < last && s < n * 8), "more data");
  at(b, n, s);
  sx_check(byte_aligned(&b) == (s % 8 == 0), "aligned");
  sx_check(get_current_offset(&b) == (s + 7) / 8, "bytes consumed");
  delete[] p;
}
SX_ENTRY e_trailing() {
  unsigned w = (unsigned)sx_choose((int)sx_param("max") + 1, "len"), n = w + base();
  uint8_t* p = mk(n, "byte");
  unsigned s = (unsigned)sx_choose((int)w * 8 + 1, "start") + 8 * base();
  BitBuffer b(p, n);
  sx_check(b.Seek(s / 8, s % 8), "seek");
  unsigned l = 8 - s % 8;
  bool want = s < n * 8 && bits(p, s, l) == (1ull << (l - 1));
  bool ok = rbsp_trailing_bits(&b);
  sx_check(ok == want, "trailing bits");
  if (ok) { sx_cover("accepted"); at(b, n, s + l); }
  delete[] p;
}

// Emulation prevention.  params: max
SX_ENTRY2(e_unescape) {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "len") + base();
  uint8_t* p = mk(n, "byte");
  // the fixed part is full of emulation prevention bytes
  if (sx_param("dense") == 1) for (unsigned i = 0; i < base(); i++) p[i] = i % 3 == 2 ? 3 : 0;
  std::vector<uint8_t> out = UnescapeRbsp(p, n);
  // 7.3.1.1: a 0x03 after two zero bytes is not part of the payload
  uint8_t* ref = new uint8_t[n + 1];
  unsigned m = 0, z = 0;
  for (unsigned i = 0; i < n; i++) {
    if (z >= 2 && p[i] == 3) { z = 0; sx_cover("removed"); continue; }
    ref[m++] = p[i];
    if (p[i] == 0) z++; else z = 0;
  }
  sx_check(out.size() == m, "size");
  for (unsigned i = 0; i < m && i < out.size(); i++) sx_check(out[i] == ref[i], "byte");
  delete[] ref;
  delete[] p;
}
// removing what 7.4.2.3.1 inserts gives the payload back
SX_ENTRY e_roundtrip() {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "len");
  uint8_t* p = mk(n, "byte");
  uint8_t* e = new uint8_t[n * 2 + 1];
  unsigned m = 0, z = 0;
  for (unsigned i = 0; i < n; i++) {
    if (z >= 2 && p[i] <= 3) { e[m++] = 3; z = 0; sx_cover("inserted"); }
    e[m++] = p[i];
    if (p[i] == 0) z++; else z = 0;
  }
  uint8_t* x = new uint8_t[m];
  for (unsigned i = 0; i < m; i++) x[i] = e[i];
  std::vector<uint8_t> out = UnescapeRbsp(x, m);
  sx_check(out.size() == n, "size");
  for (unsigned i = 0; i < n && i < out.size(); i++) sx_check(out[i] == p[i], "byte");
  delete[] p; delete[] e; delete[] x;
}
