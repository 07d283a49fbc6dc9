// Element streams: a symbolic bitstream described as a sequence of syntax
// elements.  The reference reader (Ref) creates the elements in the order the
// standard's syntax tables read them; the code under test then reads the same
// bits through BitBuffer.  In symx the BitBuffer entry points are replaced by
// stub.cc, which serves the same elements with exact bit-level semantics; in
// native replay the elements are serialised and the real BitBuffer is used.
#pragma once
#include "sx.h"
#include "dump.h"
#include "rtc_common.h"

namespace st {
enum { K_BITS = 0, K_UE = 1, K_SE = 2 };  // K_SE: v is the signed value
struct Atom { uint8_t kind; uint8_t n; uint64_t v; };
const int kMaxAtoms = 8192;
struct Stream {
  Atom a[kMaxAtoms];
  int n;         // number of atoms created by the reference
  bool eof;      // the stream is truncated right after the last atom
  // reader position of the code under test
  int pos;       // atom index
  unsigned bit;  // bit offset inside a bits atom
  int trailing;  // number of rbsp_trailing_bits() calls seen
  bool over;     // the code under test tried to read past the end
  // beyond what the reference describes, elements appear as the code under
  // test asks for them (any value, or the end of the data), up to a number
  bool free; int left;
  // ... after an element that must be refused: all of them zero
  bool zero;
};
// 9.2.2 (inverse): the codeNum of an exp-Golomb element
static inline uint32_t code_num(const Atom& a) {
  uint32_t v = (uint32_t)a.v;
  if (a.kind == K_UE) return v;
  return (uint32_t)sx_ite((int32_t)v > 0, 2u * v - 1u, 0u - 2u * v);
}
extern Stream S;
void reset();
// Open a BitBuffer positioned at the first atom.  with_trailing: append
// rbsp_trailing_bits() (ignored when the stream is truncated).
h265nal::BitBuffer* open(bool with_trailing);
// The serialised bytes (native replay only meaningful): RBSP bytes
const uint8_t* bytes(size_t* len);
// true when the code under test consumed exactly the atoms created by the
// reference (optionally followed by trailing bits)
bool at_end();
}  // namespace st

struct Seg { unsigned b, e; };

// Reference reader
struct Ref {
  bool eof = false;   // ran into the end of the data
  bool rej = false;   // content outside what the parser is specified to accept
  bool trunc = false; // explore truncation
  unsigned n0 = 0;
  // the data ends here, possibly inside the element (n bits, 0 for a code word)
  void check_eof(unsigned n);
  uint64_t u(unsigned n, const char* name);
  uint32_t ue(const char* name);
  int32_t se(const char* name);
  bool more(const char* name);  // more_rbsp_data()
  bool reject(bool undefined);
  bool judge(bool full) const { return full && !rej; }
};
// stop the reference on truncation
#define RU(var, n, name) uint64_t var = r.u((n), name); if (r.eof) return false; (void)var
#define RUE(var, name) uint32_t var = r.ue(name); if (r.eof) return false; (void)var
#define RSE(var, name) int32_t var = r.se(name); if (r.eof) return false; (void)var
// content that must be refused.  So that refusing is not confused with running
// out of data, the stream goes on: with what the standard describes (REJ), or,
// where that is undefined, with zero elements as the code asks for them (REJH).
#define REJ(c) do { if (!r.rej && (c)) { if (!r.reject(false)) return false; } } while (0)
#define REJH(c) do { if (c) { r.reject(true); return false; } } while (0)
// content the implementation documents as unsupported: outside the property
#define UNSUP(c, why) do { if (c) { if (go_free(r)) return false; sx_prune("unsupported: " why); } } while (0)
// content longer than what is explored
#define BOUND(c, why) do { if (c) { if (go_free(r)) return false; sx_prune(why); } } while (0)
// counts explored: a few, or with the param "big" up to that many
static inline uint64_t lim(uint64_t few) { int64_t n = sx_param("big"); return n > 0 ? (uint64_t)n : few; }
// In free mode the reference stops there and the rest of the stream is unconstrained
static inline bool go_free(Ref& r) {
  int64_t n = sx_param("free");
  if (n <= 0) return false;
  st::S.free = true; st::S.left = (int)n; r.rej = true; sx_cover("free");
  return true;
}

// comparisons of a decoded field with the element of that name in a segment
#define CNT(seg, name) sx_in_count(name, (seg).b, (seg).e)
#define VAL(seg, name, i) sx_in_val(name, (i), (seg).b, (seg).e)
// dump mode: the object under comparison has just been dumped on its own, and
// every compared field that the dump prints must show the decoded value
static inline void dump_chk(const char* name, uint64_t v, bool must) {
  if (!g_dump) return;
  unsigned n = sx_dump_count(name);
  if (n == 0) { if (must) sx_check(false, name); return; }
  if (n == 1) sx_check(sx_dump_val(name, 0) == (uint32_t)v, name);
}
template <class V> static inline void dump_chk_vec(const char* name, const V& v, bool must) {
  if (!g_dump) return;
  if (sx_dump_groups(name) == 0) { if (must && v.size()) sx_check(false, name); return; }
  if (sx_dump_groups(name) != 1) return;
  sx_check(sx_dump_count(name) == v.size(), name);
  for (unsigned i = 0; i < v.size() && i < sx_dump_count(name); i++) sx_check(sx_dump_val(name, i) == (uint32_t)v[i], name);
}
// decoded values are compared with the coded ones, except in dump mode, which
// is about the dump showing what was decoded
#define FCHK(c, l) do { if (!g_dump) sx_check(c, l); } while (0)
// absent elements must hold their inferred value
#define CMP_(field, seg, name, dflt, must) do { unsigned cmp_c = CNT(seg, name); \
  FCHK((uint64_t)(field) == (cmp_c ? VAL(seg, name, 0) : (uint64_t)(dflt)), name); \
  dump_chk(name, (uint64_t)(field), (must) && cmp_c); } while (0)
#define CMP(field, seg, name, dflt) CMP_(field, seg, name, dflt, true)
// same, for a field the dump does not show
#define CMPH(field, seg, name, dflt) CMP_(field, seg, name, dflt, false)
// no inferred value is specified when absent
#define CMPX(field, seg, name) do { if (CNT(seg, name)) CMP(field, seg, name, 0); } while (0)
#define CMPSE(field, seg, name, dflt) do { unsigned cmp_c = CNT(seg, name); \
  FCHK((int64_t)(field) == (int64_t)(cmp_c ? (int32_t)VAL(seg, name, 0) : (int32_t)(dflt)), name); \
  dump_chk(name, (uint64_t)(int64_t)(field), cmp_c != 0); } while (0)
#define CMPV_(vec, seg, name, must)                                            \
  do {                                                                         \
    unsigned cmp_n = CNT(seg, name);                                           \
    FCHK((vec).size() == cmp_n, name ".size");                             \
    for (unsigned cmp_i = 0; cmp_i < cmp_n && cmp_i < (vec).size(); cmp_i++)   \
      FCHK((uint64_t)(vec)[cmp_i] == VAL(seg, name, cmp_i), name);         \
    dump_chk_vec(name, vec, must);                                             \
  } while (0)
#define CMPV(vec, seg, name) CMPV_(vec, seg, name, true)
#define CMPVH(vec, seg, name) CMPV_(vec, seg, name, false)
#define CMPVSE(vec, seg, name)                                                 \
  do {                                                                         \
    unsigned cmp_n = CNT(seg, name);                                           \
    FCHK((vec).size() == cmp_n, name ".size");                             \
    for (unsigned cmp_i = 0; cmp_i < cmp_n && cmp_i < (vec).size(); cmp_i++)   \
      FCHK((int64_t)(vec)[cmp_i] == (int64_t)(int32_t)VAL(seg, name, cmp_i), name); \
    dump_chk_vec(name, vec, true);                                             \
  } while (0)
