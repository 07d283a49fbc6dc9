// Reference reader (shared by symbolic and native builds) and the native
// serialisation of element streams.
#include "stream.h"
#include <cstdlib>
#include <cstring>

namespace st {
Stream S;
void reset() { g_layout = sx_param("layout") == 1; g_nkid = 0; S.n = 0; S.eof = false; S.pos = 0; S.bit = 0; S.trailing = 0; S.over = false; S.free = S.zero = false; S.left = 0; }
}  // namespace st

void Ref::check_eof(unsigned n) {
  if (!trunc || eof || !sx_choose(2, "@eof")) return;
  eof = true; st::S.eof = true;
  if (n == 1 || st::S.n >= st::kMaxAtoms || !sx_choose(2, "@left")) return;
  // one bit short: of n bits, or of a code word with 15 leading zeros
  st::Atom& a = st::S.a[st::S.n++];
  a.kind = st::K_BITS;
  a.n = n ? (uint8_t)(n - 1) : 30;
  a.v = n ? sx_elem(n - 1, "leftover") : (1u << 14 | (uint32_t)sx_elem(14, "leftover"));
}
uint64_t Ref::u(unsigned n, const char* name) {
  check_eof(n ? n : 1);
  if (eof) return 0;
  if (n == 0) return 0;
  if (st::S.n >= st::kMaxAtoms) sx_prune("stream length bound");
  uint64_t v = sx_elem(n, name);
  st::Atom& a = st::S.a[st::S.n++];
  a.kind = st::K_BITS; a.n = (uint8_t)n; a.v = v;
  return v;
}
uint32_t Ref::ue(const char* name) {
  check_eof(0);
  if (eof) return 0;
  if (st::S.n >= st::kMaxAtoms) sx_prune("stream length bound");
  uint32_t v = (uint32_t)sx_elem(32, name);
  sx_assume(v != 0xffffffffu);
  st::Atom& a = st::S.a[st::S.n++];
  a.kind = st::K_UE; a.n = 0; a.v = v;
  return v;
}
int32_t Ref::se(const char* name) {
  check_eof(0);
  if (eof) return 0;
  if (st::S.n >= st::kMaxAtoms) sx_prune("stream length bound");
  uint32_t v = (uint32_t)sx_elem(32, name);
  sx_assume(v != 0x80000000u);
  st::Atom& a = st::S.a[st::S.n++];
  a.kind = st::K_SE; a.n = 0; a.v = v;
  return (int32_t)v;
}
bool Ref::reject(bool undefined) {
  rej = true;
  if (trunc || g_dump || sx_param("free") > 0 || sx_param("soft") != 1) return false;
  if (!undefined) return true;
  st::S.free = st::S.zero = true; st::S.left = 600;
  return false;
}
bool Ref::more(const char* name) {
  // the caller reads at least one bit when this answers true
  if (eof) return false;
  return sx_choose(2, name) != 0;
}

#ifdef SX_NATIVE
#include <vector>
namespace st {
static std::vector<uint8_t> g_bytes;
static size_t g_pre, g_bits;
static h265nal::BitBuffer* g_bb;
static std::vector<bool> serialise() {
  std::vector<bool> b;
  auto put = [&](uint64_t v, unsigned n) { for (unsigned i = n; i-- > 0;) b.push_back(i < 64 ? (v >> i) & 1 : 0); };
  for (int i = 0; i < S.n; i++) {
    if (S.a[i].kind == K_BITS) put(S.a[i].v, S.a[i].n);
    else { uint64_t x = st::code_num(S.a[i]) + 1ull; unsigned l = 64 - __builtin_clzll(x); put(0, l - 1); put(x, l); }
  }
  return b;
}
extern "C" bool sx_native_next(const char** name, uint64_t* v);
// the recorded on-demand elements
static bool pull_free() {
  const char* n; uint64_t v;
  while (sx_native_next(&n, &v)) {
    if (strncmp(n, "free_", 5)) continue;
    n += 5;
    if (!strcmp(n, "eof")) { if (v) return true; continue; }
    if (!strcmp(n, "more")) { if (!v) return false; continue; }
    Atom& a = S.a[S.n++];
    a.v = v; a.n = 0;
    if (!strcmp(n, "ue")) a.kind = K_UE;
    else if (!strcmp(n, "se")) a.kind = K_SE;
    else { a.kind = K_BITS; a.n = (uint8_t)atoi(n + 1); }
  }
  return true;
}
h265nal::BitBuffer* open(bool with_trailing) {
  if (S.free) { S.eof = pull_free() && !S.zero; with_trailing = true; }
  std::vector<bool> b = serialise();
  g_bits = b.size();
  g_pre = 0;
  if (S.eof || !with_trailing) g_pre = (8 - b.size() % 8) % 8;
  else { b.push_back(1); while (b.size() % 8) b.push_back(0); }
  std::vector<bool> all(g_pre, false);
  all.insert(all.end(), b.begin(), b.end());
  g_bytes.assign(all.size() / 8, 0);
  for (size_t i = 0; i < all.size(); i++) if (all[i]) g_bytes[i / 8] |= 0x80 >> (i % 8);
  // exact-size heap copy so that address sanitizer sees any over-read
  uint8_t* p = (uint8_t*)malloc(g_bytes.size() ? g_bytes.size() : 1);
  if (g_bytes.size()) memcpy(p, g_bytes.data(), g_bytes.size());
  fprintf(stderr, "REPLAY-BYTES skip=%zu bits=%zu ", g_pre, g_bits);
  for (uint8_t c : g_bytes) fprintf(stderr, "%02x", c);
  fprintf(stderr, "\n");
  g_bb = new h265nal::BitBuffer(p, g_bytes.size());
  if (g_pre) g_bb->ConsumeBits(g_pre);
  if (sx_param("effort") == 1) sx_effort((uint64_t)S.n, 128);
  return g_bb;
}
const uint8_t* bytes(size_t* len) { *len = g_bytes.size(); return g_bytes.data(); }
bool at_end() {
  size_t by, bi;
  g_bb->GetCurrentOffset(&by, &bi);
  size_t p = by * 8 + bi;
  return p == g_pre + g_bits || p == g_bytes.size() * 8;
}
}  // namespace st
#endif
