// Interface between harnesses and the symbolic executor (symx) or the native
// replay runtime (native.cc).  The same harness source is used for both.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>

extern "C" {
// A new input element of nbits (1..64) bits, zero-extended.  Symbolic in symx
// (subject to the job's rules), replayed from the counterexample natively.
uint64_t sx_elem(unsigned nbits, const char* name);
// A nondeterministic choice in [0, n), explored exhaustively.
int sx_choose(int n, const char* name);
int64_t sx_param(const char* name);
void sx_assume(bool c);
void sx_check(bool c, const char* label);
void sx_cover(const char* label);
[[noreturn]] void sx_prune(const char* why);
[[noreturn]] void sx_stop();
uint64_t sx_concretize(uint64_t v);
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);  // no fork
int sx_and(bool a, bool b);
int sx_native();
// recorded inputs: position, number of elements called `name` in [b,e), i-th value
unsigned sx_in_mark();
unsigned sx_in_count(const char* name, unsigned b, unsigned e);
uint64_t sx_in_val(const char* name, unsigned i, unsigned b, unsigned e);
// dump capture
FILE* sx_file();
void sx_log_reset();
// number of values printed under `name` ("name: v" entries, or "name { v v }")
unsigned sx_dump_count(const char* name);
uint64_t sx_dump_val(const char* name, unsigned i);  // low 32 bits
unsigned sx_dump_groups(const char* name);  // occurrences of the name itself
// dumps as text: save the current one (whitespace collapsed), find a saved one
// in the current one, compare, and look at the layout
int sx_dump_save();
int sx_dump_has(int slot);
int sx_dump_same(int slot);
int sx_dump_starts(const char* name);
unsigned sx_dump_newlines();
int sx_dump_layout();
// the exact text: save, compare
int sx_text_save();
int sx_text_same(int slot);
int sx_decide(bool c);  // 1 must hold, 0 must not, 2 undecided; no fork
int sx_is_const(uint64_t v);
// files: one to read with this content, one to write, which becomes the text
// of sx_file() when done
const char* sx_vfs_add(const uint8_t* d, size_t n);
const char* sx_vfs_out();
void sx_vfs_done();
// from here to the end (or the first assertion), memory and steps are bounded by
// a fixed amount and a multiple of the units
void sx_effort(uint64_t units, uint64_t heap_per_unit);
void sx_effort_more(uint64_t units);
void sx_effort_end();
// put in front of the names of inputs and (where such a one exists) parameters
void sx_prefix(const char* p);
void sx_debug(const char* s, ...);
}
// an entry that can run twice, the first time with other inputs (param pre).
// A harness keeps its models apart with g_round.
static int g_round;
// what the first one gave, kept (param keep): how to print it, and as what
struct SxKept { void* o; void (*show)(void*); int slot; };
static SxKept g_kept;
static inline void sx_kept_check() {
  if (!g_kept.o) return;
  sx_log_reset();
  g_kept.show(g_kept.o);
  sx_check(sx_text_same(g_kept.slot), "result after another parse");
  sx_cover("kept");
}
#define SX_ENTRY2(name) \
  static void name##_once(); \
  extern "C" __attribute__((used, noinline)) void name() { \
    if (sx_param("pre") == 1) { sx_prefix("pre/"); g_round = 1; name##_once(); sx_prefix(""); g_round = 0; sx_cover("once before"); } \
    name##_once(); \
    sx_kept_check(); \
  } \
  static __attribute__((noinline)) void name##_once()
#define SX_ENTRY extern "C" __attribute__((used, noinline)) void

// Common helpers -------------------------------------------------------------
static inline int32_t se_map(uint32_t k) {
  // 9.2.2: codeNum k -> (-1)^(k+1) * ceil(k/2)
  uint32_t h = (k >> 1) + (k & 1);
  return (int32_t)sx_ite((k & 1) != 0, h, 0u - h);
}
// name[i]tail
static inline const char* IX(const char* base, int c, const char* tail = "") {
  static char buf[8][64]; static int k; char* b = buf[k++ & 7]; unsigned n = 0;
  for (const char* q = base; *q; q++) b[n++] = *q;
  b[n++] = '['; b[n++] = (char)('0' + c); b[n++] = ']';
  for (const char* q = tail; *q; q++) b[n++] = *q;
  b[n] = 0;
  return b;
}
