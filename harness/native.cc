// Native replay runtime: the sx_* interface driven by a recorded assignment.
// Usage: replay ENTRY CEX-FILE, where the file has lines "P name value"
// (parameters) and "I name value" (inputs, in order).
// Exit status: 0 no violation, 1 a check failed, 3 outside the assumptions.
#include "sx.h"
#include "../engine/dumpscan.h"
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>

static std::map<std::string, int64_t> params;
static std::vector<std::pair<std::string, uint64_t>> ins;
static std::vector<std::pair<std::string, uint64_t>> used;
static size_t pos;
static int failed;
static void done(int rc) { fflush(0); _exit(rc); }
static std::string pre;
static uint64_t next(const char* n, unsigned nbits) {
  std::string full = pre + n;
  const char* name = full.c_str();
  uint64_t v = 0;
  if (pos < ins.size()) {
    std::string want = name;
    for (auto& c : want) if (c == ' ') c = '_';
    if (ins[pos].first != want) { fprintf(stderr, "REPLAY-DIVERGED: expected %s, harness asked for %s\n", ins[pos].first.c_str(), name); done(failed ? 1 : 3); }
    v = ins[pos].second;
  }
  pos++;
  if (nbits < 64) v &= (1ull << nbits) - 1;
  used.push_back({name, v});
  return v;
}
extern "C" {
bool sx_native_next(const char** name, uint64_t* v) { if (pos >= ins.size()) return false; *name = ins[pos].first.c_str(); *v = ins[pos++].second; return true; }
uint64_t sx_elem(unsigned nbits, const char* name) { return next(name, nbits); }
int sx_choose(int n, const char* name) { int v = (int)next(name, 32); return v < n ? v : n - 1; }
void sx_prefix(const char* p) { pre = p; }
int64_t sx_param(const char* name) { auto i = params.find(pre + name); if (i == params.end()) i = params.find(name); return i == params.end() ? -1 : i->second; }
void sx_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); done(failed ? 1 : 3); } }
void sx_check(bool c, const char* label) { sx_effort_end(); if (!c) { fprintf(stderr, "REPLAY-CHECK-FAILED: %s\n", label); failed = 1; } }
void sx_cover(const char*) {}
void sx_prune(const char* why) { fprintf(stderr, "REPLAY-PRUNED: %s\n", why); done(failed ? 1 : 3); __builtin_unreachable(); }
void sx_stop() { sx_effort_end(); done(failed ? 1 : 0); __builtin_unreachable(); }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_and(bool a, bool b) { return a && b; }
int sx_decide(bool c) { return c; }
int sx_is_const(uint64_t) { return 1; }
int sx_native() { return 1; }
unsigned sx_in_mark() { return (unsigned)used.size(); }
unsigned sx_in_count(const char* n, unsigned b, unsigned e) { unsigned c = 0; for (unsigned i = b; i < e && i < used.size(); i++) c += used[i].first == pre + n; return c; }
uint64_t sx_in_val(const char* n, unsigned k, unsigned b, unsigned e) { unsigned c = 0; for (unsigned i = b; i < e && i < used.size(); i++) if (used[i].first == pre + n && c++ == k) return used[i].second; return 0; }
static char* g_buf; static size_t g_len; static FILE* g_f;
FILE* sx_file() { if (!g_f) g_f = open_memstream(&g_buf, &g_len); return g_f; }
static std::map<std::string, size_t> g_cursor; static std::vector<std::string> g_slots;
void sx_log_reset() { g_cursor.clear(); if (g_f) { fclose(g_f); g_f = 0; free(g_buf); g_buf = 0; } }
static DumpNames names() { DumpNames d; sx_file(); fflush(g_f); dumpScan(std::string(g_buf, g_len), d); return d; }
unsigned sx_dump_count(const char* n) { DumpNames d = names(); unsigned c = 0; for (auto& i : d.items) if (i.first == n) c += i.second.size(); return c; }
uint64_t sx_dump_val(const char* n, unsigned k) { DumpNames d = names(); unsigned c = 0; for (auto& i : d.items) if (i.first == n) for (auto& v : i.second) if (c++ == k) return v.v & 0xffffffffu; return 0; }
static std::string text() { sx_file(); fflush(g_f); return std::string(g_buf, g_len); }
int sx_dump_save() { g_slots.push_back(dumpNorm(text())); return (int)g_slots.size() - 1; }
int sx_dump_has(int k) { std::string t = dumpNorm(text()); size_t& from = g_cursor[dumpHead(g_slots[k])]; size_t p = dumpFind(t, g_slots[k], from); if (p == std::string::npos) return 0; from = p + 1; return 1; }
int sx_dump_same(int k) { return dumpNorm(text()) == g_slots[k]; }
int sx_text_save() { g_slots.push_back(text()); return (int)g_slots.size() - 1; }
int sx_text_same(int k) { if (text() != g_slots[k]) fprintf(stderr, "TEXT A: %s\nTEXT B: %s\n", g_slots[k].c_str(), text().c_str()); return text() == g_slots[k]; }
int sx_dump_starts(const char* n) { return dumpStarts(dumpNorm(text()), n); }
unsigned sx_dump_newlines() { unsigned c = 0; for (char x : text()) c += x == '\n'; return c; }
int sx_dump_layout() { std::string w = dumpLayout(text()); if (!w.empty()) fprintf(stderr, "layout: %s\n", w.c_str()); return w.empty(); }
unsigned sx_dump_groups(const char* n) { DumpNames d = names(); unsigned c = 0; for (auto& i : d.items) c += i.first == n; return c; }
static int g_outfd = -1;
const char* sx_vfs_add(const uint8_t* d, size_t n) { int fd = memfd_create("in", 0); for (size_t i = 0; i < n;) { ssize_t k = write(fd, d + i, n - i); if (k <= 0) done(2); i += (size_t)k; } char* p; if (asprintf(&p, "/proc/self/fd/%d", fd) < 0) done(2); return p; }
const char* sx_vfs_out() { g_outfd = memfd_create("out", 0); char* p; if (asprintf(&p, "/proc/self/fd/%d", g_outfd) < 0) done(2); return p; }
void sx_vfs_done() { char b[4096]; ssize_t k; lseek(g_outfd, 0, SEEK_SET); while ((k = read(g_outfd, b, sizeof b)) > 0) fwrite(b, 1, (size_t)k, sx_file()); }
// effort: blocks of the code under test entered, bytes allocated
static bool g_effort; static uint64_t g_units, g_heapunit, g_heap, g_blocks;
static void overEffort() {
  if (!g_effort) return;
  static const uint64_t part = getenv("SX_EFFORT_PART") ? strtoull(getenv("SX_EFFORT_PART"), 0, 0) : 1;
  if (!part || (g_heap <= 16384 + g_heapunit * g_units && g_blocks <= (10000 + 600 * g_units) / part)) return;
  g_effort = false;
  fprintf(stderr, "REPLAY-EFFORT: %llu bytes allocated, %llu blocks entered for %llu units\n", (unsigned long long)g_heap, (unsigned long long)g_blocks, (unsigned long long)g_units);
  done(97);
}
void __sanitizer_cov_trace_pc() { if (g_effort) { g_blocks++; if ((g_blocks & 0xff) == 0) overEffort(); } }
#define BULK(fn, ...) void* __real_##fn(__VA_ARGS__); void* __wrap_##fn(__VA_ARGS__)
static void bulk(size_t n) { if (g_effort) { g_blocks += n / 8; overEffort(); } }
BULK(memcpy, void* d, const void* s, size_t n) { bulk(n); return __real_memcpy(d, s, n); }
BULK(memmove, void* d, const void* s, size_t n) { bulk(n); return __real_memmove(d, s, n); }
BULK(memset, void* d, int c, size_t n) { bulk(n); return __real_memset(d, c, n); }
BULK(memchr, const void* d, int c, size_t n) { bulk(8 * n); return __real_memchr(d, c, n); }
BULK(__asan_memcpy, void* d, const void* s, size_t n) { bulk(n); return __real___asan_memcpy(d, s, n); }
BULK(__asan_memmove, void* d, const void* s, size_t n) { bulk(n); return __real___asan_memmove(d, s, n); }
BULK(__asan_memset, void* d, int c, size_t n) { bulk(n); return __real___asan_memset(d, c, n); }
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void onMalloc(const volatile void*, size_t n) { if (g_effort) { g_heap += n; overEffort(); } }
static void onFree(const volatile void*) {}
void sx_effort(uint64_t u, uint64_t h) { static int once = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); (void)once; g_units = u; g_heapunit = h; g_heap = g_blocks = 0; g_effort = true; }
void sx_effort_more(uint64_t u) { g_units += u; }
void sx_effort_end() { overEffort(); if (g_effort && getenv("SX_EFFORT_TRACE")) fprintf(stderr, "EFFORT units %llu heap %llu blocks %llu\n", (unsigned long long)g_units, (unsigned long long)g_heap, (unsigned long long)g_blocks); g_effort = false; }
void sx_debug(const char* s, ...) { fprintf(stderr, "DEBUG %s\n", s); }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  char k; char name[256]; unsigned long long v; char num[64];
  while (fscanf(f, " %c %255s %63s", &k, name, num) == 3) {
    v = num[0] == '-' ? (unsigned long long)strtoll(num, 0, 0) : strtoull(num, 0, 0);
    if (k == 'P') params[name] = (int64_t)v; else ins.push_back({name, v});
  }
  fclose(f);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  e();
  done(failed ? 1 : 0);
}
