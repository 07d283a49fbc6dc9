// Files and program options, for the command line tool (bitcode only; natively
// these are memory files and the C library)
typedef unsigned long size_t;
#define RT extern "C" __attribute__((no_builtin, noinline, used))
extern "C" void* sx_file();
extern "C" void sx_prune(const char*);
struct VFile { const unsigned char* d; size_t n, pos; char name[4]; };
static VFile g_vf[4];
static int g_nvf;
static int streq(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
RT const char* sx_vfs_add(const unsigned char* d, size_t n) { VFile& f = g_vf[g_nvf]; f.d = d; f.n = n; f.pos = 0; f.name[0] = 'i'; f.name[1] = (char)('0' + g_nvf); f.name[2] = 0; g_nvf++; return f.name; }
RT const char* sx_vfs_out() { return "out"; }
RT void sx_vfs_done() {}
RT void* fopen(const char* name, const char* mode) {
  if (mode[0] == 'w') return streq(name, "out") ? sx_file() : 0;
  for (int i = 0; i < g_nvf; i++) if (streq(name, g_vf[i].name)) { g_vf[i].pos = 0; return &g_vf[i]; }
  return 0;
}
RT int fclose(void*) { return 0; }
RT int fseek(void* p, long o, int w) { VFile* f = (VFile*)p; f->pos = (w == 0 ? 0 : w == 1 ? f->pos : f->n) + (size_t)o; return 0; }
RT int fseeko(void* p, long o, int w) { return fseek(p, o, w); }
RT void rewind(void* p) { fseek(p, 0, 0); }
RT long ftell(void* p) { return (long)((VFile*)p)->pos; }
RT long ftello(void* p) { return ftell(p); }
RT int feof(void* p) { VFile* f = (VFile*)p; return f->pos >= f->n; }
RT int ferror(void*) { return 0; }
RT int fgetc(void* p) { VFile* f = (VFile*)p; return f->pos < f->n ? f->d[f->pos++] : -1; }
RT int getc(void* p) { return fgetc(p); }
RT size_t fread(void* to, size_t sz, size_t n, void* p) {
  VFile* f = (VFile*)p;
  size_t k = 0;
  for (; k < n && f->pos + sz <= f->n; k++, f->pos += sz) for (size_t i = 0; i < sz; i++) ((unsigned char*)to)[k * sz + i] = f->d[f->pos + i];
  return k;
}
static int g_errno;
RT int* __errno_location() throw() { return &g_errno; }
extern "C" {
char* optarg;
int optind = 1, opterr = 1, optopt;
struct option { const char* name; int has_arg; int* flag; int val; };
__attribute__((no_builtin, noinline, used)) int getopt_long(int argc, char* const* argv, const char* shorts, const struct option* longs, int* idx) {
  optarg = 0;
  while (optind < argc && argv[optind][0] != '-') optind++;
  if (optind >= argc) return -1;
  const char* a = argv[optind++];
  if (a[1] != '-') {
    if (a[2]) sx_prune("grouped short options");
    for (const char* s = shorts; *s; s++) if (*s == a[1] && *s != ':') {
      if (s[1] == ':') { if (optind >= argc) return '?'; optarg = (char*)argv[optind++]; }
      return a[1];
    }
    return '?';
  }
  a += 2;
  for (int i = 0; longs[i].name; i++) {
    const char *n = longs[i].name, *p = a;
    while (*n && *n == *p) { n++; p++; }
    if (*n || (*p && *p != '=')) continue;
    if (idx) *idx = i;
    if (longs[i].has_arg) { if (*p == '=') optarg = (char*)p + 1; else { if (optind >= argc) return '?'; optarg = (char*)argv[optind++]; } }
    if (longs[i].flag) { *longs[i].flag = longs[i].val; return 0; }
    return longs[i].val;
  }
  return '?';
}
}
static unsigned long conv(const char* s, char** end, int base, int* neg, int* over) {
  const char* p = s; unsigned long v = 0; int any = 0;
  while (*p == ' ') p++;
  *neg = *p == '-';
  if (*p == '-' || *p == '+') p++;
  for (; *p >= '0' && *p <= '9'; p++) { unsigned d = (unsigned)(*p - '0'); any = 1; if (v > (~0ul - d) / 10) *over = 1; v = v * 10 + d; }
  if (end) *end = (char*)(any ? p : s);
  return v;
}
RT long strtol(const char* s, char** end, int base) throw() {
  int neg, over = 0; unsigned long v = conv(s, end, base, &neg, &over), lim = 0x7ffffffffffffffful + (neg ? 1 : 0);
  if (over || v > lim) { g_errno = 34; return neg ? -0x7fffffffffffffffl - 1 : 0x7fffffffffffffffl; }
  return neg ? (long)(0 - v) : (long)v;
}
RT unsigned long strtoul(const char* s, char** end, int base) throw() { int neg, over = 0; unsigned long v = conv(s, end, base, &neg, &over); if (over) { g_errno = 34; return ~0ul; } return neg ? 0 - v : v; }
RT long strtoll(const char* s, char** end, int base) throw() { return strtol(s, end, base); }
RT unsigned long strtoull(const char* s, char** end, int base) throw() { return strtoul(s, end, base); }
RT int atoi(const char* s) throw() { return (int)strtol(s, 0, 10); }
RT long __isoc23_strtol(const char* s, char** end, int base) throw() { return strtol(s, end, base); }
RT unsigned long __isoc23_strtoul(const char* s, char** end, int base) throw() { return strtoul(s, end, base); }
RT long __isoc23_strtoll(const char* s, char** end, int base) throw() { return strtol(s, end, base); }
RT unsigned long __isoc23_strtoull(const char* s, char** end, int base) throw() { return strtoul(s, end, base); }
