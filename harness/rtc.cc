// The C library functions the code may come to use (no <string.h>: its C++
// declarations clash with definitions)
typedef unsigned long size_t;
#define RT extern "C" __attribute__((no_builtin, noinline, used))
RT void* memchr(const void* p, int c, size_t n) throw() { for (size_t i = 0; i < n; i++) if (((const unsigned char*)p)[i] == (unsigned char)c) return (char*)p + i; return 0; }
RT void* memrchr(const void* p, int c, size_t n) throw() { for (size_t i = n; i-- > 0;) if (((const unsigned char*)p)[i] == (unsigned char)c) return (char*)p + i; return 0; }
RT void* memmem(const void* h, size_t n, const void* e, size_t m) throw() {
  for (size_t i = 0; i + m <= n; i++) { size_t k = 0; while (k < m && ((const char*)h)[i + k] == ((const char*)e)[k]) k++; if (k == m) return (char*)h + i; }
  return 0;
}
RT char* strchr(const char* s, int c) throw() { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
RT char* strrchr(const char* s, int c) throw() { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
RT char* strcpy(char* d, const char* s) throw() { char* r = d; while ((*d++ = *s++)) {} return r; }
RT char* stpcpy(char* d, const char* s) throw() { while ((*d = *s)) { d++; s++; } return d; }
RT char* strncpy(char* d, const char* s, size_t n) throw() { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
RT char* strcat(char* d, const char* s) throw() { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
RT char* strncat(char* d, const char* s, size_t n) throw() { char* r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
RT int strncmp(const char* a, const char* b, size_t n) throw() { for (; n--; a++, b++) { if (*a != *b) return *(const unsigned char*)a < *(const unsigned char*)b ? -1 : 1; if (!*a) return 0; } return 0; }
RT char* strstr(const char* h, const char* n) throw() { for (;; h++) { size_t k = 0; while (n[k] && h[k] == n[k]) k++; if (!n[k]) return (char*)h; if (!*h) return 0; } }
RT size_t strnlen(const char* s, size_t n) throw() { size_t i = 0; while (i < n && s[i]) i++; return i; }
RT size_t strspn(const char* s, const char* a) throw() { size_t i = 0; for (; s[i]; i++) { const char* q = a; while (*q && *q != s[i]) q++; if (!*q) break; } return i; }
RT size_t strcspn(const char* s, const char* a) throw() { size_t i = 0; for (; s[i]; i++) { const char* q = a; while (*q && *q != s[i]) q++; if (*q) break; } return i; }
RT long lround(double x) throw() { return (long)(x < 0 ? x - 0.5 : x + 0.5); }
RT long lroundf(float x) throw() { return (long)(x < 0 ? x - 0.5f : x + 0.5f); }
