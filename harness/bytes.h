// Helpers of the byte-level harnesses
#pragma once
#include "sx.h"
// exact size: any byte outside is out of bounds
static inline uint8_t* mkbytes(unsigned n, const char* name) {
  uint8_t* p = new uint8_t[n];
  for (unsigned i = 0; i < n; i++) p[i] = (uint8_t)sx_elem(8, name);
  return p;
}
