// The command line tool: its options, reports and dumps.
#include <getopt.h>
#include <stdio.h>
#include <stdlib.h>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "sx.h"
#include "bitw.h"
static bool g_may_exit;
[[noreturn]] static void tool_exit(int) { sx_check(g_may_exit, "the tool gives up"); sx_stop(); }
#define main h265nal_tool_main
#define exit tool_exit
#include "h265nal.cc"
#undef exit
#undef main
using namespace h265nal;

struct Args {
  const char* v[24];
  int n = 0;
  Args() { v[n++] = "h265nal"; }
  Args& add(const char* a) { v[n++] = a; return *this; }
  Args& add(const char* a, const char* b) { return add(a).add(b); }
  int run() { v[n] = nullptr; return h265nal_tool_main(n, (char**)v); }
};
// the output of one run as text, and that of f, have to be the same
template <class F> static void same(const char* label, F f) {
  sx_vfs_done();
  int got = sx_text_save();
  sx_log_reset();
  f(sx_file());
  sx_check(sx_text_same(got), label);
}
struct Unit { unsigned type, first, len; uint64_t addr, poc; bool slice; };
static void frame(std::vector<uint8_t>& o, const BitW& w, int prefix, Unit& u, unsigned i) {
  std::vector<uint8_t> t;
  put(t, w, false);
  u.len = (unsigned)t.size() - 3;
  if (prefix) for (int k = prefix; k-- > 0;) o.push_back((uint8_t)(u.len >> (8 * k)));
  else { if (i & 1) o.push_back(0); o.push_back(0); o.push_back(0); o.push_back(1); }
  for (size_t k = 3; k < t.size(); k++) o.push_back(t[k]);
}
static BitW plain(unsigned type, unsigned bytes) { BitW w = nalhdr(type); for (unsigned i = 0; i < bytes; i++) w.u(8, sx_elem(8, "content") | 0x80); return w; }

#ifdef FDUMP_DEFINE
// ---------------------------------------------------------------- lengths
// params: units, prefix (length field size, 0: start codes), options
SX_ENTRY e_toollen() {
  sx_log_reset();
  unsigned n = (unsigned)sx_param("units");
  int prefix = (int)sx_param("prefix");
  std::vector<uint8_t> o;
  std::vector<Unit> us;
  bool sets = sx_choose(2, "sets") == 1;
  for (unsigned i = 0; i < n + 2; i++) {
    Unit u = {0, 0, 0, 0, 0, false};
    BitW w;
    if (i < 2) {
      if (!sets) continue;
      u.type = i ? 34 : 33;
      w = i ? nal_pps(0, 0, 2, 1) : nal_sps(0);
    } else {
      int kind = sx_choose(6, "kind");
      if (kind == 0) { u.type = (unsigned)sx_elem(1, "sei") ? 40 : 39; w = plain(u.type, 3); }
      if (kind == 1) { w = nalhdr(48); u.type = 48; w.u(8, 0x5a); }
      if (kind == 2) { u.first = 1; u.type = 20; }
      if (kind == 3) { u.first = 1; u.type = (unsigned)(sx_elem(1, "type") ? 1 : 21); u.poc = sx_elem(8, "poc"); }
      if (kind == 4) { u.first = 0; u.type = 1; u.poc = sx_elem(8, "poc"); u.addr = sx_elem(4, "address"); }
      if (kind == 5) { w.u(8, 0x46); }  // cut off inside the header
      if (kind >= 2 && kind <= 4) { u.slice = sets; unsigned z = i == 3 ? 9 : 2; w = nal_slice(u.type, u.first, u.addr, u.poc, 0, z, z == 9 ? 1 : sx_elem(z, "code")); }
    }
    frame(o, w, prefix, u, i);
    if (u.type) us.push_back(u);
  }
  uint8_t* d = exact(o);
  Args a;
  char fps[4] = {0, 0, 0, 0};
  uint64_t rate = 30;
  bool given = sx_choose(2, "rate given") == 1;
  a.add("--dump-length").add("-i", sx_vfs_add(d, o.size())).add("-o", sx_vfs_out());
  if (given) {
    uint64_t x = sx_elem(4, "fps"), y = sx_elem(4, "fps");
    sx_assume(x < 10);
    sx_assume(y < 10);
    fps[0] = (char)('0' + x); fps[1] = (char)('0' + y);
    rate = x * 10 + y;
    a.add("--frames-per-second", fps);
  }
  char len[2] = {(char)('0' + prefix), 0};
  if (prefix) a.add("--nalu-length-bytes", len);
  sx_check(a.run() == 0, "exit status");
  same("length report", [&](FILE* f) {
    fprintf(f, "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_slice_segment_in_pic_flag,slice_segment_address,slice_pic_order_cnt_lsb\n");
    size_t bytes = 0, frames = 0, num = 0;
    unsigned last = 0;
    auto flush = [&]() { if (bytes) { sx_cover("frame"); fprintf(f, ",%zu,%u,frame,,%zu,,,\n", frames, last, (size_t)(bytes * 8 * rate)); } };
    for (auto& u : us) {
      if (u.slice && u.first && bytes) { flush(); frames++; bytes = 0; }
      if (u.slice) { bytes += u.len; last = u.type; }
      fprintf(f, "%zu,%zu,%u,%s,%u,,", num++, frames, u.type, NalUnitTypeToString(u.type).c_str(), u.len);
      if (u.slice) fprintf(f, "%u,%u,%u\n", u.first, (unsigned)u.addr, (unsigned)u.poc); else fprintf(f, ",,\n");
    }
    flush();
  });
  delete[] d;
}

// ---------------------------------------------------------------- long reports
// params: n (slices), every (slices in a frame), big (bytes of slice data in one of them)
SX_ENTRY e_toollong() {
  sx_log_reset();
  unsigned n = (unsigned)sx_param("n"), every = (unsigned)sx_param("every"), big = (unsigned)sx_param("big");
  int prefix = sx_choose(2, "framing") ? 3 : 0;
  std::vector<uint8_t> o;
  std::vector<Unit> us;
  for (unsigned i = 0; i < n + 2; i++) {
    Unit u = {0, 0, 0, 0, 0, false};
    BitW w;
    if (i < 2) { u.type = i ? 34 : 33; w = i ? nal_pps(0, 0, 2, 1) : nal_sps(0); }
    else {
      unsigned k = i - 2;
      bool sym = k == (n < 254 ? n - 1 : 254);
      u.slice = true;
      u.first = k % every == 0; u.type = 1;
      u.poc = sym ? sx_elem(8, "poc") : (k / every) & 255;
      u.addr = u.first ? 0 : sym ? sx_elem(4, "address") : k & 15;
      w = nal_slice(u.type, u.first, u.addr, u.poc, 0, 2, 1);
      if (k == 1) for (unsigned j = 0; j < big; j++) w.u(8, 0x55);
    }
    frame(o, w, prefix, u, i);
    us.push_back(u);
  }
  uint8_t* d = exact(o);
  Args a;
  bool fast = sx_choose(2, "rate") == 1;
  uint64_t rate = fast ? 1000003 : 30;
  a.add("--dump-length").add("-i", sx_vfs_add(d, o.size())).add("-o", sx_vfs_out());
  if (fast) a.add("--frames-per-second", "1000003");
  if (prefix) a.add("--nalu-length-bytes", "3");
  sx_check(a.run() == 0, "exit status");
  same("length report", [&](FILE* f) {
    fprintf(f, "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_slice_segment_in_pic_flag,slice_segment_address,slice_pic_order_cnt_lsb\n");
    size_t bytes = 0, frames = 0, num = 0;
    auto flush = [&]() { sx_cover("frame"); fprintf(f, ",%zu,1,frame,,%zu,,,\n", frames, (size_t)(bytes * 8 * rate)); };
    for (auto& u : us) {
      if (u.slice && u.first && bytes) { flush(); frames++; bytes = 0; }
      if (u.slice) bytes += u.len;
      fprintf(f, "%zu,%zu,%u,%s,%u,,", num++, frames, u.type, NalUnitTypeToString(u.type).c_str(), u.len);
      if (u.slice) fprintf(f, "%u,%u,%u\n", u.first, (unsigned)u.addr, (unsigned)u.poc); else fprintf(f, ",,\n");
    }
    flush();
  });
  delete[] d;
}

// ---------------------------------------------------------------- dumps
static const struct { const char *on, *off; } kFlags[] = {
  {"--as-one-line", "--no-as-one-line"}, {"--add-offset", "--no-add-offset"}, {"--add-length", "--no-add-length"}, {"--add-parsed-length", "--no-add-parsed-length"},
  {"--add-checksum", "--no-add-checksum"}, {"--add-resolution", "--no-add-resolution"}, {"--add-contents", "--no-add-contents"}};
// params: opts (number of flags on the command line), units, box
SX_ENTRY e_tooldump() {
  sx_log_reset();
  bool flag[7] = {true, false, false, false, false, false, false};
  Args a;
  int k = (int)sx_param("opts");
  for (int i = 0; i < k; i++) {
    int c = sx_choose(7, "flag"), on = sx_choose(2, "on");
    a.add(on ? kFlags[c].on : kFlags[c].off);
    flag[c] = on;
  }
  // printed checksums need concrete bytes
  bool fixed = flag[4];
  std::vector<uint8_t> o, box;
  unsigned n = (unsigned)sx_param("units");
  int prefix = sx_choose(2, "start codes") ? 0 : (int)sx_param("prefix");
  bool withbox = sx_param("box") == 1 && sx_choose(2, "box");
  Unit u;
  std::vector<std::pair<size_t, size_t>> at;
  for (unsigned i = 0; i < n; i++) {
    int kind = sx_choose(5, "kind");
    BitW w;
    auto any = [&](unsigned b) { return fixed ? 1 : sx_elem(b, "any"); };
    if (kind == 0) { w = nalhdr(48 + i); for (int j = 0; j < (i ? 1 : 18); j++) w.u(8, 0x80 | any(7)); }
    if (kind == 1) w = nal_sps(0);
    if (kind == 2) w = nal_pps(0, 0, 2, any(2));
    if (kind == 3) w = nal_slice(20, 1, 0, 0, 0, 2, any(2));
    if (kind == 4) w.u(8, 0x46);
    frame(o, w, prefix, u, i);
    if (kind != 4) at.push_back({o.size() - u.len, u.len});
  }
  if (withbox) {
    std::vector<uint8_t> b = {1, 0x41, 0x60, 0, 0, 0, 9, 8, 7, 6, 5, 4, 93, 0xf0, 3, 0xfc, 0xfd, 0xf8, 0xfa, 1, 2, 0x0f, 2};
    for (int i = 0; i < 2; i++) {
      std::vector<uint8_t> t;
      put(t, i ? nal_pps(0, 0, 2, 1) : nal_sps(0), false);
      b.push_back((uint8_t)(0xa1 + i)); b.push_back(0); b.push_back(1); b.push_back(0); b.push_back((uint8_t)(t.size() - 3));
      for (size_t j = 3; j < t.size(); j++) b.push_back(t[j]);
    }
    box = b;
  }
  uint8_t *d = exact(o), *bd = exact(box);
  if (withbox) a.add("--hvcc-file", sx_vfs_add(bd, box.size()));
  a.add("-i", sx_vfs_add(d, o.size())).add("-o", sx_vfs_out());
  char len[2] = {(char)('0' + prefix), 0};
  if (prefix) a.add("--nalu-length-bytes", len);
  else if (sx_choose(2, "explicit")) a.add("--nalu-length-bytes", "-1");
  sx_check(a.run() == 0, "exit status");
  ParsingOptions po;
  if (flag[6]) flag[1] = flag[2] = true;
  po.add_offset = flag[1]; po.add_length = flag[2]; po.add_parsed_length = flag[3]; po.add_checksum = flag[4]; po.add_resolution = flag[5];
  H265BitstreamParserState st;
  auto c = withbox ? H265ConfigurationBoxParser::ParseConfigurationBox(bd, box.size(), &st, po) : nullptr;
  auto bs = prefix ? H265BitstreamParser::ParseBitstreamNALULength(d, o.size(), (size_t)prefix, &st, po) : H265BitstreamParser::ParseBitstream(d, o.size(), &st, po);
  sx_check(bs && bs->nal_units.size() == at.size() && (c != nullptr) == withbox, "library");
  if (!bs || bs->nal_units.size() != at.size()) return;
  same("dump", [&](FILE* f) {
    int ind = flag[0] ? -1 : 0;
    if (c) { sx_cover("box"); c->fdump(f, ind, po); fprintf(f, "\n"); }
    size_t k = 0;
    for (auto& nu : bs->nal_units) {
      nu->fdump(f, ind, po);
      if (flag[6]) {
        sx_cover("contents");
        fprintf(f, " contents {");
        for (size_t i = 0; i < at[k].second; i++) { fprintf(f, " %02x", d[at[k].first + i]); if (i % 16 == 15) fprintf(f, " "); }
        fprintf(f, " }");
      }
      fprintf(f, "\n");
      k++;
    }
  });
  delete[] d;
  delete[] bd;
}

// ---------------------------------------------------------------- option values
// params: max (characters), fps, digits (around the largest int)
SX_ENTRY e_toolvalue() {
  sx_log_reset();
  bool fps = sx_param("fps") == 1;
  int digits = (int)sx_param("digits"), n = digits > 0 ? digits : 1 + sx_choose((int)sx_param("max"), "characters");
  char t[16] = {0};
  bool neg = false, good = true;
  unsigned long v = 0;
  for (int i = 0; i < n; i++) {
    uint64_t c = digits > 0 && i < digits - 3 ? (uint64_t)"2147483"[i] : sx_elem(8, "character");
    if (digits > 0) sx_assume(c >= '0' && c <= '9'); else sx_assume(c != 0 && c != 32 && !(c >= 9 && c <= 13));
    t[i] = (char)c;
    bool sign = i == 0 && n > 1 && (c == '-' || c == '+');
    if (sign) { if (c == '-') neg = true; }
    else if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
    else good = false;
  }
  if (v > 0x7fffffff) good = false;
  if (neg && v > (fps ? 0 : 1)) good = false;
  std::vector<uint8_t> o;
  Unit u;
  frame(o, nal_sps(0), 1, u, 0);
  frame(o, nal_pps(0, 0, 2, 1), 1, u, 0);
  frame(o, nal_slice(20, 1, 0, 0, 0, 2, 1), 1, u, 0);
  uint8_t* d = exact(o);
  Args a;
  a.add("--infile", sx_vfs_add(d, o.size())).add("--outfile", sx_vfs_out());
  if (fps) a.add("--dump-all").add("--dump-length").add("--nalu-length-bytes", "1").add("--frames-per-second", t);
  else a.add("--dump-length").add("--dump-all").add("--nalu-length-bytes", t);
  g_may_exit = !good;
  int rc = a.run();
  sx_check(good, "a malformed option value is accepted");
  sx_check(rc == 0, "exit status");
  if (!good) return;
  sx_cover("value");
  if (fps) {
    same("frame rate", [&](FILE* f) {
      fprintf(f, "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_slice_segment_in_pic_flag,slice_segment_address,slice_pic_order_cnt_lsb\n");
      size_t at = 0, k = 0;
      const unsigned type[] = {33, 34, 20};
      for (; at < o.size(); k++) { unsigned l = d[at]; fprintf(f, "%zu,0,%u,%s,%u,,%s\n", k, type[k], NalUnitTypeToString(type[k]).c_str(), l, k == 2 ? "1,0,0" : ",,"); if (k == 2) fprintf(f, ",0,20,frame,,%zu,,,\n", (size_t)l * 8 * v); at += l + 1; }
    });
    return;
  }
  ParsingOptions po;
  po.add_offset = po.add_length = po.add_parsed_length = po.add_checksum = po.add_resolution = false;
  H265BitstreamParserState st;
  auto bs = neg && v == 1 ? H265BitstreamParser::ParseBitstream(d, o.size(), &st, po) : H265BitstreamParser::ParseBitstreamNALULength(d, o.size(), v, &st, po);
  if (bs) same("framing", [&](FILE* f) { for (auto& nu : bs->nal_units) { nu->fdump(f, -1, po); fprintf(f, "\n"); } });
  delete[] d;
}

#endif
// ---------------------------------------------------------------- anything
// any file in any framing never makes the tool misbehave
SX_ENTRY e_toolany() {
  sx_log_reset();
  unsigned n = 1 + (unsigned)sx_choose((int)sx_param("max"), "length");
  int mode = sx_choose(3, "mode"), prefix = sx_choose(4, "framing");
  std::vector<uint8_t> o;
  for (unsigned i = 0; i < n; i++) o.push_back((uint8_t)sx_elem(8, "byte"));
  if (prefix == 0) { o.insert(o.begin(), {0, 0, 1}); }
  uint8_t* d = exact(o);
  Args a;
  a.add(mode == 0 ? "--dump-length" : mode == 1 ? "--add-contents" : "--no-as-one-line").add("-o", sx_vfs_out());
  g_may_exit = false;
  if (prefix == 3) a.add("--hvcc-file", sx_vfs_add(d, o.size()));
  else a.add("-i", sx_vfs_add(d, o.size()));
  if (prefix) a.add("--nalu-length-bytes", prefix == 1 ? "0" : "1");
  int rc = a.run();
  sx_check(rc == 0 || prefix == 3, "exit status");
  sx_cover("ran");
  delete[] d;
}

// ---------------------------------------------------------------- ReadFile
SX_ENTRY e_readfile() {
  unsigned n = (unsigned)sx_choose((int)sx_param("max") + 1, "length");
  std::vector<uint8_t> o;
  for (unsigned i = 0; i < n; i++) o.push_back((uint8_t)sx_elem(8, "byte"));
  uint8_t* d = exact(o);
  std::vector<uint8_t> b;
  unsigned old = (unsigned)sx_choose(2, "used") * 3;
  for (unsigned i = 0; i < old; i++) b.push_back(7);
  int rc = H265Utils::ReadFile(sx_vfs_add(d, n), b);
  if (n == 0) { sx_check(rc != 0, "an empty file is refused"); }
  else {
    sx_check(rc == 0 && b.size() == n, "the whole file is read");
    for (unsigned i = 0; i < n && i < b.size(); i++) sx_check(b[i] == d[i], "content");
  }
  sx_check(H265Utils::ReadFile("/nonexistent/h265", b) != 0, "a missing file is refused");
  delete[] d;
}
