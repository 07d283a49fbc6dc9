// The effort of the parsers on long inputs: memory and steps stay within a fixed
// amount and a multiple of the number of bytes.
#include <vector>
#include "sx.h"
#include "bytes.h"
#include "bitw.h"
#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_common.h"
#include "h265_configuration_box_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_pps_parser.h"
#include "h265_rtp_parser.h"
#include "h265_sei_parser.h"
#include "h265_slice_parser.h"
#include "h265_sps_parser.h"
#include "h265_vps_parser.h"
using namespace h265nal;

static void be(std::vector<uint8_t>& v, unsigned k, uint64_t x) { while (k--) v.push_back((uint8_t)(x >> (8 * k))); }
// the repeated unit: k free bytes, the same ones every time
static std::vector<uint8_t> pattern(unsigned k) {
  std::vector<uint8_t> p;
  for (unsigned i = 0; i < k; i++) p.push_back((uint8_t)sx_elem(8, "pattern"));
  return p;
}
static void add(std::vector<uint8_t>& v, const std::vector<uint8_t>& p) { for (uint8_t c : p) v.push_back(c); }
// template bits for the front of a NAL unit, without its trailing bits
static void front(std::vector<uint8_t>& v, const BitW& w, unsigned drop) { std::vector<uint8_t> t; w.to(t); for (size_t i = 0; i + drop < t.size(); i++) v.push_back(t[i]); }
// params: what, k (free bytes of the repeated unit), r (how often), k2 and r2 (the same, of the end), type (NAL unit type), sum (checksum)
SX_ENTRY e_cost() {
  int what = (int)sx_param("what");
  unsigned k = (unsigned)sx_param("k"), r = (unsigned)sx_param("r"), type = sx_param("type") > 0 ? (unsigned)sx_param("type") : 0;
  H265BitstreamParserState st;
  ParsingOptions po;
  po.add_checksum = sx_param("sum") == 1;
  std::vector<uint8_t> v, p = pattern(k);
  uint64_t more = 0;
  if (unsigned n = sx_param("small") > 0 ? (unsigned)sx_param("small") : 0) {  // a small number, n bytes
    for (unsigned i = 0; i + 2 < n; i++) p.push_back(0);
    if (n > 1) p.push_back((uint8_t)sx_choose(2, "high"));
    p.push_back((uint8_t)sx_choose(20, "low"));
  }
  auto unit = [&](unsigned t) { std::vector<uint8_t> u; u.push_back((uint8_t)(t << 1)); u.push_back(1); add(u, p); return u; };
  switch (what) {
    case 0: for (unsigned i = 0; i < r; i++) add(v, p); break;  // anything, repeated
    case 1: case 2: case 3: {  // NAL units behind start codes, behind lengths of `what` bytes
      auto u = unit(type);
      unsigned lb = (unsigned)sx_param("lb");
      if (what == 1 && type >= 32 && type <= 34) { u.clear(); (type == 32 ? nal_vps(1) : type == 33 ? nal_sps(0) : nal_pps(0, 0, 2, 1)).to(u); add(u, p); }
      for (unsigned i = 0; i < r; i++) { if (what == 1) { v.push_back(0); v.push_back(0); v.push_back(1); } else be(v, lb, u.size()); add(v, u); }
      break;
    }
    case 4:  // one NAL unit: header and free bytes over and over
      v.push_back((uint8_t)(type << 1)); v.push_back(1);
      for (unsigned i = 0; i < r; i++) add(v, p);
      break;
    case 5: {  // a set followed by anything, with its extension data flag set
      BitW w = type == 32 ? nal_vps(1) : type == 33 ? nal_sps(0) : nal_pps(0, 0, 2, 1);
      // drop the trailing bits and set the last flag
      while (w.b.size() && !w.b.back()) w.b.pop_back();
      w.b.pop_back();
      w.b.back() = 1;
      if (type != 32) { w.u(4, 0); w.u(4, 1); }
      while (w.b.size() % 8) w.b.push_back(0);
      w.to(v);
      for (unsigned i = 0; i < r; i++) add(v, p);
      break;
    }
    case 6: {  // a slice with a long payload
      st.sps[0] = [&] { std::vector<uint8_t> x; nal_sps(0).to(x); BitBuffer b(x.data() + 2, x.size() - 2); return H265SpsParser::ParseSps(&b); }();
      st.pps[0] = [&] { std::vector<uint8_t> x; nal_pps(0, 0, 2, 1).to(x); BitBuffer b(x.data() + 2, x.size() - 2); return H265PpsParser::ParsePps(&b); }();
      nal_slice(type, 1, 0, 5, 0, 2, 1).to(v);
      for (unsigned i = 0; i < r; i++) add(v, p);
      break;
    }
    case 7:  // an SEI NAL unit with a message of r bytes of 255 for the type, or for the size
      v.push_back((uint8_t)(type << 1)); v.push_back(1);
      { static const uint8_t ty[] = {4, 5, 137, 200}; int w = sx_choose(5, "which"); if (w) v.push_back(ty[w - 1]); }
      for (unsigned i = 0; i < r; i++) v.push_back(0xff);
      add(v, p);
      break;
    case 8:  // an SEI NAL unit with a long message
      v.push_back((uint8_t)(type << 1)); v.push_back(1);
      v.push_back((uint8_t)sx_param("sei"));
      for (unsigned i = 0; i < r * k / 255; i++) v.push_back(0xff);
      v.push_back((uint8_t)(r * k % 255));
      for (unsigned i = 0; i < r; i++) add(v, p);
      v.push_back(0x80);
      break;
    case 9: {  // an aggregation packet
      auto u = unit(type);
      v.push_back(0x60); v.push_back(1);
      for (unsigned i = 0; i < r; i++) { be(v, 2, u.size()); add(v, u); }
      break;
    }
    case 10: case 11: {  // hvcC: arrays of one NAL unit; one array of NAL units
      v.push_back(1); be(v, 6, 0x600000); be(v, 5, 0); v.push_back(93); be(v, 2, 0xf000); v.push_back(0xfc); v.push_back(0xfd); v.push_back(0xf8); v.push_back(0xf8); be(v, 2, 0); v.push_back(0x0f);
      auto u = unit(type);
      v.push_back((uint8_t)(what == 10 ? r : 1));
      if (what == 11) { v.push_back((uint8_t)type); be(v, 2, r); }
      for (unsigned i = 0; i < r; i++) { if (what == 10) { v.push_back((uint8_t)type); be(v, 2, 1); } be(v, 2, u.size()); add(v, u); }
      break;
    }
    case 12:  // hvcC: counts that announce far more than there is
      v.push_back(1); be(v, 6, 0x600000); be(v, 5, 0); v.push_back(93); be(v, 2, 0xf000); v.push_back(0xfc); v.push_back(0xfd); v.push_back(0xf8); v.push_back(0xf8); be(v, 2, 0); v.push_back(0x0f);
      v.push_back((uint8_t)sx_elem(8, "arrays")); v.push_back(0x20); { uint64_t c = sx_elem(16, "units"); be(v, 2, c); }
      if (sx_choose(2, "length")) be(v, 2, sx_choose(2, "largest") ? 65535 : 4);
      add(v, p);
      more = 256;  // the room one NAL unit of the largest size takes
      break;
  }
  if (what == 14) {  // an aggregation packet that announces far more than there is
    v.push_back(0x60); v.push_back(1);
    be(v, 2, sx_choose(2, "largest") ? 65535 : 4000);
    add(v, p);
  }
  if (what == 13) {  // slices that refer to a large SPS and to a PPS with many tiles
    BitW w = nalhdr(33);
    w.u(4, 0).u(3, 0).u(1, 1).u(2, 0).u(1, 0).u(5, 1).u(32, 0x60000000).u(4, 9).u(43, 0x12345678).u(1, 0).u(8, 93);
    w.ue(0).ue(1).ue(64).ue(64).u(1, 0).ue(0).ue(0).ue(4).u(1, 1).ue(15).ue(0).ue(0).ue(0).ue(1).ue(0).ue(0).ue(0).ue(0);
    w.u(1, 0).u(1, 0).u(1, 0).u(1, 0).ue(64);
    for (int i = 0; i < 64; i++) { if (i) w.u(1, 0); w.ue(15).ue(0); for (int j = 0; j < 15; j++) w.ue(0).u(1, 1); }
    w.u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).trail();
    put(v, w, false);
    put(v, nal_pps(0, 0, 2, 1), false);
    BitW x = nalhdr(type);
    x.u(1, 1);
    if (type >= 16) x.u(1, 0);
    x.ue(0).ue(2);
    if (type < 16) x.u(8, 5).u(1, 1).u(6, sx_elem(6, "idx"));
    x.ue(0).trail();
    for (unsigned i = 0; i < r; i++) put(v, x, false);
  }
  // something else repeated after that
  unsigned k2 = sx_param("k2") > 0 ? (unsigned)sx_param("k2") : 0;
  std::vector<uint8_t> q = pattern(k2);
  for (unsigned i = 0; i < (k2 ? (unsigned)sx_param("r2") : 0); i++) add(v, q);
  uint8_t* d = exact(v);
  size_t n = v.size();
  // many small NAL units take more than one large one
  sx_effort(n + more, sx_param("heap") > 0 ? (uint64_t)sx_param("heap") : 512);
  switch (what) {
    case 0:
      switch (sx_param("how")) {
        case 0: (void)UnescapeRbsp(d, n); break;
        case 1: (void)H265BitstreamParser::FindNaluIndices(d, n); break;
        case 2: (void)H265BitstreamParser::FindNaluIndicesExplicitFraming(d, n); break;
        case 3: (void)H265BitstreamParser::ParseBitstream(d, n, po); break;
        case 4: (void)H265BitstreamParser::ParseBitstreamNALULength(d, n, (size_t)sx_param("lb"), po); break;
        case 5: (void)H265RtpParser::ParseRtp(d, n, &st); break;
      }
      break;
    case 1: (void)H265BitstreamParser::ParseBitstream(d, n, po); break;
    case 13: {
      auto b = H265BitstreamParser::ParseBitstream(d, n, po);
      sx_effort_end();
      auto& l = b->nal_units.back()->nal_unit_payload->slice_segment_layer;
      if (b->nal_units.size() == r + 2 && l && l->slice_segment_header) sx_cover("slices");
      break;
    }
    case 2: (void)H265BitstreamParser::ParseBitstreamNALULength(d, n, (size_t)sx_param("lb"), po); break;
    case 3: (void)H265BitstreamParser::FindNaluIndicesExplicitFraming(d, n); break;
    case 4: case 5: case 6: case 7: case 8: (void)H265NalUnitParser::ParseNalUnit(d, n, &st, po); break;
    case 9: case 14: (void)H265RtpParser::ParseRtp(d, n, &st); break;
    default: (void)H265ConfigurationBoxParser::ParseConfigurationBox(d, n, &st, po); break;
  }
  sx_effort_end();
  sx_cover("done");
  delete[] d;
}
