// Framing layers on symbolic bytes: Annex B, length-prefixed streams, NAL unit
// headers, RTP payloads, the configuration box, checksums.
#include <cstring>
#include <vector>
#include "sx.h"
#include "bytes.h"
#include "h265_aud_parser.h"
#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_configuration_box_parser.h"
#include "h265_nal_unit_header_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_rtp_parser.h"
using namespace h265nal;

static unsigned len_choice() {
  int lo = (int)sx_param("min"), hi = (int)sx_param("max");
  if (lo < 0) lo = 0;
  return (unsigned)(lo + sx_choose(hi - lo + 1, "len"));
}

// param base: so many fixed bytes (0xff) in front of those explored
static unsigned nbase() { int64_t b = sx_param("base"); return b > 0 ? (unsigned)b : 0; }
static uint8_t* mkfar(unsigned n, unsigned b) {
  if (!b) return mkbytes(n, "byte");
  uint8_t* p = new uint8_t[n + b];
  memset(p, 0xff, b);
  for (unsigned i = 0; i < n; i++) p[b + i] = (uint8_t)sx_elem(8, "byte");
  return p;
}

// param many: so many small NAL units in front of the bytes explored
static unsigned nmany() { int64_t b = sx_param("many"); return b > 0 ? (unsigned)b : 0; }
static uint8_t* put_be(uint8_t* p, unsigned L, uint64_t v) { for (unsigned i = L; i-- > 0;) *p++ = (uint8_t)(i < 8 ? v >> 8 * i : 0); return p; }

// ---------------------------------------------------------------- Annex B
struct Idx { size_t s, p, n; };
static std::vector<Idx> ref_annexb(const uint8_t* d, size_t n) {
  std::vector<Idx> r;
  for (size_t i = 0; i + 3 < n;) {
    if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) {
      size_t s = i > 0 && d[i - 1] == 0 ? i - 1 : i;
      if (!r.empty()) r.back().n = s - r.back().p;
      r.push_back({s, i + 3, 0});
      i += 3;
    } else i++;
  }
  if (!r.empty()) r.back().n = n - r.back().p;
  return r;
}
SX_ENTRY2(e_annexb) {
  unsigned n = len_choice(), many = nmany(), f = many ? many * 5 : nbase();
  uint8_t* d = mkfar(n, f);
  if (many) for (unsigned i = 0; i < many; i++) { put_be(d + 5 * i, 3, 1); d[5 * i + 3] = 0x52; }
  else if (f) { d[1] = d[2] = 0; d[3] = 1; }  // a NAL unit starts there
  n += f;
  auto got = H265BitstreamParser::FindNaluIndices(d, n);
  auto want = ref_annexb(d, n);
  sx_check(got.size() == want.size(), "number of NAL units");
  for (size_t i = 0; i < got.size() && i < want.size(); i++) {
    sx_check(got[i].start_offset == want[i].s, "start of the start code");
    sx_check(got[i].payload_start_offset == want[i].p, "start of the NAL unit");
    sx_check(got[i].payload_size == want[i].n, "size of the NAL unit");
  }
  if (want.size() == 1) sx_cover("one");
  if (want.size() >= 2) sx_cover("several");
  delete[] d;
}

// ---------------------------------------------------------------- lengths
SX_ENTRY2(e_framed) {
  unsigned n = len_choice(), many = nmany(), f = many ? many * 6 : nbase();
  uint8_t* d = mkfar(n, f);
  if (many) for (unsigned i = 0; i < many; i++) put_be(d + 6 * i, 4, 2);
  else if (f) put_be(d, 4, f - 4);
  n += f;
  auto got = H265BitstreamParser::FindNaluIndicesExplicitFraming(d, n);
  size_t i = 0, k = 0;
  while (i + 4 <= n) {
    uint64_t l = (uint64_t)d[i] << 24 | (uint64_t)d[i + 1] << 16 | (uint64_t)d[i + 2] << 8 | d[i + 3];
    if (l > n - i - 4) break;
    l = sx_concretize(l);
    sx_check(k < got.size(), "number of NAL units");
    if (k < got.size()) {
      sx_check(got[k].start_offset == i, "start of the length field");
      sx_check(got[k].payload_start_offset == i + 4, "start of the NAL unit");
      sx_check(got[k].payload_size == l, "size of the NAL unit");
    }
    k++;
    i += 4 + l;
  }
  sx_check(got.size() == k, "number of NAL units");
  if (k > 1) sx_cover("several");
  delete[] d;
}

// types whose payload is not parsed any further (or is an AUD)
static bool light(uint64_t t) {
  uint64_t all = 0xfffffe00ull << 32 | 0x78ull << 32 | 0xffc0fc00ull;  // 10..15, 22..31, 35..38, 41..63
  if (sx_param("few") == 1) all = 1ull << 35 | 1ull << 41;
  return (all >> (t & 63)) & 1;
}
static unsigned nut(const uint8_t* h) { return (h[0] >> 1) & 63; }
static void check_header(const H265NalUnitHeaderParser::NalUnitHeaderState& s, const uint8_t* h) {
  sx_check(s.forbidden_zero_bit == (h[0] >> 7), "forbidden_zero_bit");
  sx_check(s.nal_unit_type == nut(h), "nal_unit_type");
  sx_check(s.nuh_layer_id == (unsigned)((h[0] & 1) << 5 | h[1] >> 3), "nuh_layer_id");
  sx_check(s.nuh_temporal_id_plus1 == (unsigned)(h[1] & 7), "nuh_temporal_id_plus1");
}
// payload: everything after the header, still escaped
static void check_light_payload(const H265NalUnitPayloadParser::NalUnitPayloadState& p, uint64_t type, const uint8_t* d, size_t n) {
  sx_check(!p.vps && !p.sps && !p.pps && !p.sei && !p.slice_segment_layer, "only the payload of the type is parsed");
  if (type == 35 && n > 0) {
    sx_check(p.aud != nullptr, "access unit delimiter parsed");
    if (p.aud) sx_check(p.aud->pic_type == (unsigned)(d[0] >> 5), "pic_type");
  } else sx_check(p.aud == nullptr, "only the payload of the type is parsed");
}

// params: size (of the length field)
SX_ENTRY2(e_nalulen) {
  unsigned n = len_choice(), L = (unsigned)sx_param("size"), many = nmany(), f = many ? many * (L + 3) : nbase();
  uint8_t* d = mkfar(n, f);
  if (many) for (unsigned i = 0; i < many; i++) *put_be(d + (L + 3) * i, L, 3) = 0x52;
  else if (f) { for (unsigned i = 0; i < L; i++) d[i] = (uint8_t)(L - 1 - i < 4 ? (f - L) >> 8 * (L - 1 - i) : 0); d[L] = 0x52; }
  n += f;
  struct U { size_t o, n; bool ok; };
  std::vector<U> want;
  size_t i = 0;
  while (i < n) {
    uint64_t l = 0;
    if (L == 0) l = n;
    else {
      if (L > n - i) break;
      for (unsigned k = 0; k < L; k++) l = l << 8 | d[i + k];
      i += L;
      if (l == 0 || l > n - i) break;
    }
    l = sx_concretize(l);
    if (l >= 2) sx_assume(light(nut(d + i)));
    want.push_back({i, l, l >= 2});
    i += l;
  }
  H265BitstreamParserState st;
  ParsingOptions po;
  po.add_checksum = false;
  auto bs = H265BitstreamParser::ParseBitstreamNALULength(d, n, L, &st, po);
  sx_check(bs != nullptr, "a stream is returned");
  if (bs) {
    size_t k = 0;
    for (auto& u : want) {
      if (!u.ok) { sx_cover("refused"); continue; }
      sx_check(k < bs->nal_units.size(), "number of NAL units");
      if (k >= bs->nal_units.size()) break;
      auto& g = *bs->nal_units[k++];
      sx_check(g.offset == u.o, "offset");
      sx_check(g.length == u.n, "length");
      check_header(*g.nal_unit_header, d + u.o);
      check_light_payload(*g.nal_unit_payload, nut(d + u.o), d + u.o + 2, u.n - 2);
    }
    sx_check(bs->nal_units.size() == k, "number of NAL units");
    if (k > 1) sx_cover("several");
    if (k == 1) sx_cover("one");
  }
  sx_check(st.vps.empty() && st.sps.empty() && st.pps.empty(), "no parameter set stored");
  delete[] d;
}

// ---------------------------------------------------------------- headers
SX_ENTRY2(e_header) {
  unsigned n = len_choice();
  uint8_t* d = mkbytes(n, "byte");
  NalUnitType t = (NalUnitType)255;
  bool ok = H265NalUnitHeaderParser::GetNalUnitType(d, n, t);
  sx_check(ok == (n >= 2), "type accepts");
  if (ok && n >= 2) sx_check((unsigned)t == nut(d), "type");
  auto h = H265NalUnitHeaderParser::ParseNalUnitHeader(d, n);
  sx_check((h != nullptr) == (n >= 2), "header accepts");
  if (h && n >= 2) {
    sx_cover("accepted");
    check_header(*h, d);
    sx_log_reset();
    h->fdump(sx_file(), 0);
    const char* f[] = {"forbidden_zero_bit", "nal_unit_type", "nuh_layer_id", "nuh_temporal_id_plus1"};
    uint64_t v[] = {h->forbidden_zero_bit, h->nal_unit_type, h->nuh_layer_id, h->nuh_temporal_id_plus1};
    for (int i = 0; i < 4; i++) sx_check(sx_dump_count(f[i]) == 1 && sx_dump_val(f[i], 0) == v[i], "dump");
  }
  delete[] d;
}
SX_ENTRY e_classes() {
  uint32_t t = (uint32_t)sx_elem(32, "type");
  // Table 7-1
  sx_check(IsSliceSegment(t) == (t <= 9 || (t >= 16 && t <= 21)), "slice segment");
  sx_check(IsNalUnitTypeVcl(t) == (t <= 31), "VCL");
  sx_check(IsNalUnitTypeNonVcl(t) == (t >= 32 && t <= 63), "non-VCL");
  sx_check(IsNalUnitTypeUnspecified(t) == (t >= 48 && t <= 63), "unspecified");
}
SX_ENTRY e_names() {
  static const char* const N[] = {"trail_n", "trail_r", "tsa_n", "tsa_r", "stsa_n", "stsa_r", "radl_n", "radl_r", "rasl_n", "rasl_r",
    "rsv_vcl_n10", "rsv_vcl_r11", "rsv_vcl_n12", "rsv_vcl_r13", "rsv_vcl_n14", "rsv_vcl_r15", "bla_w_lp", "bla_w_radl", "bla_n_lp",
    "idr_w_radl", "idr_n_lp", "cra", "rsv_irap_vcl22", "rsv_irap_vcl23", "rsv_vcl24", "rsv_vcl25", "rsv_vcl26", "rsv_vcl27",
    "rsv_vcl28", "rsv_vcl29", "rsv_vcl30", "rsv_vcl31", "vps", "sps", "pps", "aud", "eos", "eob", "fd", "prefix_sei", "suffix_sei",
    "rsv_nvcl41", "rsv_nvcl42", "rsv_nvcl43", "rsv_nvcl44", "rsv_nvcl45", "rsv_nvcl46", "rsv_nvcl47", "ap", "fu",
    "unspec50", "unspec51", "unspec52", "unspec53", "unspec54", "unspec55", "unspec56", "unspec57", "unspec58", "unspec59",
    "unspec60", "unspec61", "unspec62", "unspec63"};
  uint32_t t = (uint32_t)sx_elem(32, "type");
  std::string s = NalUnitTypeToString(t);
  const char* want = "unknown";
  if (t < 64) want = N[sx_concretize(t)];
  sx_check(s == want, "name of the type");
}

// ---------------------------------------------------------------- AUD
SX_ENTRY2(e_aud) {
  unsigned n = len_choice();
  uint8_t* d = mkbytes(n, "byte");
  auto a = H265AudParser::ParseAud(d, n);
  sx_check((a != nullptr) == (n >= 1), "accepts");
  if (a && n >= 1) {
    sx_cover("accepted");
    sx_check(a->pic_type == (unsigned)(d[0] >> 5), "pic_type");
    sx_log_reset();
    a->fdump(sx_file(), 0);
    sx_check(sx_dump_count("pic_type") == 1 && sx_dump_val("pic_type", 0) == a->pic_type, "dump");
  }
  delete[] d;
}

// ---------------------------------------------------------------- checksum
SX_ENTRY2(e_checksum) {
  unsigned n = len_choice(), f = nbase();
  uint8_t* d = mkfar(n, f);
  unsigned s = (unsigned)sx_choose((int)(n < 2 ? n : 2) + 1, "start");
  n += f;
  BitBuffer b(d, n);
  sx_check(b.Seek(s, 0), "seek");
  auto c = NaluChecksum::GetNaluChecksum(&b);
  // one's-complement sum of the big-endian 32-bit words, zero padded
  uint64_t sum = 0;
  for (unsigned i = s; i < n; i += 4) {
    uint32_t w = 0;
    for (unsigned k = 0; k < 4; k++) w |= (uint32_t)(i + k < n ? d[i + k] : 0) << (8 * (3 - k));
    sum += w;
  }
  sum = (sum & 0xffffffffu) + (sum >> 32);
  sum = (sum & 0xffffffffu) + (sum >> 32);
  uint32_t want = ~(uint32_t)sum;
  sx_check(c != nullptr, "a checksum is returned");
  if (c) {
    sx_check(c->GetLength() == 4, "length");
    for (int i = 0; i < 4; i++) sx_check((uint8_t)c->GetChecksum()[i] == (uint8_t)(want >> (24 - 8 * i)), "checksum");
    if (sx_param("print") == 1) {
      std::string p = c->GetPrintableChecksum();
      char buf[64];
      memset(buf, 1, sizeof buf);
      c->fdump(buf, 64);
      sx_check(p.size() == 8 && buf[8] == 0, "printed length");
      for (int i = 0; i < 8; i++) {
        unsigned h = (want >> (28 - 4 * i)) & 15;
        unsigned ch = (unsigned)sx_ite(h < 10, '0' + h, 'a' + h - 10);
        if (p.size() == 8) sx_check((uint8_t)p[i] == ch, "printed checksum");
        sx_check((uint8_t)buf[i] == ch, "dumped checksum");
      }
      char tiny[5];
      memset(tiny, 1, sizeof tiny);
      c->fdump(tiny, 5);
      sx_check(tiny[4] == 0 && (uint8_t)tiny[0] == (uint8_t)buf[0], "short output");
    }
  }
  size_t by = 99, bi = 99;
  b.GetCurrentOffset(&by, &bi);
  sx_check(by == s && bi == 0, "position");
  delete[] d;
}
// position inside a byte: terminates, leaves the position alone
SX_ENTRY e_checksum_unaligned() {
  unsigned n = len_choice();
  uint8_t* d = mkbytes(n, "byte");
  unsigned s = (unsigned)sx_choose((int)n * 8 + 1, "start");
  BitBuffer b(d, n);
  sx_check(b.Seek(s / 8, s % 8), "seek");
  auto c = NaluChecksum::GetNaluChecksum(&b);
  sx_check(c && c->GetLength() == 4, "a checksum is returned");
  size_t by = 99, bi = 99;
  b.GetCurrentOffset(&by, &bi);
  sx_check(by == s / 8 && bi == s % 8, "position");
  delete[] d;
}

// ---------------------------------------------------------------- RTP
static std::vector<uint8_t> unesc(const uint8_t* d, size_t n) {
  std::vector<uint8_t> r;
  int z = 0;
  for (size_t i = 0; i < n; i++) {
    if (z >= 2 && d[i] == 3) { z = 0; continue; }
    r.push_back(d[i]);
    z = d[i] == 0 ? z + 1 : 0;
  }
  return r;
}
// params: kind (0 single, 1 aggregation, 2 fragmentation, 3 other), direct
SX_ENTRY2(e_rtp) {
  int kind = (int)sx_param("kind");
  bool direct = sx_param("direct") == 1;
  unsigned n = len_choice(), many = nmany(), f = many ? 2 + 5 * many : 0;
  uint8_t* d = mkfar(n, f);
  if (many) {
    d[0] = 0x60;
    for (unsigned i = 0; i < many; i++) *put_be(d + 2 + 5 * i, 2, 3) = (uint8_t)(i & 1 ? 0x46 : 0x52);
    n += f;
  }
  if (n > 0) {
    unsigned t = nut(d);
    if (kind == 0) sx_assume(t < 48 && light(t));
    else if (kind == 1) sx_assume(t == 48);
    else if (kind == 2) sx_assume(t == 49);
    else sx_assume(t >= 50);
  }
  // expected outcome
  bool want = n >= 2;
  struct U { size_t o, n; };
  std::vector<U> us;
  unsigned fut = 0;
  if (kind == 1 && want) {
    size_t i = 2;
    while (i < n) {
      if (n - i < 2) { want = false; break; }
      uint64_t l = (uint64_t)d[i] << 8 | d[i + 1];
      i += 2;
      if (l > n - i || l < 2) { want = false; break; }
      l = sx_concretize(l);
      sx_assume(light(nut(d + i)));
      us.push_back({i, l});
      i += l;
    }
  }
  if (kind == 2) {
    want = n >= 3;
    if (want) { fut = d[2] & 63; if (d[2] >> 7) sx_assume(light(fut)); }
  }
  H265BitstreamParserState st;
  std::unique_ptr<H265RtpParser::RtpState> rtp;
  std::unique_ptr<H265RtpSingleParser::RtpSingleState> o1;
  std::unique_ptr<H265RtpApParser::RtpApState> o2;
  std::unique_ptr<H265RtpFuParser::RtpFuState> o3;
  H265RtpSingleParser::RtpSingleState* s1 = nullptr;
  H265RtpApParser::RtpApState* s2 = nullptr;
  H265RtpFuParser::RtpFuState* s3 = nullptr;
  if (direct) {
    if (kind == 0) { o1 = H265RtpSingleParser::ParseRtpSingle(d, n, &st); s1 = o1.get(); }
    if (kind == 1) { o2 = H265RtpApParser::ParseRtpAp(d, n, &st); s2 = o2.get(); }
    if (kind == 2) { o3 = H265RtpFuParser::ParseRtpFu(d, n, &st); s3 = o3.get(); }
    sx_check((s1 || s2 || s3) == want, "accepts");
  } else {
    rtp = H265RtpParser::ParseRtp(d, n, &st);
    sx_check((rtp != nullptr) == want, "accepts");
    if (rtp) {
      s1 = rtp->rtp_single.get(); s2 = rtp->rtp_ap.get(); s3 = rtp->rtp_fu.get();
      sx_check((s1 != nullptr) == (kind == 0) && (s2 != nullptr) == (kind == 1) && (s3 != nullptr) == (kind == 2), "kind of packet");
      if (want) check_header(*rtp->nal_unit_header, d);
    }
  }
  sx_cover(want ? "accepted" : "refused");
  if (want && s1) {
    check_header(*s1->nal_unit_header, d);
    check_light_payload(*s1->nal_unit_payload, nut(d), d + 2, n - 2);
  }
  if (want && s2) {
    check_header(*s2->header, d);
    sx_check(s2->nal_unit_sizes.size() == us.size() && s2->nal_unit_headers.size() == us.size() && s2->nal_unit_payloads.size() == us.size(), "number of NAL units");
    if (us.size() >= 2) sx_cover("several");
    for (size_t i = 0; i < us.size() && i < s2->nal_unit_sizes.size() && i < s2->nal_unit_headers.size() && i < s2->nal_unit_payloads.size(); i++) {
      sx_check(s2->nal_unit_sizes[i] == us[i].n, "size of the NAL unit");
      check_header(*s2->nal_unit_headers[i], d + us[i].o);
      check_light_payload(*s2->nal_unit_payloads[i], nut(d + us[i].o), d + us[i].o + 2, us[i].n - 2);
    }
  }
  if (want && s3) {
    check_header(*s3->header, d);
    sx_check(s3->s_bit == (unsigned)(d[2] >> 7), "s_bit");
    sx_check(s3->e_bit == (unsigned)((d[2] >> 6) & 1), "e_bit");
    sx_check(s3->fu_type == fut, "fu_type");
    if (d[2] >> 7) {
      sx_cover("start");
      sx_check(s3->nal_unit_payload != nullptr, "payload of the first fragment");
      if (s3->nal_unit_payload) check_light_payload(*s3->nal_unit_payload, fut, d + 3, n - 3);
    } else sx_check(s3->nal_unit_payload == nullptr, "no payload in later fragments");
  }
  if (want && rtp && sx_param("dump") == 1) {
    ParsingOptions po;
    sx_log_reset();
    rtp->fdump(sx_file(), 0, po);
    if (s2) sx_check(sx_dump_count("nal_unit_size") == us.size(), "dump");
    if (s3) { sx_check(sx_dump_count("s_bit") == 1 && sx_dump_val("s_bit", 0) == s3->s_bit, "dump"); sx_check(sx_dump_count("e_bit") == 1 && sx_dump_val("e_bit", 0) == s3->e_bit, "dump"); sx_check(sx_dump_count("fu_type") == 1 && sx_dump_val("fu_type", 0) == s3->fu_type, "dump"); }
  }
  delete[] d;
}

// ---------------------------------------------------------------- hvcC
// params: extra (bytes after the fixed part), arrays
SX_ENTRY2(e_hvcc) {
  // so many empty arrays, or one array of so many NAL units, in front of an unknown one
  unsigned n = len_choice(), many = nmany(), f = many ? 23 + (sx_param("one") == 1 ? 3 + 4 * many : 3 * many) : 0;
  uint8_t* d = mkfar(n, f);
  if (many) {
    n += f;
    d[0] = 1;
    put_be(d + 1, 11, 0x600000);
    d[12] = 93; d[13] = 0xf0; d[14] = 0; d[15] = 0xfc; d[16] = 0xfd; d[17] = d[18] = 0xf8; d[19] = d[20] = 0; d[21] = 0x0f;
    d[22] = (uint8_t)(1 + (sx_param("one") == 1 ? 1 : many));
    uint8_t* p = d + 23;
    if (sx_param("one") == 1) {
      *p++ = 0x89; p = put_be(p, 2, many);
      for (unsigned i = 0; i < many; i++) { p = put_be(p, 2, 2); *p++ = 0x52; *p++ = (uint8_t)(1 + (i & 3)); }
    } else for (unsigned i = 0; i < many; i++) { *p++ = (uint8_t)(i & 63 & ~0x40); p = put_be(p, 2, 0); }
  }
  bool want = n >= 23;
  unsigned na = 0;
  if (want) {
    want = sx_and(sx_and(d[0] == 1, (d[13] >> 4) == 15), sx_and(sx_and((d[15] >> 2) == 63, (d[16] >> 2) == 63), sx_and((d[17] >> 3) == 31, (d[18] >> 3) == 31)));
    na = d[22];
    if (sx_param("good") == 1) { sx_assume(want); sx_assume(many || na <= 2); }
  }
  struct U { size_t o, n; };
  struct A { size_t o; std::vector<U> u; };
  std::vector<A> as;
  if (want) {
    size_t i = 23;
    for (unsigned j = 0; j < na && want; j++) {
      if (n - i < 3 || (d[i] & 0x40)) { want = false; break; }
      as.push_back({i, {}});
      unsigned nn = (unsigned)d[i + 1] << 8 | d[i + 2];
      i += 3;
      for (unsigned k = 0; k < nn; k++) {
        if (n - i < 2) { want = false; break; }
        uint64_t l = (uint64_t)d[i] << 8 | d[i + 1];
        i += 2;
        // the code allocates l bytes before it looks at the data: only the
        // lengths just beyond the data and the largest one are explored
        if (l > n - i) { sx_assume(l <= n - i + 2 || l == 65535); want = false; break; }
        l = sx_concretize(l);
        if (l >= 2) sx_assume(light(nut(d + i)));
        as.back().u.push_back({i, l});
        i += l;
      }
    }
  }
  H265BitstreamParserState st;
  ParsingOptions po;
  po.add_checksum = false;
  auto c = H265ConfigurationBoxParser::ParseConfigurationBox(d, n, &st, po);
  sx_check((c != nullptr) == want, "accepts");
  sx_cover(want ? "accepted" : "refused");
  if (c && want) {
    // ISO/IEC 14496-15, 8.3.2.1.2
    auto F = [&](uint64_t got, uint64_t v, const char* name) { sx_check(got == v, name); };
    F(c->configurationVersion, 1, "configurationVersion");
    F(c->general_profile_space, d[1] >> 6, "general_profile_space");
    F(c->general_tier_flag, (d[1] >> 5) & 1, "general_tier_flag");
    F(c->general_profile_idc, d[1] & 31, "general_profile_idc");
    for (int j = 0; j < 32; j++) F(c->general_profile_compatibility_flags[j], (d[2 + j / 8] >> (7 - j % 8)) & 1, "general_profile_compatibility_flags");
    uint64_t g = 0;
    for (int j = 0; j < 6; j++) g = g << 8 | d[6 + j];
    F(c->general_constraint_indicator_flags, g, "general_constraint_indicator_flags");
    F(c->general_level_idc, d[12], "general_level_idc");
    F(c->min_spatial_segmentation_idc, (unsigned)(d[13] & 15) << 8 | d[14], "min_spatial_segmentation_idc");
    F(c->parallelismType, d[15] & 3, "parallelismType");
    F(c->chroma_format_idc, d[16] & 3, "chroma_format_idc");
    F(c->bit_depth_luma_minus8, d[17] & 7, "bit_depth_luma_minus8");
    F(c->bit_depth_chroma_minus8, d[18] & 7, "bit_depth_chroma_minus8");
    F(c->avgFrameRate, (unsigned)d[19] << 8 | d[20], "avgFrameRate");
    F(c->constantFrameRate, d[21] >> 6, "constantFrameRate");
    F(c->numTemporalLayers, (d[21] >> 3) & 7, "numTemporalLayers");
    F(c->temporalIdNested, (d[21] >> 2) & 1, "temporalIdNested");
    F(c->lengthSizeMinusOne, d[21] & 3, "lengthSizeMinusOne");
    F(c->numOfArrays, d[22], "numOfArrays");
    size_t m = as.size();
    sx_check(c->array_completeness.size() == m && c->NAL_unit_type.size() == m && c->numNalus.size() == m && c->nalUnitLength.size() == m && c->nalUnit.size() == m, "number of arrays");
    for (size_t j = 0; j < m && j < c->nalUnit.size(); j++) {
      F(c->array_completeness[j], d[as[j].o] >> 7, "array_completeness");
      F(c->NAL_unit_type[j], d[as[j].o] & 63, "NAL_unit_type");
      F(c->numNalus[j], as[j].u.size(), "numNalus");
      sx_check(c->nalUnitLength[j].size() == as[j].u.size() && c->nalUnit[j].size() == as[j].u.size(), "number of NAL units");
      for (size_t k = 0; k < as[j].u.size() && k < c->nalUnit[j].size(); k++) {
        U& u = as[j].u[k];
        sx_cover("unit");
        F(c->nalUnitLength[j][k], u.n, "nalUnitLength");
        auto& g = c->nalUnit[j][k];
        sx_check((g != nullptr) == (u.n >= 2), "NAL unit accepted");
        if (g && u.n >= 2) {
          check_header(*g->nal_unit_header, d + u.o);
          check_light_payload(*g->nal_unit_payload, nut(d + u.o), d + u.o + 2, u.n - 2);
        }
      }
    }
    if (sx_param("dump") == 1) {
      sx_log_reset();
      c->fdump(sx_file(), 0, po);
#define D(f) sx_check(sx_dump_count(#f) == 1 && sx_dump_val(#f, 0) == (uint32_t)c->f, "dump of " #f)
      D(configurationVersion); D(general_profile_space); D(general_tier_flag); D(general_profile_idc); D(general_constraint_indicator_flags);
      D(general_level_idc); D(min_spatial_segmentation_idc); D(parallelismType); D(chroma_format_idc); D(bit_depth_luma_minus8); D(bit_depth_chroma_minus8);
      D(avgFrameRate); D(constantFrameRate); D(numTemporalLayers); D(temporalIdNested); D(lengthSizeMinusOne); D(numOfArrays);
#undef D
#define D1(f, v) sx_check(sx_dump_count(f) == 1 && sx_dump_val(f, 0) == (uint32_t)(v), "dump of an array entry")
      for (unsigned j = 0; j < m && j < c->nalUnit.size(); j++) {
        D1(IX("array_completeness", (int)j), c->array_completeness[j]); D1(IX("NAL_unit_type", (int)j), c->NAL_unit_type[j]); D1(IX("numNalus", (int)j), c->numNalus[j]);
        for (unsigned k = 0; k < c->nalUnitLength[j].size() && k < 10 && j < 10; k++) { const char* base = IX("nalUnitLength", (int)j); D1(IX(base, (int)k), c->nalUnitLength[j][k]); }
      }
#undef D1
      sx_check(sx_dump_count("general_profile_compatibility_flags") == 32, "dump of general_profile_compatibility_flags");
      for (unsigned j = 0; j < 32 && j < sx_dump_count("general_profile_compatibility_flags"); j++) sx_check(sx_dump_val("general_profile_compatibility_flags", j) == c->general_profile_compatibility_flags[j], "dump of general_profile_compatibility_flags");
    }
  }
  delete[] d;
}
