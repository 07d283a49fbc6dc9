// Whole streams of template NAL units, and slice QPs.
#include <vector>
#include "sx.h"
#include "bytes.h"
#include "bitw.h"
#include "dump.h"
#include "h265_configuration_box_parser.h"
#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_nal_unit_parser.h"
#include "h265_rtp_parser.h"
#include "h265_sei_parser.h"
#include "h265_utils.h"
using namespace h265nal;

// ---------------------------------------------------------------- slice QP
// params: units, zmax
SX_ENTRY2(e_qpstream) {
  unsigned n = (unsigned)sx_param("units");
  std::vector<uint8_t> o;
  put(o, nal_sps(0), true);
  bool have[2] = {false, false};
  int32_t q[2] = {0, 0};
  std::vector<int32_t> want;
  unsigned z = (unsigned)sx_choose((int)sx_param("zmax") + 1, "prefix");
  for (unsigned i = 0; i < n; i++) {
    int kind = sx_choose(3, "kind"), id = sx_choose(2, "id");
    uint64_t s = z ? sx_elem(z, "code") : 0;
    int32_t v = se_map((uint32_t)((1u << z) - 1 + s));
    if (kind == 0) { put(o, nal_pps((unsigned)id, 0, z, s), i & 1); have[id] = true; q[id] = v; }
    if (kind == 1) { put(o, nal_idr((unsigned)id, z, s), i & 1); if (have[id]) want.push_back(26 + q[id] + v); }
    // another type of NAL unit with the same payload, a broken PPS, a unit cut off in its header
    if (kind == 2 && id == 1) { BitW w; w.u(8, 0x26); put(o, w, false); }
    else if (kind == 2) { BitW w = nal_idr((unsigned)id, z, s); if (i & 1) w.b[1] = w.b[2] = 1; else { w = nal_pps((unsigned)id, 0, z, s); w.b.resize(24); } put(o, w, false); }
  }
  uint8_t* d = exact(o);
  H265BitstreamParserState st;
  auto got = H265Utils::GetSliceQpY(d, o.size(), &st);
  sx_check(got.size() == want.size(), "number of slice QPs");
  for (size_t i = 0; i < got.size() && i < want.size(); i++) { sx_cover("qp"); sx_check(got[i] == want[i], "slice QP"); }
  delete[] d;
}
// RTP packets described by their parsed form.  Any header and PPS values.
static std::unique_ptr<H265NalUnitHeaderParser::NalUnitHeaderState> hdr(uint32_t t) {
  auto h = std::make_unique<H265NalUnitHeaderParser::NalUnitHeaderState>();
  h->nal_unit_type = t;
  return h;
}
SX_ENTRY e_qprtp() {
  H265BitstreamParserState st;
  uint32_t id[2];
  int32_t q[2];
  int np = sx_choose(3, "stored");
  for (int i = 0; i < np; i++) {
    id[i] = (uint32_t)sx_elem(6, "stored_id");
    if (i == 1) sx_assume(id[1] != id[0]);
    q[i] = (int32_t)sx_elem(32, "init_qp_minus26");
    auto p = std::make_shared<H265PpsParser::PpsState>();
    p->init_qp_minus26 = q[i];
    st.pps[id[i]] = p;
  }
  uint32_t t = (uint32_t)sx_elem(6, "nal_unit_type");
  auto pl = std::make_unique<H265NalUnitPayloadParser::NalUnitPayloadState>();
  int have = sx_choose(2, "slice");
  uint32_t pid = (uint32_t)sx_elem(6, "slice_pps_id");
  int32_t delta = (int32_t)sx_elem(32, "slice_qp_delta");
  if (have) {
    pl->slice_segment_layer = std::make_unique<H265SliceSegmentLayerParser::SliceSegmentLayerState>();
    pl->slice_segment_layer->slice_segment_header = std::make_unique<H265SliceSegmentHeaderParser::SliceSegmentHeaderState>();
    pl->slice_segment_layer->slice_segment_header->slice_pic_parameter_set_id = pid;
    pl->slice_segment_layer->slice_segment_header->slice_qp_delta = delta;
  }
  auto rtp = std::make_unique<H265RtpParser::RtpState>();
  int kind = sx_choose(4, "packet");
  bool want = have;
  if (kind == 0) {
    sx_assume(t < 48);
    rtp->nal_unit_header = hdr(t);
    rtp->rtp_single = std::make_unique<H265RtpSingleParser::RtpSingleState>();
    rtp->rtp_single->nal_unit_header = hdr(t);
    rtp->rtp_single->nal_unit_payload = std::move(pl);
  } else if (kind == 1) {
    // the latest NAL unit of the packet counts
    rtp->nal_unit_header = hdr(48);
    rtp->rtp_ap = std::make_unique<H265RtpApParser::RtpApState>();
    int before = sx_choose(2, "before");
    for (int i = 0; i < before; i++) {
      rtp->rtp_ap->nal_unit_headers.push_back(hdr(39));
      rtp->rtp_ap->nal_unit_payloads.push_back(std::make_unique<H265NalUnitPayloadParser::NalUnitPayloadState>());
      rtp->rtp_ap->nal_unit_sizes.push_back(3);
    }
    if (sx_choose(2, "empty") == 0) {
      rtp->rtp_ap->nal_unit_headers.push_back(hdr(t));
      rtp->rtp_ap->nal_unit_payloads.push_back(std::move(pl));
      rtp->rtp_ap->nal_unit_sizes.push_back(9);
    } else want = false;
  } else if (kind == 2) {
    rtp->nal_unit_header = hdr(49);
    rtp->rtp_fu = std::make_unique<H265RtpFuParser::RtpFuState>();
    rtp->rtp_fu->s_bit = (uint32_t)sx_elem(1, "s_bit");
    rtp->rtp_fu->e_bit = (uint32_t)sx_elem(1, "e_bit");
    rtp->rtp_fu->fu_type = t;
    if (rtp->rtp_fu->s_bit == 0) want = false;
    else rtp->rtp_fu->nal_unit_payload = std::move(pl);
  } else {
    uint32_t o = (uint32_t)sx_elem(6, "other_type");
    sx_assume(o >= 50);
    rtp->nal_unit_header = hdr(o);
    want = false;
  }
  want = want && (t <= 9 || (t >= 16 && t <= 21));
  int k = -1;
  if (want) {
    for (int i = 0; i < np; i++) if (id[i] == pid) k = i;
    if (k < 0) want = false;
  }
  int64_t v = k < 0 ? 0 : (int64_t)26 + q[k] + delta;
  // Equation 7-54 has no value outside 32 bits
  if (want && (v < INT32_MIN || v > INT32_MAX)) want = false;
  auto got = H265Utils::GetSliceQpY(rtp, &st);
  sx_check((got != nullptr) == want, "a value is reported");
  if (got && want) { sx_cover("qp"); sx_check(*got == (int32_t)v, "slice QP"); }
}

// ---------------------------------------------------------------- streams
// params: units, framing (0 Annex B, 1 length prefixes)
SX_ENTRY2(e_stream) {
  unsigned n = (unsigned)sx_param("units");
  bool prefixed = sx_param("prefixed") == 1, own = sx_choose(2, "own state") == 1;
  struct U { int kind; unsigned id; size_t o, n; uint64_t v; };
  std::vector<U> us;
  std::vector<uint8_t> o;
  if (!prefixed && sx_choose(2, "leading bytes")) { o.push_back(0); o.push_back(7); }
  for (unsigned i = 0; i < n; i++) {
    U u;
    u.kind = sx_choose(6, "kind");
    u.id = 0;
    u.v = 0;
    std::vector<uint8_t> t;
    bool four = (i & 1) == 0;
    BitW w;
    if (u.kind == 0) { w = nalhdr(41 + i, (unsigned)(u.v = sx_elem(6, "layer")), 3); w.u(8, 0x5a); }
    if (u.kind == 1) { w = nalhdr(35); w.u(3, u.v = sx_elem(3, "pic_type")).trail(); }
    if (u.kind == 2) { u.id = (unsigned)sx_choose(2, "id"); w = nal_pps(u.id, 0, 2, u.v = sx_elem(2, "code")); }
    if (u.kind == 3) { u.id = (unsigned)sx_choose(2, "id"); w = nal_idr(u.id, 2, u.v = sx_elem(2, "code")); }
    if (u.kind == 4) { w.u(8, 0x46); }           // cut off inside the header
    if (u.kind == 5) { w = nal_sps(0); }
    put(t, w, false);
    size_t len = t.size() - 3;
    if (prefixed) { o.push_back((uint8_t)(len >> 8)); o.push_back((uint8_t)len); }
    else { if (four) o.push_back(0); o.push_back(0); o.push_back(0); o.push_back(1); }
    u.o = o.size();
    u.n = len;
    for (size_t k = 3; k < t.size(); k++) o.push_back(t[k]);
    us.push_back(u);
  }
  uint8_t* d = exact(o);
  H265BitstreamParserState st;
  ParsingOptions po;
  po.add_checksum = sx_choose(2, "checksum") == 1;
  po.add_resolution = false;
  std::unique_ptr<H265BitstreamParser::BitstreamState> bs;
  if (prefixed) bs = own ? H265BitstreamParser::ParseBitstreamNALULength(d, o.size(), 2, po) : H265BitstreamParser::ParseBitstreamNALULength(d, o.size(), 2, &st, po);
  else bs = own ? H265BitstreamParser::ParseBitstream(d, o.size(), po) : H265BitstreamParser::ParseBitstream(d, o.size(), &st, po);
  sx_check(bs != nullptr, "a stream is returned");
  if (!bs) return;
  if (own) sx_check(bs->parsing_options_.add_checksum == po.add_checksum && bs->parsing_options_.add_resolution == false, "parsing options");
  size_t k = 0;
  bool sps = false, pps[2] = {false, false};
  uint64_t ppsv[2] = {0, 0};
  H265PpsParser::PpsState* pp[2] = {nullptr, nullptr};
  for (auto& u : us) {
    if (u.kind == 4) continue;
    sx_check(k < bs->nal_units.size(), "number of NAL units");
    if (k >= bs->nal_units.size()) break;
    auto& g = *bs->nal_units[k++];
    static const unsigned T[] = {0, 35, 34, 20, 0, 33};
    sx_check(g.offset == u.o, "offset");
    sx_check(g.length == u.n, "length");
    sx_check((g.checksum != nullptr) == po.add_checksum, "checksum present");
    if (u.kind == 0) sx_check(g.nal_unit_header->nuh_layer_id == u.v && g.nal_unit_header->nal_unit_type >= 41, "header");
    else sx_check(g.nal_unit_header->nal_unit_type == T[u.kind] && g.nal_unit_header->nuh_layer_id == 0, "header");
    auto& p = *g.nal_unit_payload;
    sx_check((p.aud != nullptr) == (u.kind == 1) && (p.pps != nullptr) == (u.kind == 2) && (p.sps != nullptr) == (u.kind == 5) && !p.vps && !p.sei, "payload");
    if (p.aud) sx_check(p.aud->pic_type == u.v, "pic_type");
    if (p.pps) {
      sx_check(p.pps->pps_pic_parameter_set_id == u.id && p.pps->init_qp_minus26 == se_map(3 + (uint32_t)u.v), "PPS");
      pps[u.id] = true; ppsv[u.id] = u.v; pp[u.id] = p.pps.get();
    }
    if (u.kind == 5) sps = true;
    if (u.kind == 3) {
      bool want = sps && pps[u.id];
      sx_check((p.slice_segment_layer != nullptr) == want, "slice accepted");
      if (p.slice_segment_layer && want) { sx_cover("slice"); auto& h = p.slice_segment_layer->slice_segment_header; sx_check(h && h->slice_pic_parameter_set_id == u.id && h->slice_qp_delta == se_map(3 + (uint32_t)u.v), "slice"); }
    } else sx_check(p.slice_segment_layer == nullptr, "payload");
    // the same unit parsed on its own
    if (po.add_checksum && u.kind <= 1) {
      auto a = H265NalUnitParser::ParseNalUnit(d + u.o, u.n, &st, po);
      sx_check(a && a->checksum && g.checksum && a->parsed_length == g.parsed_length, "same as alone");
      if (a && a->checksum && g.checksum) for (int i = 0; i < 4; i++) sx_check(a->checksum->GetChecksum()[i] == g.checksum->GetChecksum()[i], "checksum of the unit");
    }
  }
  sx_check(k == bs->nal_units.size(), "number of NAL units");
  if (!own) {
    sx_check(st.sps.size() == (sps ? 1u : 0u) && st.vps.empty() && st.pps.size() == (unsigned)pps[0] + (unsigned)pps[1], "stored sets");
    for (unsigned i = 0; i < 2; i++) if (pps[i]) { auto s = st.GetPps(i); sx_check(s.get() == pp[i], "latest PPS stored"); }
  }
  delete[] d;
}

// Every identifier a parameter set can have, all stored at once, and a slice
// for each PPS, whose syntax depends on the right SPS being used.
SX_ENTRY e_everyid() {
  std::vector<uint8_t> o;
  uint64_t c[64], e[64], poc[64];
  unsigned mul = sx_choose(2, "order") ? 13 : 1;
  auto bits = [](unsigned sps) { return (sps * 5 + 3) % 13; };
  for (unsigned i = 0; i < 16; i++) put(o, nal_vps(i * mul % 16), i & 1);
  for (unsigned i = 0; i < 16; i++) put(o, nal_sps(i * mul % 16, bits(i * mul % 16)), i & 1);
  for (unsigned i = 0; i < 64; i++) { unsigned k = i * mul % 64; put(o, nal_pps(k, (k + 3) % 16, 2, c[k] = sx_elem(2, "code")), i & 1); }
  for (unsigned i = 0; i < 64; i++) put(o, nal_slice(1, 1, 0, poc[i] = i & 15, i, 2, e[i] = sx_elem(2, "code2"), bits((i + 3) % 16)), i & 1);
  uint8_t* d = exact(o);
  H265BitstreamParserState st;
  ParsingOptions po;
  po.add_checksum = false;
  auto bs = H265BitstreamParser::ParseBitstream(d, o.size(), &st, po);
  sx_check(bs && bs->nal_units.size() == 160, "number of NAL units");
  sx_check(st.vps.size() == 16 && st.sps.size() == 16 && st.pps.size() == 64, "stored sets");
  for (unsigned i = 0; i < 16; i++) {
    auto v = st.GetVps(i);
    auto s = st.GetSps(i);
    sx_check(v && v->vps_video_parameter_set_id == i && s && s->sps_seq_parameter_set_id == i && s->log2_max_pic_order_cnt_lsb_minus4 == bits(i), "stored sets");
  }
  if (bs && bs->nal_units.size() == 160) for (unsigned i = 0; i < 64; i++) {
    auto p = st.GetPps(i);
    sx_check(p && p->pps_pic_parameter_set_id == i && p->pps_seq_parameter_set_id == (i + 3) % 16 && p->init_qp_minus26 == se_map(3 + (uint32_t)c[i]), "stored PPS");
    auto& l = bs->nal_units[96 + i]->nal_unit_payload->slice_segment_layer;
    sx_check(l != nullptr, "slice accepted");
    if (!l) continue;
    sx_cover("slice");
    auto& h = *l->slice_segment_header;
    sx_check(h.slice_pic_parameter_set_id == i && h.slice_pic_order_cnt_lsb == poc[i] && h.slice_qp_delta == se_map(3 + (uint32_t)e[i]), "slice");
  }
  // every set sent again with another content, in a state that is full
  if (sx_choose(2, "again")) {
    std::vector<uint8_t> o2;
    auto bits2 = [](unsigned sps) { return (sps * 7 + 1) % 13; };
    for (unsigned i = 0; i < 16; i++) put(o2, nal_vps(i * mul % 16, 120), i & 1);
    for (unsigned i = 0; i < 16; i++) put(o2, nal_sps(i * mul % 16, bits2(i * mul % 16)), i & 1);
    for (unsigned i = 0; i < 64; i++) { unsigned k = i * mul % 64; put(o2, nal_pps(k, (k + 6) % 16, 2, c[k]), i & 1); }
    // a unit of every other kind in between changes nothing
    unsigned others = 0;
    for (unsigned ty = 10; ty < 64; ty++) if (!(ty >= 16 && ty <= 21) && !(ty >= 32 && ty <= 34)) {
      BitW w = nalhdr(ty);
      if (ty == 35) w = nal_aud(1);
      else if (ty == 39 || ty == 40) w = nal_sei(ty);
      else if (ty != 36 && ty != 37) w.u(8, 0x5a);
      put(o2, w, ty & 1); others++;
    }
    for (unsigned i = 0; i < 64; i++) put(o2, nal_slice(1, 1, 0, poc[i], i, 2, e[i], bits2((i + 6) % 16)), i & 1);
    uint8_t* d2 = exact(o2);
    auto bs2 = H265BitstreamParser::ParseBitstream(d2, o2.size(), &st, po);
    sx_check(bs2 && bs2->nal_units.size() == 160 + others, "number of NAL units");
    sx_check(st.vps.size() == 16 && st.sps.size() == 16 && st.pps.size() == 64, "stored sets");
    for (unsigned i = 0; i < 16; i++) {
      auto v = st.GetVps(i);
      auto s = st.GetSps(i);
      sx_check(v && v->vps_video_parameter_set_id == i && v->profile_tier_level && v->profile_tier_level->general_level_idc == 120, "stored sets");
      sx_check(s && s->sps_seq_parameter_set_id == i && s->log2_max_pic_order_cnt_lsb_minus4 == bits2(i), "stored sets");
    }
    if (bs2 && bs2->nal_units.size() == 160 + others) for (unsigned i = 0; i < 64; i++) {
      auto p = st.GetPps(i);
      sx_check(p && p->pps_pic_parameter_set_id == i && p->pps_seq_parameter_set_id == (i + 6) % 16, "stored PPS");
      auto& l = bs2->nal_units[96 + others + i]->nal_unit_payload->slice_segment_layer;
      sx_check(l != nullptr, "slice accepted");
      if (l) sx_check(l->slice_segment_header->slice_pic_order_cnt_lsb == poc[i] && l->slice_segment_header->slice_qp_delta == se_map(3 + (uint32_t)e[i]), "slice");
    }
    delete[] d2; delete[] d;
    return;
  }
  H265BitstreamParserState st2;
  auto qp = H265Utils::GetSliceQpY(d, o.size(), &st2);
  sx_check(qp.size() == 64, "number of slice QPs");
  for (unsigned i = 0; i < 64 && i < qp.size(); i++) sx_check(qp[i] == 26 + se_map(3 + (uint32_t)c[i]) + se_map(3 + (uint32_t)e[i]), "slice QP");
  delete[] d;
}

// ---------------------------------------------------------------- dumps
// The dump of each layer shows its own values, and the layers inside it
// exactly when they are there.
typedef H265NalUnitHeaderParser::NalUnitHeaderState Hdr;
typedef H265NalUnitPayloadParser::NalUnitPayloadState Pay;
typedef H265NalUnitParser::NalUnitState Nal;
static void entry(const char* name, uint64_t v) { if (g_dump && !g_layout) sx_check(sx_dump_count(name) == 1 && sx_dump_val(name, 0) == (uint32_t)v, name); }
static void d_hdr(const Hdr& h) {
  DUMP(h);
  entry("forbidden_zero_bit", h.forbidden_zero_bit); entry("nal_unit_type", h.nal_unit_type); entry("nuh_layer_id", h.nuh_layer_id); entry("nuh_temporal_id_plus1", h.nuh_temporal_id_plus1);
}
static void d_pay(const Pay& p, uint32_t type, const ParsingOptions& po) {
  DUMPF(p.fdump(sx_file(), ind, type, po));
  if (p.slice_segment_layer) { DUMP(*p.slice_segment_layer); { DUMP(*p.slice_segment_layer->slice_segment_header); } }
  if (p.vps) { DUMP(*p.vps); { DUMP(*p.vps->profile_tier_level); { DUMP(*p.vps->profile_tier_level->general); } } }
  if (p.sps) {
    DUMPF(p.sps->fdump(sx_file(), ind, po));
    if (g_dump && !g_layout) {
      int w = -1, h = -1;
      p.sps->getResolution(&w, &h);
      sx_check(sx_dump_count("width") == (unsigned)po.add_resolution && sx_dump_count("height") == (unsigned)po.add_resolution, "resolution");
      if (po.add_resolution) { entry("width", (uint64_t)w); entry("height", (uint64_t)h); }
    }
    { DUMP(*p.sps->profile_tier_level); { DUMP(*p.sps->profile_tier_level->general); } }
  }
  if (p.pps) { DUMP(*p.pps); }
  if (p.aud) { DUMP(*p.aud); entry("pic_type", p.aud->pic_type); }
  if (p.sei) { DUMP(*p.sei); entry("payload_type", (uint64_t)p.sei->payload_type); entry("payload_size", p.sei->payload_size); }
}
static void d_nal(const Nal& n, const ParsingOptions& po, bool kidsonly = false) {
  DUMPF(n.fdump(sx_file(), ind, po));
  if (g_dump && !g_layout && !kidsonly) {
    struct { const char* name; bool on; uint64_t v; } own[] = {{"offset", po.add_offset, n.offset}, {"length", po.add_length, n.length}, {"parsed_length", po.add_parsed_length, n.parsed_length}};
    for (auto& o : own) { if (o.on) entry(o.name, o.v); else sx_check(sx_dump_count(o.name) == 0, o.name); }
    bool sum = po.add_checksum && n.checksum;
    sx_check(sx_dump_groups("checksum") == (unsigned)sum, "checksum");
    if (sum) {
      uint64_t v = 0;
      for (int i = 0; i < n.checksum->GetLength(); i++) v = v << 8 | (uint8_t)n.checksum->GetChecksum()[i];
      entry("checksum", v);
    }
  }
  d_hdr(*n.nal_unit_header);
  d_pay(*n.nal_unit_payload, n.nal_unit_header->nal_unit_type, po);
}
static const int kTemplates = 13;
static bool g_fixed;  // printed checksums need concrete bytes
static uint64_t any(unsigned n) { return g_fixed ? 1 : sx_elem(n, "any"); }
static BitW nal_template(int k, unsigned layer) {
  BitW w;
  switch (k) {
    case 0: w = nal_vps(1); break;
    case 1: w = nal_sps(0); break;
    case 2: w = nal_pps(0, 0, 2, any(2)); break;
    case 3: w = nal_idr(0, 2, any(2)); break;
    case 4: w = nal_aud((unsigned)any(3)); break;
    case 5: w = nal_sei(39); break;
    case 6: w = nal_sei(40); break;
    case 7: w = nalhdr(38, layer, 2); w.u(8, 0x5a); break;         // filler
    case 8: w = nalhdr(48, layer, 7); w.u(8, 0x5a); break;         // unspecified
    case 9: w = nalhdr(33, layer); w.u(8, 0); break;               // refused SPS
    case 10: w = nalhdr(1, layer); w.u(8, 0); break;               // refused slice
    case 11: w = nal_idr(0, 2, 2); w.b[1] = 0; w.b[6] = 1; w.u(8, 0); break;  // as a TRAIL_R slice, read as one with an inter slice's syntax
    default: w = nalhdr(36, layer); break;                         // nothing after the header
  }
  return w;
}
static std::vector<uint8_t> nalbytes(const BitW& w) { std::vector<uint8_t> t; put(t, w, false); return std::vector<uint8_t>(t.begin() + 3, t.end()); }
static void d_begin(H265BitstreamParserState& st) {
  g_dump = true;
  g_layout = sx_param("layout") == 1;
  g_nkid = 0;
  // parameter sets for the slices
  if (sx_choose(2, "sets") == 0) return;
  ParsingOptions po;
  po.add_checksum = false;
  for (int k = 0; k < 3; k++) { auto b = nalbytes(nal_template(k, 0)); auto u = H265NalUnitParser::ParseNalUnit(b.data(), b.size(), &st, po); sx_check(u != nullptr, "template"); }
}
SX_ENTRY e_naldump() {
  H265BitstreamParserState st;
  d_begin(st);
  ParsingOptions po;
  po.add_offset = sx_choose(2, "add_offset"); po.add_length = sx_choose(2, "add_length"); po.add_parsed_length = sx_choose(2, "add_parsed_length"); po.add_resolution = sx_choose(2, "add_resolution");
  g_fixed = po.add_checksum = sx_choose(2, "add_checksum");
  int k = sx_choose(kTemplates, "unit");
  auto b = nalbytes(nal_template(k, 5));
  auto u = H265NalUnitParser::ParseNalUnit(b.data(), b.size(), &st, po);
  sx_check(u != nullptr, "parsed");
  if (!u) return;
  sx_cover("parsed");
  // any values
  u->offset = sx_elem(32, "offset"); u->length = sx_elem(31, "length"); u->parsed_length = sx_elem(31, "parsed_length");
  if (k >= 7) { u->nal_unit_header->forbidden_zero_bit = (uint32_t)sx_elem(1, "forbidden"); u->nal_unit_header->nuh_layer_id = (uint32_t)sx_elem(6, "layer"); u->nal_unit_header->nuh_temporal_id_plus1 = (uint32_t)sx_elem(3, "tid"); }
  // the checksum is shown when it is there and asked for
  po.add_checksum = sx_choose(2, "show_checksum");
  d_nal(*u, po);
}
// params: kind
SX_ENTRY e_rtpdump() {
  H265BitstreamParserState st;
  d_begin(st);
  ParsingOptions po;
  po.add_resolution = sx_choose(2, "add_resolution");
  int kind = sx_choose(5, "kind"), k = sx_choose(kTemplates, "unit");
  std::vector<uint8_t> p, b = nalbytes(nal_template(k, 5));
  unsigned nt = (b[0] >> 1) & 63;
  if (kind == 0) { if (nt >= 48) b[0] = 47 << 1; p = b; }
  if (kind == 1 || kind == 4) {
    p = {48 << 1, 1};
    if (kind == 4) { p.push_back(0); p.push_back(3); p.push_back(35 << 1); p.push_back(1); p.push_back(0x50); }
    p.push_back(0); p.push_back((uint8_t)b.size());
    for (uint8_t c : b) p.push_back(c);
  }
  if (kind == 2) { int s = sx_choose(2, "start"); p = {49 << 1, 1, (uint8_t)(s << 7 | sx_choose(2, "end") << 6 | nt)}; for (size_t i = 2; i < b.size(); i++) p.push_back(b[i]); }
  if (kind == 3) p = {50 << 1, 1, 7};
  uint8_t* d = exact(p);
  auto r = H265RtpParser::ParseRtp(d, p.size(), &st);
  delete[] d;
  if (!r) return;
  sx_cover("parsed");
  DUMPF(r->fdump(sx_file(), ind, po));
  d_hdr(*r->nal_unit_header);
  if (r->rtp_single) {
    DUMPF(r->rtp_single->fdump(sx_file(), ind, po));
    d_hdr(*r->rtp_single->nal_unit_header);
    d_pay(*r->rtp_single->nal_unit_payload, r->rtp_single->nal_unit_header->nal_unit_type, po);
  }
  if (r->rtp_ap) {
    sx_cover("aggregation");
    auto& a = *r->rtp_ap;
    for (auto& n : a.nal_unit_sizes) n = sx_elem(16, "size");
    DUMPF(a.fdump(sx_file(), ind, po));
    if (!g_layout) {
      sx_check(sx_dump_count("nal_unit_size") == a.nal_unit_sizes.size(), "nal_unit_size");
      for (unsigned i = 0; i < a.nal_unit_sizes.size() && i < sx_dump_count("nal_unit_size"); i++) sx_check(sx_dump_val("nal_unit_size", i) == a.nal_unit_sizes[i], "nal_unit_size");
    }
    d_hdr(*a.header);
    for (size_t i = 0; i < a.nal_unit_sizes.size(); i++) { d_hdr(*a.nal_unit_headers[i]); d_pay(*a.nal_unit_payloads[i], a.nal_unit_headers[i]->nal_unit_type, po); }
  }
  if (r->rtp_fu) {
    auto& f = *r->rtp_fu;
    DUMPF(f.fdump(sx_file(), ind, po));
    entry("s_bit", f.s_bit); entry("e_bit", f.e_bit); entry("fu_type", f.fu_type);
    d_hdr(*f.header);
    if (f.s_bit) { sx_cover("fragment"); d_pay(*f.nal_unit_payload, f.fu_type, po); }
  }
}
SX_ENTRY e_boxdump() {
  H265BitstreamParserState st;
  d_begin(st);
  ParsingOptions po;
  po.add_resolution = sx_choose(2, "add_resolution");
  g_fixed = po.add_checksum = sx_choose(2, "add_checksum");
  int k = sx_choose(kTemplates, "unit"), na = sx_choose(3, "arrays"), bad = sx_choose(2, "broken");
  std::vector<uint8_t> p = {1, 0x41, 0x60, 0, 0, 0, 9, 8, 7, 6, 5, 4, 93, 0xf0, 3, 0xfc, 0xfd, 0xf8, 0xfa, 1, 2, 0x0f, (uint8_t)na};
  std::vector<uint8_t> b = nalbytes(nal_template(k, 5));
  for (int j = 0; j < na; j++) {
    p.push_back((uint8_t)(0xa0 + j)); p.push_back(0); p.push_back((uint8_t)(1 + bad));
    if (bad) { p.push_back(0); p.push_back(1); p.push_back(0x40); }
    p.push_back(0); p.push_back((uint8_t)b.size());
    for (uint8_t c : b) p.push_back(c);
  }
  uint8_t* d = exact(p);
  auto c = H265ConfigurationBoxParser::ParseConfigurationBox(d, p.size(), &st, po);
  delete[] d;
  sx_check(c != nullptr, "parsed");
  if (!c) return;
  sx_cover("parsed");
  DUMPF(c->fdump(sx_file(), ind, po));
  entry("numOfArrays", c->numOfArrays);
  for (auto& a : c->nalUnit) for (auto& n : a) if (n) d_nal(*n, po, true);
}
SX_ENTRY e_streamdump() {
  H265BitstreamParserState st;
  d_begin(st);
  ParsingOptions po;
  po.add_resolution = sx_choose(2, "add_resolution");
  po.add_offset = sx_choose(2, "add_offset");
  po.add_checksum = false;
  int n = 1 + sx_choose(2, "units");
  std::vector<uint8_t> o;
  for (int i = 0; i < n; i++) put(o, nal_template(sx_choose(kTemplates, "unit"), 5), false);
  uint8_t* d = exact(o);
  auto bs = H265BitstreamParser::ParseBitstream(d, o.size(), po);
  delete[] d;
  sx_check(bs != nullptr && (int)bs->nal_units.size() == n, "parsed");
  if (!bs) return;
  sx_cover("parsed");
  // one line per unit when the units themselves are on one line
  sx_log_reset();
  bs->fdump(sx_file(), -1);
  if (g_layout) { sx_check((int)sx_dump_newlines() == n, "one line per unit"); sx_log_reset(); bs->fdump(sx_file(), 0); sx_check(sx_dump_layout(), "layout"); return; }
  sx_check((int)sx_dump_groups("nal_unit") == n, "nal_unit");
  std::vector<int> kids;
  for (auto& u : bs->nal_units) { sx_log_reset(); u->fdump(sx_file(), 0, po); kids.push_back(sx_dump_save()); }
  sx_log_reset();
  bs->fdump(sx_file(), 0);
  for (int k : kids) sx_check(sx_dump_has(k), "nested dump");
}

// ---------------------------------------------------------------- rich units
// units with most optional parts present
static void rich_hrd(BitW& w) {
  w.u(1, 1).u(1, 1).u(1, 1).u(8, 3).u(5, 4).u(1, 1).u(5, 2).u(4, 1).u(4, 2).u(4, 3).u(5, 20).u(5, 21).u(5, 22);  // NAL and VCL, sub-picture
  w.u(1, 0).u(1, 1).ue(3).ue(1);
  for (int i = 0; i < 2; i++) for (unsigned k = 0; k < 2; k++) w.ue(10 + k).ue(20 + k).ue(30 + k).ue(40 + k).u(1, k);
}
static void rich_sl(BitW& w) {
  for (int size = 0; size < 4; size++) for (int m = 0; m < 6; m += size == 3 ? 3 : 1) {
    if (m != 3) { w.u(1, 0).ue(0); continue; }                      // the default list
    w.u(1, 1);
    if (size > 1) w.ue(7);
    for (int i = 0; i < (size == 0 ? 16 : 64); i++) w.ue(i % 5);
  }
}
static BitW rich_vps(unsigned id) {
  BitW w = nalhdr(32);
  w.u(4, id).u(2, 3).u(6, 1).u(3, 1).u(1, 1).u(16, 0xffff);
  w.u(2, 0).u(1, 0).u(5, 1).u(32, 0x60000000).u(4, 9).u(43, 0x12345678).u(1, 0).u(8, 93).u(2, 3).u(14, 0).u(2, 0).u(1, 1).u(5, 2).u(32, 0x40000000).u(4, 9).u(43, 77).u(1, 1).u(8, 90);
  w.u(1, 1).ue(1).ue(0).ue(0).ue(4).ue(2).ue(3).u(6, 2).ue(2).u(3, 5).u(3, 7).u(1, 1).u(32, 1001).u(32, 60000).u(1, 1).ue(8).ue(1).ue(2);
  rich_hrd(w);
  w.u(1, 0).u(1, 0).u(1, 1);       // second sub-layer: low delay
  for (int i = 0; i < 2; i++) w.ue(1).ue(2).ue(3).ue(4).u(1, 1);
  w.u(1, 0);
  return w.trail();
}
static BitW rich_sps(unsigned id, bool vui) {
  BitW w = nalhdr(33);
  w.u(4, 1).u(3, 0).u(1, 1);
  w.u(2, 0).u(1, 0).u(5, 4).u(32, 0x08000000).u(4, 9).u(43, 0x12345678).u(1, 0).u(8, 93);
  w.ue(id).ue(1).ue(1024).ue(512).u(1, 1).ue(1).ue(2).ue(3).ue(4).ue(2).ue(1).ue(4).u(1, 1).ue(4).ue(2).ue(3).ue(0).ue(2).ue(1).ue(2).ue(3).ue(4);
  w.u(1, 1).u(1, 1);
  rich_sl(w);
  w.u(1, 1).u(1, 1).u(1, 1).u(4, 7).u(4, 6).ue(0).ue(1).u(1, 1);
  w.ue(3).ue(2).ue(1).ue(0).u(1, 1).ue(2).u(1, 0).ue(4).u(1, 1);
  w.u(1, 0).ue(1).ue(1).ue(5).u(1, 1).ue(6).u(1, 1);
  w.u(1, 1).u(1, 1).ue(1).u(1, 1).u(1, 0).u(1, 1).u(1, 1);  // predicted
  w.u(1, 1).ue(2).u(8, 0x12).u(1, 1).u(8, 0x34).u(1, 0).u(1, 1).u(1, 1).u(1, vui);
  if (vui) {
    w.u(1, 1).u(8, 255).u(16, 40).u(16, 33).u(1, 1).u(1, 1).u(1, 1).u(3, 2).u(1, 1).u(1, 1).u(8, 9).u(8, 16).u(8, 9).u(1, 1).ue(2).ue(3).u(1, 1).u(1, 1).u(1, 1).u(1, 1).ue(1).ue(2).ue(3).ue(4);
    w.u(1, 1).u(32, 1001).u(32, 60000).u(1, 1).ue(1).u(1, 1);
    rich_hrd(w);
    w.u(1, 1).u(1, 1).u(1, 1).u(1, 1).ue(7).ue(2).ue(3).ue(15).ue(14);
  }
  w.u(1, 1).u(1, 1).u(1, 1).u(1, 0).u(1, 1).u(4, 0);
  w.u(9, 0x155).u(1, 1);                                            // range, multilayer
  w.u(1, 1).u(1, 1).ue(3).ue(2).u(1, 1).ue(0);                      // SCC: palettes
  w.u(10, 1).u(9, 2).u(9, 3);
  w.u(2, 2).u(1, 1);
  return w.trail();
}
static BitW rich_pps(unsigned id, unsigned sps) {
  BitW w = nalhdr(34);
  w.ue(id).ue(sps).u(1, 1).u(1, 1).u(3, 2).u(1, 1).u(1, 1).ue(0).ue(2).code(2, any(2)).u(1, 1).u(1, 1).u(1, 1).ue(1).ue(3).ue(4);
  w.u(1, 1).u(1, 1).u(1, 1).u(1, 1).u(1, 1).u(1, 1).ue(2).ue(1).u(1, 0).ue(3).ue(4).ue(5).u(1, 1).u(1, 1).u(1, 1).u(1, 1).u(1, 0).ue(1).ue(2).u(1, 1);
  rich_sl(w);
  w.u(1, 0).ue(1).u(1, 1).u(1, 1).u(1, 0).u(1, 1).u(1, 0).u(1, 1).u(4, 0);
  w.u(1, 1).u(1, 1).u(6, 5).ue(1).u(6, 3).u(1, 1).ue(2).ue(2).ue(2).ue(2).u(1, 0).u(1, 1).ue(1).ue(2).ue(3).ue(4).u(1, 0);  // multilayer: offsets, phases
  w.u(1, 1).u(1, 1).u(1, 1).ue(1).ue(2).ue(3).u(1, 1).ue(1).u(1, 0).ue(2).ue(1).u(10, 5).u(9, 6).u(9, 7);  // SCC
  return w.trail();
}
// a B slice segment with rich_sps and rich_pps(1)
static BitW rich_slice() {
  BitW w = nalhdr(1);
  w.u(1, 0).ue(1).u(1, 0).u(9, 5);
  w.u(2, 3).ue(0).u(1, 1).u(8, 0x5a).u(1, 0);
  w.u(1, 0).ue(1).ue(1).ue(1).u(1, 1).ue(2).u(1, 1);                // its own set
  w.ue(1).ue(1).u(1, 1).u(1, 1).ue(2).u(8, 0x77).u(1, 1).u(1, 0).u(1, 1);
  w.u(1, 1).u(1, 1).u(1, 1).ue(1).ue(1).u(1, 1).u(1, 1).u(1, 0).ue(1);
  w.ue(3).ue(1);
  for (int l = 0; l < 2; l++) {
    w.u(2, 3).u(2, 1);
    w.ue(1).ue(2);                                                  // first entry: luma
    for (int k = 0; k < 6; k++) w.ue(5 + k);                        // second entry: luma and both chroma components
  }
  w.ue(2).u(1, 1).code(2, any(2)).ue(1).ue(2).ue(3).ue(4).ue(5);
  w.u(1, 1).u(1, 0).ue(3).ue(4).u(1, 0);
  w.ue(1).ue(7).u(8, 0x99).ue(2).u(16, 0x0102);
  return w;
}
static BitW kept_template(int k) {
  if (k < kTemplates) return nal_template(k, 5);
  BitW w;
  static const uint8_t T[] = {4, 137, 144, 141, 142, 149, 147, 148, 165};
  switch (k - kTemplates) {
    case 0: return rich_vps(1);
    case 1: return rich_sps(0, true);
    case 2: return rich_sps(1, true);
    case 3: return rich_sps(1, false);
    case 4: return rich_pps(1, 1);
    case 5: return rich_pps(0, 0);
    case 6: return rich_slice().trail();
    case 7: return nal_idr(0, 2, any(2));                             // with cabac_zero_words
    case 8: w = nalhdr(39); w.u(8, 5).u(8, 24).u(32, 0).u(32, 1).u(32, 0x00000200).u(32, 3).u(32, 0).u(32, 0x01000001); return w.trail();
    case 9: w = nalhdr(39); w.u(8, 255).u(8, 3).u(8, 4); w.u(32, 0x01020304); return w.trail();  // unknown type
    case 10: w = nalhdr(41, 5); w.u(32, 0).u(32, 0x00000300).u(16, 0x0103); return w.trail();
    case 11: w = nalhdr(33); w.u(32, 0); return w;
    case 12: w = nal_pps(1, 0, 2, any(2)); return w;
    case 13: w = nal_vps(1); w.b[20] = 0; return w;
  }
  uint8_t t = T[k - kTemplates - 14 < 9 ? k - kTemplates - 14 : 0];
  w = nalhdr(39);
  w.u(8, t).u(8, 60);
  if (t == 142) { w.ue(3).u(1, 0).u(1, 1).u(1, 1).u(1, 1).u(8, 9).u(8, 16).u(8, 9).u(8, 10).u(8, 10); for (int c = 0; c < 3; c++) { w.u(8, 1).u(16, 5).u(16, 6).u(16, 7).u(16, 8); } w.u(1, 1).u(4, 3); for (int i = 0; i < 9; i++) w.ue(i); for (int c = 0; c < 3; c++) { w.u(8, 1).u(16, 1).u(16, 2).u(16, 3).u(16, 4); } return w.trail(); }
  if (t == 141) { w.ue(3).u(1, 0).u(1, 1).u(32, 1000).u(32, 50).u(32, 500).u(32, 20).ue(2); for (unsigned i = 0; i < 3; i++) w.u(10, 100 + i).u(10, 200 + i); return w.trail(); }
  for (unsigned i = 0; i < 60; i++) w.u(8, t == 4 && i == 0 ? 0xff : t == 149 && i == 0 ? 0x3c : t == 165 && i == 0 ? 0x12 : (i * 7) & 0x7f);
  return w.trail();
}

// ---------------------------------------------------------------- results
// What a parse gave stays as it is: without the input, after further parsing
// with the same state, and without the state; and the other way round, the
// stored sets without the result.  The input is only read.
// params: layer (0 unit, 1 stream, 2 stream with lengths, 3 RTP, 4 box)
struct Result {
  std::unique_ptr<Nal> n; std::unique_ptr<H265BitstreamParser::BitstreamState> b; std::unique_ptr<H265RtpParser::RtpState> r; std::shared_ptr<H265ConfigurationBoxParser::ConfigurationBoxState> c;
  bool any() const { return n || b || r || c; }
};
static int shown(const Result& x) {
  ParsingOptions po;
  po.add_resolution = true; po.add_offset = po.add_length = po.add_parsed_length = true; po.add_checksum = g_fixed;
  sx_log_reset();
  if (x.n) x.n->fdump(sx_file(), 0, po);
  if (x.b) x.b->fdump(sx_file(), 0);
  if (x.r) x.r->fdump(sx_file(), 0, po);
  if (x.c) x.c->fdump(sx_file(), 0, po);
  return sx_text_save();
}
static int shown_sets(H265BitstreamParserState& st) {
  ParsingOptions po;
  sx_log_reset();
  for (unsigned i = 0; i < 2; i++) {
    if (auto v = st.GetVps(i)) v->fdump(sx_file(), 0);
    if (auto s = st.GetSps(i)) s->fdump(sx_file(), 0, po);
    if (auto p = st.GetPps(i)) p->fdump(sx_file(), 0);
  }
  return sx_text_save();
}
static std::vector<uint8_t> framed_as(int layer, const std::vector<uint8_t>& b) {
  std::vector<uint8_t> o;
  auto add = [&](const std::vector<uint8_t>& x) { for (uint8_t c : x) o.push_back(c); };
  const std::vector<uint8_t> aud = {35 << 1, 1, 0x50};
  unsigned nt = (b[0] >> 1) & 63;
  switch (layer) {
    case 0: add(b); break;
    case 1: add({0, 0, 1}); add(aud); add({0, 0, 0, 1}); add(b); break;
    case 2: add({0, 3}); add(aud); add({(uint8_t)(b.size() >> 8), (uint8_t)b.size()}); add(b); break;
    case 3: add(b); if (nt >= 48) o[0] = 47 << 1; break;
    case 5: add({48 << 1, 1, 0, 3}); add(aud); add({(uint8_t)(b.size() >> 8), (uint8_t)b.size()}); add(b); break;
    case 6: add({49 << 1, 1, (uint8_t)(0x80 | nt)}); o.insert(o.end(), b.begin() + 2, b.end()); break;
    default: add({1, 0x41, 0x60, 0, 0, 0, 9, 8, 7, 6, 5, 4, 93, 0xf0, 3, 0xfc, 0xfd, 0xf8, 0xfa, 1, 2, 0x0f, 1, 0xa0, 0, 2, 0, 3}); add(aud); add({(uint8_t)(b.size() >> 8), (uint8_t)b.size()}); add(b);
  }
  return o;
}
static Result parse_as(int layer, const uint8_t* d, size_t n, H265BitstreamParserState* st) {
  ParsingOptions po;
  po.add_resolution = po.add_offset = po.add_length = po.add_parsed_length = true; po.add_checksum = g_fixed;
  Result x;
  if (layer == 0) x.n = H265NalUnitParser::ParseNalUnit(d, n, st, po);
  else if (layer == 1) x.b = H265BitstreamParser::ParseBitstream(d, n, st, po);
  else if (layer == 2) x.b = H265BitstreamParser::ParseBitstreamNALULength(d, n, 2, st, po);
  else if (layer == 4) x.c = H265ConfigurationBoxParser::ParseConfigurationBox(d, n, st, po);
  else x.r = H265RtpParser::ParseRtp(d, n, st);
  return x;
}
static std::vector<uint8_t> kept_bytes(int k) {
  auto b = nalbytes(kept_template(k));
  if (k == kTemplates + 7 || k == 6) for (uint8_t c : {0, 0, 3, 0, 0, 3}) b.push_back(c);
  return b;
}
// the rich templates are what they are meant to be
SX_ENTRY e_rich() {
  H265BitstreamParserState st;
  ParsingOptions po;
  for (int k = 0; k < 23; k++) {
    auto b = kept_bytes(kTemplates + k);
    auto u = H265NalUnitParser::ParseNalUnit(b.data(), b.size(), &st, po);
    sx_check(u != nullptr, "unit");
    if (!u) continue;
    auto& p = *u->nal_unit_payload;
    char l[] = "rich 00"; l[5] = (char)('0' + k / 10); l[6] = (char)('0' + k % 10);
    bool ok = true;
    if (k == 0) ok = p.vps && p.vps->hrd_parameters && p.vps->vps_timing_info_present_flag;
    if (k == 1 || k == 2) ok = p.sps && p.sps->vui_parameters && p.sps->vui_parameters->hrd_parameters && p.sps->vui_parameters->bitstream_restriction_flag && p.sps->sps_scc_extension && p.sps->sps_range_extension && p.sps->st_ref_pic_set.size() == 3;
    if (k == 3) ok = p.sps && !p.sps->vui_parameters && p.sps->scaling_list_data;
    if (k == 4 || k == 5) ok = p.pps && p.pps->scaling_list_data && p.pps->pps_multilayer_extension && p.pps->pps_scc_extension;
    if (k == 6) ok = p.slice_segment_layer && p.slice_segment_layer->slice_segment_header && p.slice_segment_layer->slice_segment_header->pred_weight_table && p.slice_segment_layer->slice_segment_header->st_ref_pic_set;
    
    if (k == 8 || k == 9 || k >= 14) ok = p.sei && p.sei->payload_state;
    sx_check(ok, l);
  }
  sx_cover("rich");
}
SX_ENTRY e_kept() {
  g_dump = true;
  g_fixed = sx_choose(2, "checksums");
  int layer = (int)sx_param("layer");
  auto* st = new H265BitstreamParserState;
  ParsingOptions po;
  po.add_checksum = false;
  for (int k = 0; k < 3; k++) { auto b = nalbytes(nal_template(k, 0)); auto u = H265NalUnitParser::ParseNalUnit(b.data(), b.size(), st, po); sx_check(u != nullptr, "template"); }
  for (int k : {2, 4}) { auto b = kept_bytes(kTemplates + k); auto u = H265NalUnitParser::ParseNalUnit(b.data(), b.size(), st, po); sx_check(u != nullptr, "template"); }
  sx_check(st->GetSps(1) && st->GetPps(1), "template");
  int k1 = sx_choose(kTemplates + 23, "unit");
  std::vector<uint8_t> a = framed_as(layer, kept_bytes(k1));
  uint8_t* d = exact(a);
  Result x = parse_as(layer, d, a.size(), st);
  for (size_t i = 0; i < a.size(); i++) sx_check(d[i] == a[i], "input left as it is");
  for (size_t i = 0; i < a.size(); i++) d[i] = 0xff;
  delete[] d;
  if (!x.any()) return;
  sx_cover("parsed");
  int t = shown(x);
  if (sx_choose(2, "result first")) {
    int s = shown_sets(*st);
    x = Result();
    shown_sets(*st);
    sx_check(sx_text_same(s), "stored sets without the result");
    sx_cover("sets");
    delete st;
    return;
  }
  int k2 = sx_choose(kTemplates + 23, "next unit");
  a = framed_as(layer, kept_bytes(k2));
  d = exact(a);
  {
    Result y = parse_as(layer, d, a.size(), st);
    delete[] d;
    shown(x);
    sx_check(sx_text_same(t), "result after another parse");
    if (y.any()) { int t2 = shown(y); x = Result(); shown(y); sx_check(sx_text_same(t2), "result without the earlier one"); t = t2; x = std::move(y); }
  }
  delete st;
  shown(x);
  sx_check(sx_text_same(t), "result without the state");
  sx_cover("another");
}

// Two streams at once, with different sets under the same identifiers: each
// unit decodes as it does when its stream is alone.
// params: layer
static void base_sets(H265BitstreamParserState* st, int rich) {
  ParsingOptions po;
  po.add_checksum = false;
  auto feed = [&](const std::vector<uint8_t>& b) { auto u = H265NalUnitParser::ParseNalUnit(b.data(), b.size(), st, po); sx_check(u != nullptr, "template"); };
  if (rich) { for (int k : {0, 1, 2, 4}) feed(kept_bytes(kTemplates + k)); feed(nalbytes(nal_pps(0, 0, 2, 3))); }
  else { for (int k : {0, 1, 2}) feed(kept_bytes(k)); feed(kept_bytes(kTemplates + 12)); }
}
SX_ENTRY e_two() {
  g_dump = true;
  g_fixed = true;
  int layer = (int)sx_param("layer");
  static const int U[] = {3, 4, 10, kTemplates + 6, kTemplates + 7, kTemplates + 8, kTemplates + 14, 5};
  int k[2] = {U[sx_choose(8, "unit")], U[sx_choose(8, "next unit")]};
  int alone[2][2];
  for (int r = 0; r < 2; r++) {
    H265BitstreamParserState st;
    base_sets(&st, r);
    for (int i = 0; i < 2; i++) {
      auto a = framed_as(layer, kept_bytes(k[i]));
      uint8_t* d = exact(a);
      { Result x = parse_as(layer, d, a.size(), &st); alone[r][i] = shown(x); if (x.any()) sx_cover("parsed"); }
      delete[] d;
    }
  }
  H265BitstreamParserState s0, s1;
  base_sets(&s0, 0);
  base_sets(&s1, 1);
  int firstof = sx_choose(2, "which first");
  for (int i = 0; i < 2; i++) for (int q = 0; q < 2; q++) {
    int r = firstof ^ q;
    auto a = framed_as(layer, kept_bytes(k[i]));
    uint8_t* d = exact(a);
    { Result x = parse_as(layer, d, a.size(), r ? &s1 : &s0); shown(x); sx_check(sx_text_same(alone[r][i]), "unit next to another stream"); }
    delete[] d;
  }
  sx_cover("two");
}

// ---------------------------------------------------------------- units in other framings
// Template units with any values in RTP packets and in the configuration box:
// parsed as they are on their own, with the state shared.
struct T { int k; unsigned id; uint64_t v; std::vector<uint8_t> b; };
static T any_unit() {
  T t{sx_choose(6, "unit"), 0, 0, {}};
  if (t.k != 3 && t.k != 4 && t.k != 5) t.id = (unsigned)sx_choose(2, "id");
  BitW w;
  switch (t.k) {
    case 0: w = nal_vps(t.id); break;
    case 1: w = nal_sps(t.id); break;
    case 2: w = nal_pps(t.id, 0, 2, t.v = sx_elem(2, "code")); break;
    case 3: w = nal_idr(0, 2, t.v = sx_elem(2, "code")); break;
    case 4: w = nal_aud((unsigned)(t.v = sx_elem(3, "pic_type"))); break;
    default: w = nalhdr(39); w.u(8, 5).u(8, 17).u(16, 0).u(8, t.v = sx_elem(8, "uuid_byte")).u(40, 0).u(64, 0x0102030405060708ull).u(8, 0xee).trail();
  }
  t.b = nalbytes(w);
  return t;
}
struct Sets { bool vps[2] = {}, sps[2] = {}, pps[2] = {}; };
static void check_unit(const Hdr& h, const Pay& p, const T& t, Sets& s) {
  static const unsigned N[] = {32, 33, 34, 20, 35, 39};
  sx_check(h.nal_unit_type == N[t.k] && h.nuh_layer_id == 0 && h.nuh_temporal_id_plus1 == 1, "header");
  bool slice = t.k == 3 && s.sps[0] && s.pps[0];
  sx_check((p.vps != nullptr) == (t.k == 0) && (p.sps != nullptr) == (t.k == 1) && (p.pps != nullptr) == (t.k == 2) && (p.aud != nullptr) == (t.k == 4) && (p.sei != nullptr) == (t.k == 5) &&
    (p.slice_segment_layer != nullptr) == slice, "payload");
  if (p.vps) { sx_check(p.vps->vps_video_parameter_set_id == t.id, "VPS"); s.vps[t.id] = true; }
  if (p.sps) { sx_check(p.sps->sps_seq_parameter_set_id == t.id && p.sps->pic_width_in_luma_samples == 64, "SPS"); s.sps[t.id] = true; }
  if (p.pps) { sx_check(p.pps->pps_pic_parameter_set_id == t.id && p.pps->init_qp_minus26 == se_map(3 + (uint32_t)t.v), "PPS"); s.pps[t.id] = true; }
  if (p.slice_segment_layer && slice) { sx_cover("slice"); auto& q = p.slice_segment_layer->slice_segment_header; sx_check(q && q->slice_qp_delta == se_map(3 + (uint32_t)t.v), "slice"); }
  if (p.aud) sx_check(p.aud->pic_type == t.v, "AUD");
  if (p.sei) {
    auto& q = *p.sei;
    sx_check(q.payload_size == 17 && (unsigned)q.payload_type == 5 && q.payload_state, "SEI");
    if (q.payload_state && (unsigned)q.payload_type == 5) {
      auto& u = static_cast<H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState&>(*q.payload_state);
      sx_check(u.uuid_iso_iec_11578_1 == t.v << 40 && u.uuid_iso_iec_11578_2 == 0x0102030405060708ull && u.payload.size() == 1, "SEI payload");
      if (u.payload.size() == 1) sx_check(u.payload[0] == 0xee, "SEI payload");
    }
  }
}
static void check_sets(H265BitstreamParserState& st, const Sets& s) {
  for (unsigned i = 0; i < 2; i++) {
    auto v = st.GetVps(i); auto q = st.GetSps(i); auto p = st.GetPps(i);
    sx_check((v != nullptr) == s.vps[i] && (q != nullptr) == s.sps[i] && (p != nullptr) == s.pps[i], "stored sets");
  }
}
// params: long (1: units of more than 255 bytes, n: units of n bytes)
static void lengthen(T& t) { int64_t n = sx_param("long"); if (n == 1) t.b.resize(t.b.size() + 300, 0x80); else if (n > 1) t.b.resize((size_t)n, 0x80); }
SX_ENTRY2(e_rtpunits) {
  H265BitstreamParserState st;
  Sets s;
  int np = (int)sx_param("packets");
  for (int i = 0; i < np; i++) {
    int kind = sx_choose(3, "packet");
    T t = any_unit();
    if (kind == 0) {
      lengthen(t);
      uint8_t* d = exact(t.b);
      auto r = H265RtpParser::ParseRtp(d, t.b.size(), &st);
      delete[] d;
      sx_check(r && r->rtp_single && !r->rtp_ap && !r->rtp_fu, "single");
      if (!r || !r->rtp_single) return;
      check_unit(*r->rtp_single->nal_unit_header, *r->rtp_single->nal_unit_payload, t, s);
    } else if (kind == 1) {
      lengthen(t);
      T u = any_unit();
      std::vector<uint8_t> p = {48 << 1, 1};
      for (auto* x : {&t, &u}) { p.push_back((uint8_t)(x->b.size() >> 8)); p.push_back((uint8_t)x->b.size()); for (uint8_t c : x->b) p.push_back(c); }
      uint8_t* d = exact(p);
      auto r = H265RtpParser::ParseRtp(d, p.size(), &st);
      delete[] d;
      sx_check(r && r->rtp_ap && !r->rtp_single && !r->rtp_fu, "aggregation");
      if (!r || !r->rtp_ap) return;
      auto& a = *r->rtp_ap;
      sx_check(a.nal_unit_sizes.size() == 2 && a.nal_unit_headers.size() == 2 && a.nal_unit_payloads.size() == 2, "number of NAL units");
      if (a.nal_unit_sizes.size() != 2 || a.nal_unit_headers.size() != 2 || a.nal_unit_payloads.size() != 2) return;
      sx_check(a.nal_unit_sizes[0] == t.b.size() && a.nal_unit_sizes[1] == u.b.size(), "sizes");
      check_unit(*a.nal_unit_headers[0], *a.nal_unit_payloads[0], t, s);
      check_unit(*a.nal_unit_headers[1], *a.nal_unit_payloads[1], u, s);
    } else {
      int start = sx_choose(2, "start");
      std::vector<uint8_t> p = {49 << 1, 1, (uint8_t)(start << 7 | t.b[0] >> 1)};
      for (size_t k = 2; k < t.b.size(); k++) p.push_back(t.b[k]);
      uint8_t* d = exact(p);
      auto r = H265RtpParser::ParseRtp(d, p.size(), &st);
      delete[] d;
      sx_check(r && r->rtp_fu && !r->rtp_single && !r->rtp_ap, "fragment");
      if (!r || !r->rtp_fu) return;
      sx_check(r->rtp_fu->fu_type == (unsigned)(t.b[0] >> 1) && r->rtp_fu->s_bit == (unsigned)start && (r->rtp_fu->nal_unit_payload != nullptr) == (start == 1), "fragment");
      Hdr h;
      h.nal_unit_type = r->rtp_fu->fu_type; h.nuh_layer_id = 0; h.nuh_temporal_id_plus1 = 1;
      if (r->rtp_fu->nal_unit_payload) check_unit(h, *r->rtp_fu->nal_unit_payload, t, s);
    }
    check_sets(st, s);
  }
  sx_cover("parsed");
}
SX_ENTRY2(e_boxunits) {
  H265BitstreamParserState st;
  Sets s;
  ParsingOptions po;
  po.add_checksum = sx_choose(2, "checksum");
  int na = (int)sx_param("arrays");
  std::vector<uint8_t> p = {1, 0x41, 0x60, 0, 0, 0, 9, 8, 7, 6, 5, 4, 93, 0xf0, 3, 0xfc, 0xfd, 0xf8, 0xfa, 1, 2, 0x0f, (uint8_t)na};
  std::vector<std::vector<T>> as;
  std::vector<size_t> off;
  for (int j = 0; j < na; j++) {
    int n = 1 + sx_choose(2, "units");
    if (j) n = 1;
    p.push_back((uint8_t)(0xa0 + j)); p.push_back(0); p.push_back((uint8_t)n);
    as.push_back({});
    for (int k = 0; k < n; k++) {
      T t = any_unit();
      lengthen(t);
      p.push_back((uint8_t)(t.b.size() >> 8)); p.push_back((uint8_t)t.b.size());
      off.push_back(p.size());
      for (uint8_t c : t.b) p.push_back(c);
      as.back().push_back(t);
    }
  }
  uint8_t* d = exact(p);
  auto c = H265ConfigurationBoxParser::ParseConfigurationBox(d, p.size(), &st, po);
  delete[] d;
  sx_check(c != nullptr && c->nalUnit.size() == as.size(), "parsed");
  if (!c || c->nalUnit.size() != as.size()) return;
  sx_cover("parsed");
  for (size_t j = 0; j < as.size(); j++) {
    sx_check(c->nalUnit[j].size() == as[j].size() && c->nalUnitLength[j].size() == as[j].size(), "number of NAL units");
    if (c->nalUnit[j].size() != as[j].size()) return;
    for (size_t k = 0; k < as[j].size(); k++) {
      auto& u = c->nalUnit[j][k];
      sx_check(u != nullptr && c->nalUnitLength[j][k] == as[j][k].b.size(), "NAL unit");
      if (!u) return;
      sx_check((u->checksum != nullptr) == po.add_checksum, "checksum present");
      check_unit(*u->nal_unit_header, *u->nal_unit_payload, as[j][k], s);
    }
  }
  check_sets(st, s);
}

// ---------------------------------------------------------------- long SEI payloads
// One message with a payload of n bytes, a few of them unknown.
SX_ENTRY e_seilong() {
  size_t n = (size_t)sx_param("n") + (size_t)sx_choose(2, "one more");
  unsigned kind = (unsigned)sx_choose(3, "kind");
  static const unsigned T[] = {4, 5, 200};
  size_t head = kind == 0 ? 1 : kind == 1 ? 16 : 0;
  std::vector<uint8_t> o;
  o.push_back((uint8_t)T[kind]);
  for (size_t k = n; ; k -= 255) { o.push_back((uint8_t)(k < 255 ? k : 255)); if (k < 255) break; }
  size_t at = o.size();
  o.resize(at + n, 0x5a);
  o[at] = 0x21;
  const size_t where[] = {head, 300, n / 2, n - 257, n - 1};
  uint64_t v[5];
  for (unsigned i = 0; i < 5; i++) o[at + where[i]] = (uint8_t)(v[i] = 0x80 | sx_elem(7, "payload_byte"));
  o.push_back(0x80);
  uint8_t* d = exact(o);
  auto m = H265SeiMessageParser::ParseSei(d, o.size());
  delete[] d;
  sx_check(m && m->payload_state, "accepts");
  if (!m || !m->payload_state) return;
  sx_cover("accepted");
  sx_check((unsigned)m->payload_type == T[kind] && m->payload_size == n, "payload_size");
  const std::vector<uint8_t>* b = nullptr;
  if (kind == 0) b = &static_cast<H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State&>(*m->payload_state).payload;
  else if (kind == 1) b = &static_cast<H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState&>(*m->payload_state).payload;
  else b = &static_cast<H265SeiUnknownParser::H265SeiUnknownState&>(*m->payload_state).payload;
  sx_check(b->size() == n - head, "payload_byte.size");
  if (b->size() == n - head) for (unsigned i = 0; i < 5; i++) sx_check((*b)[where[i] - head] == (uint8_t)v[i], "payload_byte");
}

// ---------------------------------------------------------------- many units
// n slices around a changed PPS; a few of them unknown.  Whole streams.
SX_ENTRY e_manyunits() {
  int big = sx_param("big");  // a unit of this many bytes up front
  unsigned lb = big > 0 ? 3 : 2;
  unsigned n = (unsigned)sx_param("n"), framing = (unsigned)sx_choose(3, "framing");
  std::vector<uint8_t> o;
  struct U { size_t o, n; bool slice; uint64_t v; };
  std::vector<U> us;
  auto put = [&](const std::vector<uint8_t>& b, bool slice, uint64_t v) {
    if (framing == 0) { o.push_back(0); o.push_back(0); o.push_back(1); }
    else if (framing == 1) { for (int k = (int)lb * 8 - 8; k >= 0; k -= 8) o.push_back((uint8_t)(b.size() >> k)); }
    else { for (int k = 24; k >= 0; k -= 8) o.push_back((uint8_t)(b.size() >> k)); }
    us.push_back(U{o.size(), b.size(), slice, v});
    o.insert(o.end(), b.begin(), b.end());
  };
  auto add = [&](const BitW& w, bool slice, uint64_t v) { put(nalbytes(w), slice, v); };
  if (big > 0) {
    std::vector<uint8_t> u((size_t)big, 0x55);
    u[0] = 48 << 1; u[1] = 1; u[(size_t)big - 1] = (uint8_t)sx_elem(7, "last byte") | 0x80;
    put(u, false, 0);
  }
  add(nal_sps(0), false, 0);
  add(nal_pps(0, 0, 2, 1), false, 0);
  for (unsigned i = 0; i < n; i++) {
    bool sym = i == 0 || i == 251 || i == 254 || i == n / 2 || i == n - 1;
    uint64_t v = sym ? sx_elem(2, "code") : i & 3;
    if (i == n - 2) add(nal_pps(0, 0, 2, 2), false, 0);
    add(nal_idr(0, 2, v), true, v);
  }
  uint8_t* d = exact(o);
  H265BitstreamParserState st;
  ParsingOptions po;
  po.add_checksum = false;
  auto bs = framing == 0 ? H265BitstreamParser::ParseBitstream(d, o.size(), &st, po) : H265BitstreamParser::ParseBitstreamNALULength(d, o.size(), framing == 1 ? lb : 4, &st, po);
  sx_check(bs && bs->nal_units.size() == us.size(), "number of NAL units");
  if (bs && bs->nal_units.size() == us.size()) for (size_t i = 0; i < us.size(); i++) {
    auto& g = *bs->nal_units[i];
    sx_check(g.offset == us[i].o, "offset");
    sx_check(g.length == us[i].n, "length");
    auto& l = g.nal_unit_payload->slice_segment_layer;
    sx_check((l != nullptr) == us[i].slice, "slice accepted");
    if (l && us[i].slice) sx_check(l->slice_segment_header->slice_qp_delta == se_map(3 + (uint32_t)us[i].v), "slice");
  }
  sx_cover("parsed");
  if (framing == 0) {
    H265BitstreamParserState st2;
    auto qp = H265Utils::GetSliceQpY(d, o.size(), &st2);
    sx_check(qp.size() == n, "number of slice QPs");
    size_t k = 0;
    for (size_t i = 0; i < us.size() && k < qp.size(); i++) if (us[i].slice) { sx_check(qp[k] == 26 + se_map(3 + (k < n - 2 ? 1u : 2u)) + se_map(3 + (uint32_t)us[i].v), "slice QP"); k++; }
  }
  delete[] d;
}
