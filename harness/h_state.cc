// NAL units and the parsing state: which parser sees a payload, and which
// stored parameter set is replaced.
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include "ref_sps.h"
#include "ref_pps.h"
#include "ref_vps.h"
#include "ref_slice.h"
#include "ref_sei.h"
#include "h265_nal_unit_parser.h"
using namespace h265nal;
static SpsM g_sps;
static PpsM g_pps;
static VpsM g_vps;
static SliceM g_sl;
static SeiM g_sei;
enum { NONE = 0, SLICE, VPS, SPS, PPS, AUD, SEI, NKIND };

static int kind_of(uint64_t t) {
  // Table 7-1
  if (t <= 9 || (t >= 16 && t <= 21)) return SLICE;
  if (t == 32) return VPS;
  if (t == 33) return SPS;
  if (t == 34) return PPS;
  if (t == 35) return AUD;
  if (t == 39 || t == 40) return SEI;
  return NONE;
}
// a stored parameter set in zeroed memory of its own, so that any later write
// to the object can be seen
template <class T> struct Kept {
  uint8_t* mem; uint8_t* old; std::shared_ptr<T> p; uint64_t id;
  void make(const char* name) {
    mem = (uint8_t*)malloc(sizeof(T)); old = (uint8_t*)malloc(sizeof(T));
    for (size_t i = 0; i < sizeof(T); i++) mem[i] = 0;
    p = std::shared_ptr<T>(new (mem) T(), [](T*) {});
    id = sx_elem(8, name);
  }
  void snap() { for (size_t i = 0; i < sizeof(T); i++) old[i] = mem[i]; }
  bool same() {
    bool s = true;
    for (size_t i = 0; i < sizeof(T); i++) if (mem[i] != old[i]) { s = false; break; }
    return s;
  }
};
template <class T> static void check_map(const std::map<uint32_t, std::shared_ptr<T>>& now, std::map<uint32_t, std::shared_ptr<T>>& want) {
  sx_check(now.size() == want.size(), "number of stored sets");
  auto b = want.begin();
  for (auto a = now.begin(); a != now.end() && b != want.end(); ++a, ++b) {
    sx_check(a->first == b->first, "ids of the stored sets");
    sx_check(a->second.get() == b->second.get(), "stored sets");
  }
}
// params: steps, trunc, unit1 / unit2 (0: any type, otherwise kind + 1)
SX_ENTRY e_state() {
  g_dump = false;
  H265BitstreamParserState bs;
  Kept<H265VpsParser::VpsState> kv; Kept<H265SpsParser::SpsState> ks; Kept<H265PpsParser::PpsState> kp;
  kv.make("stored_vps_id"); ks.make("stored_sps_id"); kp.make("stored_pps_id");
  st::reset();
  ParamSets q = make_ps();
  // the slice's parameter sets are the stored ones, with the fields it uses
#define CP(o, f) o.p->f = q.o2->f
#define o2 sps
  CP(ks, chroma_format_idc); CP(ks, pic_width_in_luma_samples); CP(ks, pic_height_in_luma_samples); CP(ks, log2_max_pic_order_cnt_lsb_minus4);
  CP(ks, log2_diff_max_min_luma_coding_block_size); CP(ks, log2_min_luma_coding_block_size_minus3);
#undef o2
#define o2 pps
  CP(kp, output_flag_present_flag);
#undef o2
  kp.p->pps_seq_parameter_set_id = (uint32_t)sx_elem(8, "stored_pps_sps_id");
  bs.vps[(uint32_t)kv.id] = kv.p; bs.sps[(uint32_t)ks.id] = ks.p; bs.pps[(uint32_t)kp.id] = kp.p;
  kv.snap(); ks.snap(); kp.snap();
  auto wv = bs.vps; auto ws = bs.sps; auto wp = bs.pps;
  bool replaced = false;  // the sets the reference knows about may be gone
  int steps = (int)sx_param("steps");
  std::unique_ptr<H265NalUnitParser::NalUnitState> keep[3];
  for (int i = 0; i < steps; i++) {
    st::reset();
    Ref r; r.trunc = false;
    unsigned b = sx_in_mark();
    r.u(1, "forbidden_zero_bit");
    uint64_t t = r.u(6, i ? "nal_unit_type2" : "nal_unit_type");
    r.u(6, "nuh_layer_id"); r.u(3, "nuh_temporal_id_plus1");
    (void)b;
    // (explored by case: one path per type)
    int kind = kind_of(sx_concretize(t));
    // a type without a payload of its own may carry anything
    int content = kind == NONE ? sx_choose(NKIND - 1, "content") + 1 : kind;
    r.trunc = sx_param("trunc") == 1;
    bool full = false, known = true;
    switch (content) {
      case VPS: full = ref_vps(r, g_vps); break;
      case SPS: full = ref_sps(r, g_sps); break;
      case PPS: full = ref_pps(r, g_pps); break;
      case AUD: r.u(3, "pic_type"); full = !r.eof; break;
      case SEI: ref_sei(r, g_sei, 0); full = g_sei.head; break;
      default: {
        std::map<uint32_t, uint32_t> m; m[(uint32_t)kp.id] = kp.p->pps_seq_parameter_set_id == (uint32_t)ks.id;
        full = ref_slice(r, g_sl, (unsigned)t, q, m, 0);
        known = !replaced;
      }
    }
    bool ok = content == SEI ? full : r.judge(full);
    ParsingOptions po; po.add_checksum = false;
    auto n = H265NalUnitParser::ParseNalUnit(st::open(full), &bs, po);
    sx_check(n != nullptr && n->nal_unit_header && n->nal_unit_payload, "NAL unit parsed");
    if (!n || !n->nal_unit_header || !n->nal_unit_payload) return;
    sx_check(n->nal_unit_header->nal_unit_type == t, "nal_unit_type");
    const auto& p = *n->nal_unit_payload;
    sx_check(!p.slice_segment_layer || kind == SLICE, "slice payload only for slices");
    sx_check(!p.vps || kind == VPS, "VPS payload only for a VPS");
    sx_check(!p.sps || kind == SPS, "SPS payload only for an SPS");
    sx_check(!p.pps || kind == PPS, "PPS payload only for a PPS");
    sx_check(!p.aud || kind == AUD, "AUD payload only for an AUD");
    sx_check(!p.sei || kind == SEI, "SEI payload only for an SEI message");
    bool got = kind == SLICE ? p.slice_segment_layer != nullptr : kind == VPS ? p.vps != nullptr : kind == SPS ? p.sps != nullptr : kind == PPS ? p.pps != nullptr :
               kind == AUD ? p.aud != nullptr : kind == SEI ? p.sei != nullptr : false;
    if (kind != NONE && known) sx_check(got == ok, ok ? "payload handed to its parser" : "payload refused");
    if (kind == SLICE && p.slice_segment_layer && p.slice_segment_layer->slice_segment_header) sx_check(p.slice_segment_layer->slice_segment_header->nal_unit_type == t, "type passed to the slice parser");
    if (kind == VPS && p.vps) { wv[p.vps->vps_video_parameter_set_id] = p.vps; sx_check(p.vps->vps_video_parameter_set_id == VAL(g_vps.s, "vps_video_parameter_set_id", 0), "id"); }
    if (kind == SPS && p.sps) { ws[p.sps->sps_seq_parameter_set_id] = p.sps; sx_check(p.sps->sps_seq_parameter_set_id == VAL(g_sps.s, "sps_seq_parameter_set_id", 0), "id"); }
    if (kind == PPS && p.pps) { wp[p.pps->pps_pic_parameter_set_id] = p.pps; sx_check(p.pps->pps_pic_parameter_set_id == VAL(g_pps.s, "pps_pic_parameter_set_id", 0), "id"); }
    if (got && (kind == VPS || kind == SPS || kind == PPS)) { replaced = true; sx_cover("stored"); }
    if (kind != NONE && !got) sx_cover("refused");
    if (kind == SLICE && got) sx_cover("slice");
    check_map(bs.vps, wv); check_map(bs.sps, ws); check_map(bs.pps, wp);
    sx_check(kv.same() && ks.same() && kp.same(), "stored sets are left untouched");
    keep[i] = std::move(n);
  }
}
// Accessors: the stored set of that id, or nothing
SX_ENTRY e_access() {
  H265BitstreamParserState bs;
  uint32_t id[2];
  int n = sx_choose(3, "stored");
  std::shared_ptr<H265VpsParser::VpsState> v[2]; std::shared_ptr<H265SpsParser::SpsState> s[2]; std::shared_ptr<H265PpsParser::PpsState> p[2];
  for (int i = 0; i < n; i++) {
    id[i] = (uint32_t)sx_elem(32, "stored_id");
    if (i == 1) sx_assume(id[1] != id[0]);
    bs.vps[id[i]] = v[i] = std::make_shared<H265VpsParser::VpsState>();
    bs.sps[id[i]] = s[i] = std::make_shared<H265SpsParser::SpsState>();
    bs.pps[id[i]] = p[i] = std::make_shared<H265PpsParser::PpsState>();
  }
  uint32_t a = (uint32_t)sx_elem(32, "asked_id");
  int k = -1;
  for (int i = 0; i < n; i++) if (id[i] == a) k = i;
  sx_cover(k < 0 ? "absent" : "present");
  sx_check(bs.GetVps(a).get() == (k < 0 ? nullptr : v[k].get()), "GetVps");
  sx_check(bs.GetSps(a).get() == (k < 0 ? nullptr : s[k].get()), "GetSps");
  sx_check(bs.GetPps(a).get() == (k < 0 ? nullptr : p[k].get()), "GetPps");
  sx_check((int)bs.vps.size() == n && (int)bs.sps.size() == n && (int)bs.pps.size() == n, "asking changes nothing");
}
