// Slice segment headers
#include <map>
#include "ref_slice.h"
#include "ref_sps.h"
#include "ref_pps.h"
using namespace h265nal;
static SliceM g_ms[2];
#define g_m g_ms[g_round]
// what the parameter sets of a slice hold
struct SetsNow {
#define X(f) uint64_t s_##f;
  SPS_FIELDS(X)
#undef X
#define X(f) uint64_t p_##f;
  PPS_FIELDS(X)
#undef X
  int64_t more[9];
  size_t n[4];
  bool part[9];
};
static void sets_now(SetsNow& w, const H265SpsParser::SpsState& s, const H265PpsParser::PpsState& p) {
#define X(f) w.s_##f = s.f;
  SPS_FIELDS(X)
#undef X
#define X(f) w.p_##f = p.f;
  PPS_FIELDS(X)
#undef X
  int64_t m[] = {p.init_qp_minus26, p.pps_cb_qp_offset, p.pps_cr_qp_offset, p.pps_beta_offset_div2, p.pps_tc_offset_div2, p.uniform_spacing_flag, p.loop_filter_across_tiles_enabled_flag,
    s.sps_scc_extension ? s.sps_scc_extension->motion_vector_resolution_control_idc : 0, p.pps_scc_extension ? p.pps_scc_extension->pps_slice_act_qp_offsets_present_flag : 0};
  for (int i = 0; i < 9; i++) w.more[i] = m[i];
  size_t n[] = {s.st_ref_pic_set.size(), s.lt_ref_pic_poc_lsb_sps.size(), p.column_width_minus1.size(), p.row_height_minus1.size()};
  for (int i = 0; i < 4; i++) w.n[i] = n[i];
  bool b[] = {s.profile_tier_level != nullptr, s.scaling_list_data != nullptr, s.vui_parameters != nullptr, s.sps_range_extension != nullptr, s.sps_multilayer_extension != nullptr, s.sps_scc_extension != nullptr,
    p.scaling_list_data != nullptr, p.pps_multilayer_extension != nullptr, p.pps_scc_extension != nullptr};
  for (int i = 0; i < 9; i++) w.part[i] = b[i];
}
static void sets_same(const SetsNow& a, const SetsNow& b) {
  bool ok = true;
#define X(f) ok &= a.s_##f == b.s_##f;
  SPS_FIELDS(X)
#undef X
  sx_check(ok, "result: SPS left as it is");
  ok = true;
#define X(f) ok &= a.p_##f == b.p_##f;
  PPS_FIELDS(X)
#undef X
  for (int i = 0; i < 9; i++) ok &= a.more[i] == b.more[i];
  sx_check(ok, "result: PPS left as it is");
  ok = true;
  for (int i = 0; i < 4; i++) ok &= a.n[i] == b.n[i];
  for (int i = 0; i < 9; i++) ok &= a.part[i] == b.part[i];
  sx_check(ok, "result: parts left as they are");
}
// params: rps (number of sets in the SPS), trunc, dump
SX_ENTRY2(e_slice) {
  g_dump = sx_param("dump") == 1;
  unsigned nut = (unsigned)sx_elem(6, "nut"), num = (unsigned)sx_param("rps");
  st::reset();
  Ref r;
  ParamSets q = make_ps();
  // the SPS's own sets are part of the stream
  for (unsigned i = 0; i < num; i++) if (!ref_rps(r, g_m.rps, i, num, 15) || r.rej) sx_prune("rejected SPS");
  r.trunc = sx_param("trunc") == 1;
  // PPS 3 refers to the SPS we have, PPS 5 to one that was never received
  std::map<uint32_t, uint32_t> known; known[3] = 1; known[5] = 0;
  bool full = ref_slice(r, g_m, nut, q, known, num), ok = r.judge(full);
  BitBuffer* bb = st::open(full);
  for (unsigned i = 0; i < num; i++) {
    auto e = H265StRefPicSetParser::ParseStRefPicSet(bb, i, num, &q.sps->st_ref_pic_set, 15);
    if (!e) sx_prune("SPS set refused");
    q.sps->st_ref_pic_set.push_back(std::move(e));
  }
  q.sps->num_short_term_ref_pic_sets = num;
  q.sps->sps_seq_parameter_set_id = 7; q.pps->pps_seq_parameter_set_id = 7; q.pps->pps_pic_parameter_set_id = 3;
  H265BitstreamParserState bs;
  bs.sps[7] = q.sps; bs.pps[3] = q.pps;
  auto other = std::make_shared<H265PpsParser::PpsState>();
  other->pps_pic_parameter_set_id = 5; other->pps_seq_parameter_set_id = 2;
  bs.pps[5] = other;
  SetsNow before, after;
  const bool keep = sx_param("keep") == 1;
  if (keep) sets_now(before, *q.sps, *q.pps);
  auto p = H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(bb, nut, &bs);
  if (keep) {
    sets_now(after, *q.sps, *q.pps);
    sets_same(before, after);
    sx_check(bs.sps.size() == 1 && bs.pps.size() == 2 && bs.vps.size() == 0 && bs.sps[7] == q.sps && bs.pps[3] == q.pps && bs.pps[5] == other, "result: stored sets left as they are");
  }
  if (sx_param("free") > 0) {
#ifdef FDUMP_DEFINE
    if (p) p->fdump(sx_file(), 0);
#endif
    if (p) sx_cover("open end");
    sx_stop();
  }
  sx_check((p != nullptr) == ok, ok ? "accepts" : (r.eof ? "rejects truncated" : "rejects out of range"));
  if (!p || !ok) { sx_cover("rejected"); return; }
  sx_cover(g_m.dep ? "dependent" : g_m.isB ? "B" : g_m.isP ? "P" : "I");
  sx_check(st::at_end(), "consumed exactly");
  cmp_slice(*p, g_m, q, num);
  KEEP(p);
}
