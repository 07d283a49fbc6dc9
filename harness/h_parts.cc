#include "ref_sl.h"
#include "ref_rps.h"
#include "ref_pwt.h"
using namespace h265nal;
static RpsM g_rpss[2][66];
static SlM g_sls[2];
#define g_rps g_rpss[g_round]
#define g_sl g_sls[g_round]
// params: slfree, slone, trunc, dump
SX_ENTRY2(e_sl) {
  g_dump = sx_param("dump") == 1;
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  bool full = ref_sl(r, g_sl), ok = r.judge(full);
  BitBuffer* bb = st::open(full);
  auto p = H265ScalingListDataParser::ParseScalingListData(bb);
  sx_check((p != nullptr) == ok, ok ? "accepts" : "rejects");
  if (!p || !ok) { sx_cover("rejected"); return; }
  sx_cover("accepted");
  sx_check(st::at_end(), "consumed exactly");
  cmp_sl(*p, g_sl);
  KEEP(p);
}
// params: num (sets in the parameter set), slice (1: also a set in a slice header), maxpics
SX_ENTRY2(e_rps) {
  g_dump = sx_param("dump") == 1;
  unsigned num = (unsigned)sx_param("num"), n = num + (sx_param("slice") ? 1 : 0);
  unsigned maxp = (unsigned)sx_param("maxpics");
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  bool full = true;
  unsigned done = 0;
  for (unsigned i = 0; i < n && full; i++) { full = ref_rps(r, g_rps, i, num, maxp); if (r.judge(full)) done++; }
  BitBuffer* bb = st::open(full);
  std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
  for (unsigned i = 0; i < n; i++) {
    auto p = H265StRefPicSetParser::ParseStRefPicSet(bb, i, num, &v, maxp);
    sx_check((p != nullptr) == (i < done), i < done ? "accepts" : "rejects");
    if (!p) { sx_cover("rejected"); return; }
    if (i >= done) return;
    v.push_back(std::move(p));
  }
  sx_cover("accepted");
  sx_check(st::at_end(), "consumed exactly");
  for (unsigned i = 0; i < n; i++) { cmp_rps(*v[i], g_rps[i], i, num); if (g_rps[i].inter) sx_cover("inter"); }
  KEEP(v[n - 1]);
}
// params: n0, n1 (num_ref_idx_lX_active_minus1), cat (ChromaArrayType), b (B slice)
SX_ENTRY2(e_pwt) {
  g_dump = sx_param("dump") == 1;
  unsigned n0 = (unsigned)sx_param("n0"), cat = (unsigned)sx_param("cat"), n1 = (unsigned)sx_param("n1");
  bool isb = sx_param("b") == 1;
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  PwtM m;
  bool full = ref_pwt(r, m, cat, n0, isb, n1), ok = r.judge(full);
  BitBuffer* bb = st::open(full);
  auto p = H265PredWeightTableParser::ParsePredWeightTable(bb, cat, n0, isb, n1);
  sx_check((p != nullptr) == ok, ok ? "accepts" : "rejects");
  if (!p || !ok) { sx_cover("rejected"); return; }
  sx_cover("accepted");
  sx_check(st::at_end(), "consumed exactly");
  sx_check(p->ChromaArrayType == cat && p->num_ref_idx_l0_active_minus1 == n0, "inputs recorded");
  cmp_pwt(*p, m);
  KEEP(p);
}
