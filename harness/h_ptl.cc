#include "ref_ptl.h"
using namespace h265nal;

// params: maxsub (number of sub-layers minus 1), trunc, dump
SX_ENTRY2(e_ptl) {
  int maxsub = (int)sx_param("maxsub");
  g_dump = sx_param("dump") == 1;
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  PtlM m;
  bool ok = ref_ptl(r, m, true, maxsub);
  BitBuffer* bb = st::open(ok);
  auto p = H265ProfileTierLevelParser::ParseProfileTierLevel(bb, true, maxsub);
  sx_check((p != nullptr) == ok, ok ? "accepts" : "rejects truncated");
  if (!p || !ok) { sx_cover("rejected"); return; }
  sx_cover("accepted");
  sx_check(st::at_end(), "consumed exactly");
  cmp_ptl(*p, m);
  KEEP(p);
}
