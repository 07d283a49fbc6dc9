// Parameter sets
#include "ref_sps.h"
#include "ref_pps.h"
#include "ref_vps.h"
using namespace h265nal;
static SpsM g_spss[2];
static PpsM g_ppss[2];
static VpsM g_vpss[2];
#define g_sps g_spss[g_round]
#define g_pps g_ppss[g_round]
#define g_vps g_vpss[g_round]

#ifdef FDUMP_DEFINE
static void dump_it(const H265SpsParser::SpsState& p) { ParsingOptions o; o.add_resolution = true; p.fdump(sx_file(), 0, o); }
template <class P> static void dump_it(const P& p) { p.fdump(sx_file(), 0); }
#else
template <class P> static void dump_it(const P&) {}
#endif
#define BEGIN() g_dump = sx_param("dump") == 1; st::reset(); Ref r; r.trunc = sx_param("trunc") == 1
// past the reference: only that nothing goes wrong
#define OPEN_ENDED(p) if (sx_param("free") > 0) { if (p) { dump_it(*p); sx_cover("open end"); } sx_stop(); }
#define JUDGE(p, ok) \
  OPEN_ENDED(p) \
  sx_check((p != nullptr) == ok, ok ? "accepts" : (r.eof ? "rejects truncated" : "rejects out of range")); \
  if (!p || !ok) { sx_cover("rejected"); return; } \
  sx_cover("accepted")

// params: trunc, dump, slfree, slone
SX_ENTRY2(e_sps) {
  BEGIN();
  bool full = ref_sps(r, g_sps), ok = r.judge(full);
  auto p = H265SpsParser::ParseSps(st::open(full));
  JUDGE(p, ok);
  sx_check(st::at_end(), "consumed exactly");
  cmp_sps(*p, g_sps);
  KEEP_SPS(p);
}
SX_ENTRY2(e_pps) {
  BEGIN();
  bool full = ref_pps(r, g_pps), ok = r.judge(full);
  auto p = H265PpsParser::ParsePps(st::open(full));
  JUDGE(p, ok);
  sx_check(st::at_end(), "consumed exactly");
  cmp_pps(*p, g_pps);
  KEEP(p);
}
SX_ENTRY2(e_vps) {
  BEGIN();
  bool full = ref_vps(r, g_vps), ok = r.judge(full);
  auto p = H265VpsParser::ParseVps(st::open(full));
  JUDGE(p, ok);
  sx_check(st::at_end(), "consumed exactly");
  cmp_vps(*p, g_vps);
  KEEP(p);
}
// extensions on their own (params: ext selects which; cfi/bd for SCC)
SX_ENTRY2(e_ext) {
  BEGIN();
  int k = (int)sx_param("ext");
  SpsRangeM a; SpsMlM b; Sps3dM c; SpsSccM d; PpsMlM e; PpsSccM f;
  uint64_t cfi = 0, bl = 0, bc = 0;
  bool full = false;
  switch (k) {
    case 0: full = ref_sps_range(r, a); break;
    case 1: full = ref_sps_ml(r, b); break;
    case 2: full = ref_sps_3d(r, c); break;
    case 3: cfi = sx_elem(2, "chroma_format_idc"); bl = sx_elem(4, "bit_depth_luma_minus8"); bc = sx_elem(4, "bit_depth_chroma_minus8");
            sx_assume(bl <= 8 && bc <= 8); full = ref_sps_scc(r, d, cfi, bl, bc); break;
    case 4: full = ref_pps_ml(r, e); break;
    default: full = ref_pps_scc(r, f); break;
  }
  bool ok = r.judge(full);
  BitBuffer* bb = st::open(full);
#define ONE(call, cmp, m) { auto p = call; JUDGE(p, ok); sx_check(st::at_end(), "consumed exactly"); cmp(*p, m); KEEP(p); break; }
  switch (k) {
    case 0: ONE(H265SpsRangeExtensionParser::ParseSpsRangeExtension(bb), cmp_sps_range, a)
    case 1: ONE(H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(bb), cmp_sps_ml, b)
    case 2: ONE(H265Sps3dExtensionParser::ParseSps3dExtension(bb), cmp_sps_3d, c)
    case 3: ONE(H265SpsSccExtensionParser::ParseSpsSccExtension(bb, (uint32_t)cfi, (uint32_t)bl, (uint32_t)bc), cmp_sps_scc, d)
    case 4: ONE(H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(bb), cmp_pps_ml, e)
    default: ONE(H265PpsSccExtensionParser::ParsePpsSccExtension(bb), cmp_pps_scc, f)
  }
}
