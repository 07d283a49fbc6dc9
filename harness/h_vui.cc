#include "ref_vui.h"
using namespace h265nal;

// params: maxsub, common, trunc, dump
SX_ENTRY2(e_hrd) {
  unsigned maxsub = (unsigned)sx_param("maxsub");
  g_dump = sx_param("dump") == 1;
  bool common = sx_param("common") != 0;
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  HrdM m;
  bool full = ref_hrd(r, m, common, maxsub), ok = r.judge(full);
  BitBuffer* bb = st::open(full);
  auto p = H265HrdParametersParser::ParseHrdParameters(bb, common, maxsub);
  sx_check((p != nullptr) == ok, ok ? "accepts" : "rejects");
  if (!p || !ok) { sx_cover("rejected"); return; }
  sx_cover("accepted");
  sx_check(st::at_end(), "consumed exactly");
  cmp_hrd(*p, m);
  KEEP(p);
}
SX_ENTRY2(e_vui) {
  unsigned maxsub = (unsigned)sx_param("maxsub");
  g_dump = sx_param("dump") == 1;
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  VuiM m;
  bool full = ref_vui(r, m, maxsub), ok = r.judge(full);
  BitBuffer* bb = st::open(full);
  auto p = H265VuiParametersParser::ParseVuiParameters(bb, maxsub);
  sx_check((p != nullptr) == ok, ok ? "accepts" : "rejects");
  if (!p || !ok) { sx_cover("rejected"); return; }
  sx_cover("accepted");
  sx_check(st::at_end(), "consumed exactly");
  sx_check(p->sps_max_sub_layers_minus1 == maxsub, "sps_max_sub_layers_minus1");
  cmp_vui(*p, m);
  KEEP(p);
}
// frame rate derived from the timing information
SX_ENTRY e_framerate() {
  H265VuiParametersParser::VuiParametersState v;
  v.vui_timing_info_present_flag = (uint32_t)sx_elem(1, "vui_timing_info_present_flag");
  v.vui_num_units_in_tick = 1001; v.vui_time_scale = 60000;
  (void)v.getFramerate();
}
