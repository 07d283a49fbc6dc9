// Syntax structures on streams that are unconstrained from the first element:
// nothing may go wrong, whatever the elements and wherever the data ends.
#include "stream.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_pps_multilayer_extension_parser.h"
#include "h265_pps_parser.h"
#include "h265_pps_scc_extension_parser.h"
#include "h265_pred_weight_table_parser.h"
#include "h265_profile_tier_level_parser.h"
#include "h265_scaling_list_data_parser.h"
#include "h265_sps_3d_extension_parser.h"
#include "h265_sps_multilayer_extension_parser.h"
#include "h265_sps_range_extension_parser.h"
#include "h265_sps_scc_extension_parser.h"
#include "h265_st_ref_pic_set_parser.h"
#include "h265_sub_layer_hrd_parameters_parser.h"
#include "h265_vui_parameters_parser.h"
using namespace h265nal;
#define RUN(x) { auto p = x; if (p) { p->fdump(sx_file(), 0); sx_cover("parsed"); } else sx_cover("refused"); break; }
// params: what, n (elements)
SX_ENTRY e_free() {
  st::reset();
  st::S.free = true; st::S.left = (int)sx_param("n");
  // any arguments; those that come from parsed values are arbitrary
  uint32_t a = 0, b = 0, c = 0;
  int k = (int)sx_param("what");
  switch (k) {
    case 0: a = (uint32_t)sx_elem(3, "maxNumSubLayersMinus1"); b = (uint32_t)sx_elem(1, "present"); break;
    case 1: a = (uint32_t)sx_elem(3, "maxNumSubLayersMinus1"); b = (uint32_t)sx_elem(1, "common"); break;
    case 2: a = (uint32_t)sx_elem(5, "CpbCnt") + 1; c = (uint32_t)sx_elem(3, "subLayerId"); b = (uint32_t)sx_elem(1, "sub_pic"); break;
    case 3: a = (uint32_t)sx_elem(3, "sps_max_sub_layers_minus1"); break;
    case 5: a = (uint32_t)sx_elem(2, "ChromaArrayType"); b = (uint32_t)sx_elem(32, "l0"); c = (uint32_t)sx_elem(32, "l1"); break;
    case 9: a = (uint32_t)sx_elem(2, "chroma_format_idc"); b = (uint32_t)sx_elem(4, "bdl"); c = (uint32_t)sx_elem(4, "bdc"); break;
  }
  BitBuffer* bb = st::open(true);
  switch (k) {
    case 0: RUN(H265ProfileTierLevelParser::ParseProfileTierLevel(bb, b != 0, a))
    case 1: RUN(H265HrdParametersParser::ParseHrdParameters(bb, b, a))
    case 2: RUN(H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(bb, c, a, b))
    case 3: RUN(H265VuiParametersParser::ParseVuiParameters(bb, a))
    case 4: RUN(H265ScalingListDataParser::ParseScalingListData(bb))
    case 5: RUN(H265PredWeightTableParser::ParsePredWeightTable(bb, a, b, true, c))
    case 6: RUN(H265SpsRangeExtensionParser::ParseSpsRangeExtension(bb))
    case 7: RUN(H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(bb))
    case 8: RUN(H265Sps3dExtensionParser::ParseSps3dExtension(bb))
    case 9: RUN(H265SpsSccExtensionParser::ParseSpsSccExtension(bb, a, b, c))
    case 10: RUN(H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(bb))
    case 11: RUN(H265PpsSccExtensionParser::ParsePpsSccExtension(bb))
    case 12: RUN(H265PpsParser::ParsePps(bb))
    case 13: {
      // sets of a parameter set, then one of a slice header
      unsigned num = (unsigned)sx_param("sets");
      std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
      for (unsigned i = 0; i <= num; i++) {
        auto p = H265StRefPicSetParser::ParseStRefPicSet(bb, i, num, &v, 15);
        if (!p) { sx_cover("refused"); break; }
        p->fdump(sx_file(), 0); sx_cover("parsed");
        v.push_back(std::move(p));
      }
      break;
    }
  }
}
