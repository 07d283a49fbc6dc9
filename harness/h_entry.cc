// The entry points that take the bytes of a single structure: unescaping followed by parsing.
#include <vector>
#include "sx.h"
#include "bytes.h"
#include "bitw.h"
#include "h265_aud_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_nal_unit_header_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_nal_unit_payload_parser.h"
#include "h265_pps_multilayer_extension_parser.h"
#include "h265_pps_parser.h"
#include "h265_pps_scc_extension_parser.h"
#include "h265_pred_weight_table_parser.h"
#include "h265_profile_tier_level_parser.h"
#include "h265_scaling_list_data_parser.h"
#include "h265_sei_parser.h"
#include "h265_slice_parser.h"
#include "h265_sps_3d_extension_parser.h"
#include "h265_sps_multilayer_extension_parser.h"
#include "h265_sps_parser.h"
#include "h265_sps_range_extension_parser.h"
#include "h265_sps_scc_extension_parser.h"
#include "h265_st_ref_pic_set_parser.h"
#include "h265_sub_layer_hrd_parameters_parser.h"
#include "h265_vps_parser.h"
#include "h265_vui_parameters_parser.h"
using namespace h265nal;

static std::vector<uint8_t> escaped(const std::vector<uint8_t>& p) {
  std::vector<uint8_t> o;
  int z = 0;
  for (uint8_t c : p) {
    if (z >= 2 && c <= 3) { o.push_back(3); z = 0; }
    o.push_back(c);
    z = c == 0 ? z + 1 : 0;
  }
  return o;
}
template <class A, class B> static void cmp(A a, B b) {
  sx_check((a != nullptr) == (b != nullptr), "accepted alike");
  if (!a || !b) { sx_cover("refused"); return; }
  sx_cover("parsed");
  sx_log_reset();
  a->fdump(sx_file(), 0);
  int k = sx_text_save();
  sx_log_reset();
  b->fdump(sx_file(), 0);
  sx_check(sx_text_same(k), "decoded alike");
}
static uint32_t pick(int n, const char* name) { return (uint32_t)sx_choose(n, name); }
// params: what, n (free bytes), m (fixed bytes after them)
SX_ENTRY e_entry() {
  static const uint8_t tail[] = {0, 0, 1, 0xa5, 0, 0, 3, 0x5a, 0x80, 0, 0, 0, 0xff, 0x11};
  int what = (int)sx_param("what"), n = (int)sx_param("n"), m = (int)sx_param("m");
  H265BitstreamParserState st;
  std::vector<uint8_t> v, t;
  BitW w;
  uint32_t type = 0;
  switch (what) {
    case 14: w = nal_vps(1); break;
    case 15: w = nal_sps((unsigned)pick(2, "id")); break;
    case 16: w = nal_pps(0, 0, 2, sx_elem(2, "qp")); break;
    case 17: case 18: case 19:
      st.sps[0] = [&] { std::vector<uint8_t> x; nal_sps(0).to(x); BitBuffer b(x.data() + 2, x.size() - 2); return H265SpsParser::ParseSps(&b); }();
      st.pps[0] = [&] { std::vector<uint8_t> x; nal_pps(0, 0, 2, 1).to(x); BitBuffer b(x.data() + 2, x.size() - 2); return H265PpsParser::ParsePps(&b); }();
      type = pick(2, "idr") ? 20 : 1;
      w = nal_slice(type, 1, 0, sx_elem(8, "poc"), 0, 2, sx_elem(2, "qp"));
      break;
    case 22: switch (pick(5, "kind")) { case 0: w = nal_vps(1); break; case 1: w = nal_sps(0); break; case 2: w = nal_pps(0, 0, 2, sx_elem(2, "qp")); break; case 3: w = nal_aud((unsigned)sx_elem(3, "pic")); break; default: w = nal_sei(39); } break;
    default: break;
  }
  w.to(t);
  for (size_t i = what == 22 ? 0 : 2; i < t.size(); i++) v.push_back(t[i]);
  // the end of the template may be missing, and more may follow
  if (w.b.size()) { unsigned cut = pick(3, "cut"); for (unsigned i = 0; i < cut; i++) v.pop_back(); }
  for (int i = 0; i < n; i++) v.push_back((uint8_t)sx_elem(8, "byte"));
  for (int i = 0; i < m; i++) v.push_back(what == 8 ? 0x55 : tail[i % sizeof tail]);
  std::vector<uint8_t> e = escaped(v);
  uint8_t *d = exact(e), *r = exact(v);
  size_t l = e.size();
  BitBuffer bb(r, v.size());
  uint32_t a, b, c;
  switch (what) {
    case 0: a = pick(2, "common"); b = pick(3, "layers"); cmp(H265HrdParametersParser::ParseHrdParameters(d, l, a, b), H265HrdParametersParser::ParseHrdParameters(&bb, a, b)); break;
    case 1: a = pick(3, "layer"); b = pick(3, "count"); c = pick(2, "sub pic"); cmp(H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(d, l, a, b, c), H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(&bb, a, b, c)); break;
    case 2: a = pick(3, "layers"); cmp(H265VuiParametersParser::ParseVuiParameters(d, l, a), H265VuiParametersParser::ParseVuiParameters(&bb, a)); break;
    case 3: cmp(H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(d, l), H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(&bb)); break;
    case 4: cmp(H265PpsSccExtensionParser::ParsePpsSccExtension(d, l), H265PpsSccExtensionParser::ParsePpsSccExtension(&bb)); break;
    case 5: a = pick(4, "chroma"); b = pick(3, "refs"); cmp(H265PredWeightTableParser::ParsePredWeightTable(d, l, a, b), H265PredWeightTableParser::ParsePredWeightTable(&bb, a, b)); break;
    case 6: a = pick(2, "profile"); b = pick(3, "layers"); cmp(H265ProfileTierLevelParser::ParseProfileTierLevel(d, l, a != 0, b), H265ProfileTierLevelParser::ParseProfileTierLevel(&bb, a != 0, b)); break;
    case 7: cmp(H265ProfileInfoParser::ParseProfileInfo(d, l), H265ProfileInfoParser::ParseProfileInfo(&bb)); break;
    case 8: cmp(H265ScalingListDataParser::ParseScalingListData(d, l), H265ScalingListDataParser::ParseScalingListData(&bb)); break;
    case 9: cmp(H265Sps3dExtensionParser::ParseSps3dExtension(d, l), H265Sps3dExtensionParser::ParseSps3dExtension(&bb)); break;
    case 10: cmp(H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(d, l), H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(&bb)); break;
    case 11: cmp(H265SpsRangeExtensionParser::ParseSpsRangeExtension(d, l), H265SpsRangeExtensionParser::ParseSpsRangeExtension(&bb)); break;
    case 12: a = pick(3, "chroma"); b = pick(2, "luma"); c = pick(2, "depth"); cmp(H265SpsSccExtensionParser::ParseSpsSccExtension(d, l, a, b, c * 3), H265SpsSccExtensionParser::ParseSpsSccExtension(&bb, a, b, c * 3)); break;
    case 13: {
      std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> sets;
      static const uint8_t one[] = {0x58, 0xb6, 0xc0};
      BitBuffer ob(one, 3);
      sets.push_back(H265StRefPicSetParser::ParseStRefPicSet(&ob, 0, 2, &sets, 16));
      if (!sets[0]) sx_stop();
      a = 1 + pick(2, "number"); b = 1 + pick(4, "max");
      cmp(H265StRefPicSetParser::ParseStRefPicSet(d, l, 1, a, &sets, b), H265StRefPicSetParser::ParseStRefPicSet(&bb, 1, a, &sets, b));
      break;
    }
    case 14: cmp(H265VpsParser::ParseVps(d, l), H265VpsParser::ParseVps(&bb)); break;
    case 15: {
      auto x = H265SpsParser::ParseSps(d, l), y = H265SpsParser::ParseSps(&bb);
      sx_check((x != nullptr) == (y != nullptr), "accepted alike");
      if (!x || !y) { sx_cover("refused"); break; }
      sx_cover("parsed");
      ParsingOptions po;
      sx_log_reset(); x->fdump(sx_file(), 0, po); int k = sx_text_save();
      sx_log_reset(); y->fdump(sx_file(), 0, po); sx_check(sx_text_same(k), "decoded alike");
      break;
    }
    case 16: cmp(H265PpsParser::ParsePps(d, l), H265PpsParser::ParsePps(&bb)); break;
    case 17: cmp(H265SliceSegmentLayerParser::ParseSliceSegmentLayer(d, l, type, &st), H265SliceSegmentLayerParser::ParseSliceSegmentLayer(&bb, type, &st)); break;
    case 18: cmp(H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(d, l, type, &st), H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&bb, type, &st)); break;
    case 19: {
      ParsingOptions po;
      auto x = H265NalUnitPayloadParser::ParseNalUnitPayload(d, l, type, &st), y = H265NalUnitPayloadParser::ParseNalUnitPayload(&bb, type, &st);
      sx_check(x != nullptr && y != nullptr, "accepted alike");
      if (!x || !y) break;
      sx_cover("parsed");
      sx_log_reset(); x->fdump(sx_file(), 0, type, po); int k = sx_text_save();
      sx_log_reset(); y->fdump(sx_file(), 0, type, po); sx_check(sx_text_same(k), "decoded alike");
      break;
    }
    case 20: cmp(H265SeiMessageParser::ParseSei(d, l), H265SeiMessageParser::ParseSei(&bb)); break;
    case 21: cmp(H265NalUnitHeaderParser::ParseNalUnitHeader(d, l), H265NalUnitHeaderParser::ParseNalUnitHeader(&bb)); break;
    // both NAL unit entry points: the escaped and the unescaped form of the same unit
    case 22: {
      ParsingOptions po;
      po.add_checksum = po.add_offset = po.add_length = po.add_parsed_length = false;
      H265BitstreamParserState s1, s2;
      auto x = H265NalUnitParser::ParseNalUnit(d, l, &s1, po), y = H265NalUnitParser::ParseNalUnitUnescaped(r, v.size(), &s2, po);
      sx_check((x != nullptr) == (y != nullptr), "accepted alike");
      if (!x || !y) { sx_cover("refused"); break; }
      sx_cover("parsed");
      sx_log_reset(); x->fdump(sx_file(), 0, po); int k = sx_text_save();
      sx_log_reset(); y->fdump(sx_file(), 0, po); sx_check(sx_text_same(k), "decoded alike");
      break;
    }
  }
  delete[] d;
  delete[] r;
}
