#pragma once
// 7.3.5 sei_message(), D.2 / F.14.2 payloads
#include <typeinfo>
#include "stream.h"
#include "h265_sei_parser.h"
struct SeiM { Seg s; bool head; bool pay, full; uint64_t type, size; int kind; unsigned nbytes; uint64_t npre[3], npost[3]; };
enum { SEI_OTHER = 0, SEI_T35, SEI_UNREG, SEI_ALPHA, SEI_MDCV, SEI_CLL, SEI_KNEE, SEI_REMAP, SEI_CCV, SEI_ATC, SEI_AVE };
// number of user data bytes explored (longer ones are outside the bound)
static bool ref_sei_bytes(Ref& r, SeiM& m, uint64_t n) {
  uint64_t k = sx_concretize(n);
  if (k > (uint64_t)sx_param("bytes")) {
    // a size that exceeds what there is: data ends within the payload
    if (!r.trunc) sx_prune("payload length bound");
    k = (uint64_t)sx_param("bytes");
    for (uint64_t i = 0; i < k; i++) { RU(b, 8, "payload_byte"); }
    r.eof = true; st::S.eof = true;
    return false;
  }
  for (uint64_t i = 0; i < k; i++) { RU(b, 8, "payload_byte"); m.nbytes++; }
  return true;
}
static bool ref_sei_payload(Ref& r, SeiM& m) {
  m.nbytes = 0;
  switch (m.kind) {
    case SEI_T35: {
      REJH(m.size == 0);
      uint64_t left = m.size - 1;
      RU(cc, 8, "itu_t_t35_country_code");
      if (cc == 0xff) { REJH(left == 0); RU(ext, 8, "itu_t_t35_country_code_extension_byte"); left--; }
      return ref_sei_bytes(r, m, left);
    }
    case SEI_UNREG: {
      REJH(m.size < 16);
      for (int i = 0; i < 4; i++) { RU(a, 32, "uuid"); }
      return ref_sei_bytes(r, m, m.size - 16);
    }
    case SEI_ALPHA: {
      RU(c, 1, "alpha_channel_cancel_flag");
      if (!c) {
        RU(a, 3, "alpha_channel_use_idc");
        RU(d, 3, "alpha_channel_bit_depth_minus8");
        unsigned n = (unsigned)sx_concretize(d) + 9;
        RU(t, n, "alpha_transparent_value");
        RU(o, n, "alpha_opaque_value");
        RU(i, 1, "alpha_channel_incr_flag");
        RU(l, 1, "alpha_channel_clip_flag");
        if (l) { RU(x, 1, "alpha_channel_clip_type_flag"); }
      }
      return true;
    }
    case SEI_MDCV: {
      for (int i = 0; i < 3; i++) { RU(x, 16, "display_primaries_x"); RU(y, 16, "display_primaries_y"); }
      RU(wx, 16, "white_point_x");
      RU(wy, 16, "white_point_y");
      RU(a, 32, "max_display_mastering_luminance");
      RU(b, 32, "min_display_mastering_luminance");
      return true;
    }
    case SEI_CLL: { RU(a, 16, "max_content_light_level"); RU(b, 16, "max_pic_average_light_level"); return true; }
    case SEI_KNEE: {
      RUE(id, "knee_function_id");
      RU(c, 1, "knee_function_cancel_flag");
      if (!c) {
        RU(p, 1, "knee_function_persistence_flag");
        RU(a, 32, "input_d_range");
        RU(b, 32, "input_disp_luminance");
        RU(d, 32, "output_d_range");
        RU(e, 32, "output_disp_luminance");
        RUE(n, "num_knee_points_minus1");
        uint64_t k = sx_concretize(n);
        for (uint64_t i = 0; i <= k; i++) { RU(x, 10, "input_knee_point"); RU(y, 10, "output_knee_point"); }
      }
      return true;
    }
    case SEI_REMAP: {
      RUE(id, "colour_remap_id");
      RU(c, 1, "colour_remap_cancel_flag");
      if (!c) {
        RU(p, 1, "colour_remap_persistence_flag");
        RU(v, 1, "colour_remap_video_signal_info_present_flag");
        if (v) {
          RU(f, 1, "colour_remap_full_range_flag");
          RU(a, 8, "colour_remap_primaries");
          RU(b, 8, "colour_remap_transfer_function");
          RU(d, 8, "colour_remap_matrix_coefficients");
        }
        RU(in, 8, "colour_remap_input_bit_depth");
        RU(out, 8, "colour_remap_output_bit_depth");
        REJ(in == 0 || out == 0);
        for (int k = 0; k < 3; k++) {
          RU(n, 8, "pre_lut_num_val_minus1");
          uint64_t q = m.npre[k] = sx_concretize(n);
          unsigned wi = q ? (unsigned)(sx_concretize((in + 7) >> 3) << 3) : 0, wo = q ? (unsigned)(sx_concretize((out + 7) >> 3) << 3) : 0;
          if (q) for (uint64_t i = 0; i <= q; i++) {
            // table entries wider than the fields that hold them are refused
            REJH(wi > 32); RU(a, wi, "pre_lut_coded_value");
            REJH(wo > 32); RU(b, wo, "pre_lut_target_value");
          }
        }
        RU(mp, 1, "colour_remap_matrix_present_flag");
        if (mp) {
          RU(lg, 4, "log2_matrix_denom");
          for (int i = 0; i < 9; i++) { RSE(x, "colour_remap_coeffs"); }
        }
        for (int k = 0; k < 3; k++) {
          RU(n, 8, "post_lut_num_val_minus1");
          uint64_t q = m.npost[k] = sx_concretize(n);
          unsigned wo = q ? (unsigned)(sx_concretize((out + 7) >> 3) << 3) : 0;
          if (q) for (uint64_t i = 0; i <= q; i++) { REJH(wo > 32); RU(a, wo, "post_lut_coded_value"); RU(b, wo, "post_lut_target_value"); }
        }
      }
      return true;
    }
    case SEI_CCV: {
      RU(c, 1, "ccv_cancel_flag");
      if (!c) {
        RU(p, 1, "ccv_persistence_flag");
        RU(pp, 1, "ccv_primaries_present_flag");
        RU(mi, 1, "ccv_min_luminance_value_present_flag");
        RU(ma, 1, "ccv_max_luminance_value_present_flag");
        RU(av, 1, "ccv_avg_luminance_value_present_flag");
        RU(z, 2, "ccv_reserved_zero_2bits");
        if (pp) for (int i = 0; i < 3; i++) { RU(x, 32, "ccv_primaries_x"); RU(y, 32, "ccv_primaries_y"); }
        if (mi) { RU(a, 32, "ccv_min_luminance_value"); }
        if (ma) { RU(a, 32, "ccv_max_luminance_value"); }
        if (av) { RU(a, 32, "ccv_avg_luminance_value"); }
      }
      return true;
    }
    case SEI_ATC: { RU(a, 8, "preferred_transfer_characteristics"); return true; }
    case SEI_AVE: { RU(a, 32, "ambient_illuminance"); RU(x, 16, "ambient_light_x"); RU(y, 16, "ambient_light_y"); return true; }
    default:
      REJH(m.size == 0);
      return ref_sei_bytes(r, m, m.size);
  }
}
// head: the message has a type and a size; pay: its payload is well-formed too
static void ref_sei_head(Ref& r, SeiM& m, unsigned maxff) {
  m.head = m.pay = m.full = false;
  auto num = [&](const char* name, uint64_t& v) -> bool {
    v = 0;
    for (unsigned i = 0;; i++) {
      if (i > maxff) sx_prune("0xff run bound");
      uint64_t b = r.u(8, name);
      if (r.eof) return false;
      v += b;
      if (b != 0xff) return true;
    }
  };
  if (!num("payload_type_byte", m.type) || !num("payload_size_byte", m.size)) return;
  m.head = true;
}
static void ref_sei(Ref& r, SeiM& m, unsigned maxff) {
  m.s.b = sx_in_mark();
  ref_sei_head(r, m, maxff);
  if (m.head) {
    static const struct { uint8_t t, k; } K[] = {{4, SEI_T35}, {5, SEI_UNREG}, {137, SEI_MDCV}, {141, SEI_KNEE}, {142, SEI_REMAP}, {144, SEI_CLL}, {147, SEI_ATC}, {148, SEI_AVE}, {149, SEI_CCV}, {165, SEI_ALPHA}};
    m.kind = SEI_OTHER;
    for (auto& k : K) if (m.type == k.t) { m.kind = k.k; break; }
    m.full = ref_sei_payload(r, m);
    m.pay = r.judge(m.full);
  }
  m.s.e = sx_in_mark();
}
template <class V> static void cmp_sei_bytes(const V& payload, const SeiM& m) {
  const Seg& s = m.s;
  if (!g_dump) { CMPV(payload, s, "payload_byte"); return; }
  sx_check(sx_dump_count("payload") == payload.size(), "payload");
  for (unsigned i = 0; i < payload.size() && i < sx_dump_count("payload"); i++) sx_check(sx_dump_val("payload", i) == payload[i], "payload");
}
template <class F> static void cmp_sei_elem(F v, const Seg& s, const char* elem, unsigned i, const char* shown) {
  FCHK(CNT(s, elem) > i && (uint32_t)v == (uint32_t)VAL(s, elem, i), elem);
  if (g_dump) sx_check(sx_dump_count(shown) == 1 && sx_dump_val(shown, 0) == (uint32_t)v, shown);
}
template <class V> static void cmp_sei_list(const V& v, const Seg& s, const char* elem, unsigned& at, unsigned n, const char* shown) {
  FCHK(v.size() == n, elem);
  for (unsigned i = 0; i < n && i < v.size(); i++) FCHK((uint32_t)v[i] == (uint32_t)VAL(s, elem, at + i), elem);
  at += n;
  if (g_dump && n) {
    sx_check(sx_dump_count(shown) == v.size(), shown);
    for (unsigned i = 0; i < v.size() && i < sx_dump_count(shown); i++) sx_check(sx_dump_val(shown, i) == (uint32_t)v[i], shown);
  }
}
static void cmp_sei(const h265nal::H265SeiMessageParser::SeiMessageState& p, const SeiM& m) {
  using namespace h265nal;
  const Seg& s = m.s;
  sx_check((uint32_t)p.payload_type == m.type, "payload_type");
  sx_check(p.payload_size == m.size, "payload_size");
  DUMP(p);
  if (g_dump) {
    sx_check(sx_dump_count("payload_type") == 1 && sx_dump_val("payload_type", 0) == (uint32_t)m.type, "payload_type");
    sx_check(sx_dump_count("payload_size") >= 1 && sx_dump_val("payload_size", 0) == (uint32_t)m.size, "payload_size");
  }
  if (!p.payload_state || !m.pay) return;
#define AS(T) const auto& sei_pay = *p.payload_state; bool sei_is = typeid(sei_pay) == typeid(T); sx_check(sei_is, "payload of its type"); if (!sei_is) return; \
  auto* q = static_cast<const T*>(p.payload_state.get()); DUMP_NESTED(*q)
#define C0(f) CMP(q->f, s, #f, 0)
#define CH0(f) CMPH(q->f, s, #f, 0)
  switch (m.kind) {
    case SEI_T35: { AS(H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State); C0(itu_t_t35_country_code); C0(itu_t_t35_country_code_extension_byte); cmp_sei_bytes(q->payload, m); break; }
    case SEI_UNREG: {
      AS(H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState);
      FCHK(q->uuid_iso_iec_11578_1 == (VAL(s, "uuid", 0) << 32 | VAL(s, "uuid", 1)), "uuid_1");
      FCHK(q->uuid_iso_iec_11578_2 == (VAL(s, "uuid", 2) << 32 | VAL(s, "uuid", 3)), "uuid_2");
      cmp_sei_bytes(q->payload, m); break;
    }
    case SEI_ALPHA: { AS(H265SeiAlphaChannelInfoParser::H265SeiAlphaChannelInfoState); C0(alpha_channel_cancel_flag); C0(alpha_channel_use_idc); C0(alpha_channel_bit_depth_minus8);
      C0(alpha_transparent_value); C0(alpha_opaque_value); C0(alpha_channel_incr_flag); C0(alpha_channel_clip_flag); C0(alpha_channel_clip_type_flag); break; }
    case SEI_MDCV: {
      AS(H265SeiMasteringDisplayColourVolumeParser::H265SeiMasteringDisplayColourVolumeState);
      for (int i = 0; i < 3; i++) {
        cmp_sei_elem(q->display_primaries_x[i], s, "display_primaries_x", i, IX("display_primaries", i, "_x"));
        cmp_sei_elem(q->display_primaries_y[i], s, "display_primaries_y", i, IX("display_primaries", i, "_y"));
      }
      C0(white_point_x); C0(white_point_y); C0(max_display_mastering_luminance); C0(min_display_mastering_luminance); break;
    }
    case SEI_CLL: { AS(H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState); C0(max_content_light_level); C0(max_pic_average_light_level); break; }
    case SEI_KNEE: { AS(H265SeiKneeFunctionInfoParser::H265SeiKneeFunctionInfoState); C0(knee_function_id); C0(knee_function_cancel_flag); C0(knee_function_persistence_flag);
      C0(input_d_range); C0(input_disp_luminance); C0(output_d_range); C0(output_disp_luminance); C0(num_knee_points_minus1);
      unsigned a = 0, b = 0, n = CNT(s, "input_knee_point");
      cmp_sei_list(q->input_knee_point, s, "input_knee_point", a, n, "input_knee_point"); cmp_sei_list(q->output_knee_point, s, "output_knee_point", b, n, "output_knee_point"); break; }
    case SEI_REMAP: {
      AS(H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState);
      C0(colour_remap_id); C0(colour_remap_cancel_flag); C0(colour_remap_persistence_flag); C0(colour_remap_video_signal_info_present_flag); C0(colour_remap_full_range_flag);
      C0(colour_remap_primaries); C0(colour_remap_transfer_function); C0(colour_remap_matrix_coefficients); C0(colour_remap_input_bit_depth); C0(colour_remap_output_bit_depth);
      C0(colour_remap_matrix_present_flag); C0(log2_matrix_denom);
      if (CNT(s, "colour_remap_input_bit_depth")) {
        sx_check(q->pre_lut_coded_value.size() == 3 && q->pre_lut_target_value.size() == 3 && q->post_lut_coded_value.size() == 3 && q->post_lut_target_value.size() == 3, "one table per component");
        unsigned a = 0, b = 0, c = 0, d = 0;
        for (int k = 0; k < 3; k++) {
          cmp_sei_elem(q->pre_lut_num_val_minus1[k], s, "pre_lut_num_val_minus1", k, IX("pre_lut_num_val_minus1", k));
          cmp_sei_elem(q->post_lut_num_val_minus1[k], s, "post_lut_num_val_minus1", k, IX("post_lut_num_val_minus1", k));
          unsigned n = m.npre[k] ? (unsigned)m.npre[k] + 1 : 0, o = m.npost[k] ? (unsigned)m.npost[k] + 1 : 0;
          cmp_sei_list(q->pre_lut_coded_value[k], s, "pre_lut_coded_value", a, n, IX("pre_lut_coded_value", k));
          cmp_sei_list(q->pre_lut_target_value[k], s, "pre_lut_target_value", b, n, IX("pre_lut_target_value", k));
          cmp_sei_list(q->post_lut_coded_value[k], s, "post_lut_coded_value", c, o, IX("post_lut_coded_value", k));
          cmp_sei_list(q->post_lut_target_value[k], s, "post_lut_target_value", d, o, IX("post_lut_target_value", k));
        }
        if (CNT(s, "log2_matrix_denom")) {
          unsigned e = 0;
          sx_check(q->colour_remap_coeffs.size() == 3, "matrix rows");
          for (unsigned k = 0; k < 3 && k < q->colour_remap_coeffs.size(); k++) cmp_sei_list(q->colour_remap_coeffs[k], s, "colour_remap_coeffs", e, 3, IX("colour_remap_coeffs", (int)k));
        }
      }
      break;
    }
    case SEI_CCV: {
      AS(H265SeiContentColourVolumeParser::H265SeiContentColourVolumeState);
      C0(ccv_cancel_flag); C0(ccv_persistence_flag); C0(ccv_primaries_present_flag); C0(ccv_min_luminance_value_present_flag); C0(ccv_max_luminance_value_present_flag);
      C0(ccv_avg_luminance_value_present_flag); C0(ccv_reserved_zero_2bits); C0(ccv_min_luminance_value); C0(ccv_max_luminance_value); C0(ccv_avg_luminance_value);
      if (CNT(s, "ccv_primaries_x")) for (int i = 0; i < 3; i++) {
        cmp_sei_elem(q->ccv_primaries_x[i], s, "ccv_primaries_x", i, IX("ccv_primaries_x", i));
        cmp_sei_elem(q->ccv_primaries_y[i], s, "ccv_primaries_y", i, IX("ccv_primaries_y", i));
      }
      break;
    }
    case SEI_ATC: { AS(H265SeiAlternativeTransferCharacteristicsParser::H265SeiAlternativeTransferCharacteristicsState); C0(preferred_transfer_characteristics); break; }
    case SEI_AVE: { AS(H265SeiAmbientViewingEnvironmentParser::H265SeiAmbientViewingEnvironmentState); C0(ambient_illuminance); C0(ambient_light_x); C0(ambient_light_y); break; }
    default: { AS(H265SeiUnknownParser::H265SeiUnknownState); cmp_sei_bytes(q->payload, m); break; }
  }
}
