#pragma once
// 7.3.4 scaling_list_data()
#include "ref_hrd.h"
#include "h265_scaling_list_data_parser.h"
// slfree/slone: bit k set = the k-th scaling_list_pred_mode_flag is free / 1; otherwise 0
struct SlM { Seg s; bool set[4][6]; uint64_t mode[4][6], delta[4][6]; int32_t dc[4][6]; int n[4][6]; uint64_t c[4][6][64]; };
static bool ref_sl(Ref& r, SlM& m) {
  m.s.b = sx_in_mark();
  uint64_t fre = (uint64_t)sx_param("slfree"), one = (uint64_t)sx_param("slone");
  for (int a = 0; a < 4; a++) for (int b = 0; b < 6; b++) { m.mode[a][b] = m.delta[a][b] = 0; m.dc[a][b] = 0; m.n[a][b] = 0; m.set[a][b] = false; }
  const bool valid = sx_param("slvalid") == 1;  // only coefficients in range
  int k = 0;
  for (int z = 0; z < 4; z++) for (int x = 0; x < 6; x += (z == 3) ? 3 : 1, k++) {
    m.set[z][x] = true;
    RU(f, 1, "scaling_list_pred_mode_flag");
    if (!((fre >> k) & 1)) sx_assume(f == ((one >> k) & 1));
    m.mode[z][x] = f;
    if (!f) { RUE(d, "scaling_list_pred_matrix_id_delta"); m.delta[z][x] = d; }
    else {
      int32_t next = 8; int num = z == 0 ? 16 : 64;
      if (z > 1) { RSE(dc, "scaling_list_dc_coef_minus8"); if (valid) sx_assume(dc >= -7 && dc <= 247); else REJ(dc < -7 || dc > 247); next = (int32_t)((uint32_t)dc + 8); m.dc[z - 2][x] = dc; }
      for (int i = 0; i < num; i++) {
        RSE(d, "scaling_list_delta_coef"); if (valid) sx_assume(d >= -128 && d <= 127); else REJ(d < -128 || d > 127);
        next = (int32_t)(((uint32_t)next + (uint32_t)d + 256) & 255);
        m.c[z][x][m.n[z][x]++] = (uint64_t)next;
      }
    }
  }
  m.s.e = sx_in_mark();
  return true;
}
static void cmp_sl(const h265nal::H265ScalingListDataParser::ScalingListDataState& p, const SlM& m) {
  DUMP(p);
  sx_check(p.scaling_list_pred_mode_flag.size() == 4 && p.scaling_list_pred_matrix_id_delta.size() == 4 && p.scaling_list_dc_coef_minus8.size() == 4 && p.ScalingList.size() == 4, "scaling list sizeIds");
  unsigned fl = 0, ci = 0;
  for (int z = 0; z < 4; z++) {
    sx_check(p.scaling_list_pred_mode_flag[z].size() == 6 && p.scaling_list_pred_matrix_id_delta[z].size() == 6 && p.scaling_list_dc_coef_minus8[z].size() == 6 && p.ScalingList[z].size() == 6, "scaling list matrixIds");
    for (int x = 0; x < 6; x++, fl++) {
      sx_check(p.scaling_list_pred_mode_flag[z][x] == m.mode[z][x], "scaling_list_pred_mode_flag");
      sx_check(p.scaling_list_pred_matrix_id_delta[z][x] == m.delta[z][x], "scaling_list_pred_matrix_id_delta");
      sx_check(p.scaling_list_dc_coef_minus8[z][x] == m.dc[z][x], "scaling_list_dc_coef_minus8");
      // lists that are predicted are not materialised by the decoder
      if (!m.n[z][x]) { if (g_dump) ci += (unsigned)p.ScalingList[z][x].size(); continue; }
      sx_check(p.ScalingList[z][x].size() == (size_t)m.n[z][x], "ScalingList.size");
      for (int i = 0; i < m.n[z][x] && i < (int)p.ScalingList[z][x].size(); i++) {
        sx_check(p.ScalingList[z][x][i] == m.c[z][x][i], "ScalingList");
        if (g_dump) { sx_check(sx_dump_val("ScalingList", ci) == (uint32_t)m.c[z][x][i], "dump ScalingList"); ci++; }
      }
      if (g_dump) {
        sx_check(sx_dump_val("scaling_list_pred_mode_flag", fl) == (uint32_t)m.mode[z][x], "dump scaling_list_pred_mode_flag");
        sx_check(sx_dump_val("scaling_list_pred_matrix_id_delta", fl) == (uint32_t)m.delta[z][x], "dump scaling_list_pred_matrix_id_delta");
        sx_check(sx_dump_val("scaling_list_dc_coef_minus8", fl) == (uint32_t)m.dc[z][x], "dump scaling_list_dc_coef_minus8");
      }
    }
  }
}
