// Supplemental enhancement information
#include "ref_sei.h"
using namespace h265nal;
static SeiM g_ms[2];
#define g_m g_ms[g_round]
// params: trunc, dump, ff (0xff bytes before the last type/size byte), bytes (payload bytes)
SX_ENTRY2(e_sei) {
  g_dump = sx_param("dump") == 1;
  st::reset();
  Ref r; r.trunc = sx_param("trunc") == 1;
  ref_sei(r, g_m, (unsigned)sx_param("ff"));
  auto p = H265SeiMessageParser::ParseSei(st::open(g_m.full));
  sx_check((p != nullptr) == g_m.head, g_m.head ? "accepts" : "rejects truncated");
  if (!p || !g_m.head) { sx_cover("no message"); return; }
  sx_check((p->payload_state != nullptr) == g_m.pay, g_m.pay ? "payload accepted" : (r.eof ? "rejects truncated payload" : "payload refused"));
  if (p->payload_state && g_m.pay) { sx_cover("accepted"); sx_check(st::at_end(), "consumed exactly"); } else sx_cover("refused");
  cmp_sei(*p, g_m);
  KEEP(p);
}
