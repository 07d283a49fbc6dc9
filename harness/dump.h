// Checks of the textual dumps
#pragma once
#include <memory>
#include <type_traits>
#include "sx.h"
inline bool g_dump, g_layout;
inline const char* const g_nested[] = {"hrd_parameters", "sub_layer_hrd_parameters", "profile_tier_level", "profile_space", "scaling_list_data", "st_ref_pic_set", "vui_parameters",
  "sps_range_extension", "sps_multilayer_extension", "sps_3d_extension", "sps_scc_extension", "pps_multilayer_extension", "pps_scc_extension", "pred_weight_table",
  "slice_segment_header", "slice_segment_layer", "nal_unit", "nal_unit_header", "nal_unit_payload",
  "vps", "sps", "pps", "aud", "message", "rtp_single", "rtp_ap", "rtp_fu", nullptr};
// DUMP(obj) prints obj on its own, for the field checks that follow; at the end
// of the enclosing block the structures compared meanwhile must appear in its
// dump, and no others
const int kNested = 32;
struct Kid { int slot; unsigned cnt[kNested]; };
inline Kid g_kid[256];
inline int g_nkid;
template <class F> struct DumpScope {
  F f; int k0;
  explicit DumpScope(F g) : f(g), k0(g_nkid) { if (g_dump) { sx_log_reset(); f(0); } }
  ~DumpScope() {
    if (!g_dump) return;
    sx_log_reset();
    f(0);
    Kid me;
    if (g_layout) sx_check(sx_dump_layout(), "layout");
    for (int i = 0; g_nested[i]; i++) {
      unsigned own = sx_dump_starts(g_nested[i]) ? 1 : 0, in = 0;
      me.cnt[i] = sx_dump_groups(g_nested[i]);
      for (int k = k0; k < g_nkid; k++) in += g_kid[k].cnt[i];
      if (!g_layout) sx_check(me.cnt[i] == own + in, g_nested[i]);
    }
    if (!g_layout) for (int k = k0; k < g_nkid; k++) sx_check(sx_dump_has(g_kid[k].slot), "nested dump");
    me.slot = sx_dump_save();
    if (g_layout) {
      sx_log_reset();
      f(-1);
      sx_check(sx_dump_newlines() == 0, "one line");
      sx_check(sx_dump_same(me.slot), "one line, same content");
    }
    g_nkid = k0;
    if (g_nkid < 256) g_kid[g_nkid++] = me;
  }
};
#ifdef FDUMP_DEFINE
#define DUMPF(...) auto dump_f = [&](int ind) { (void)ind; __VA_ARGS__; }; DumpScope<decltype(dump_f)> dump_scope(dump_f)
#define DUMP(obj) DUMPF((obj).fdump(sx_file(), ind))
#define DUMP_NESTED(obj) auto pay_f = [&](int ind) { (obj).fdump(sx_file(), ind); }; DumpScope<decltype(pay_f)> pay_scope(pay_f)
#else  // small footprint
#define DUMPF(...) (void)0
#define DUMP(obj) (void)0
#define DUMP_NESTED(obj) (void)0
#endif

// keep the result of the first parse (see SX_ENTRY2)
template <class P> static inline void sx_keep(P p, void (*show)(void*)) {
  if (g_round != 1 || sx_param("keep") != 1 || !p) return;
  auto* h = new P(std::move(p));
  g_kept = {(void*)h->get(), show, 0};
  sx_log_reset();
  show(g_kept.o);
  g_kept.slot = sx_text_save();
}
#ifdef FDUMP_DEFINE
#define KEEP(p) sx_keep(std::move(p), [](void* o) { ((typename std::remove_reference<decltype(*p)>::type*)o)->fdump(sx_file(), 0); })
#define KEEP_SPS(p) sx_keep(std::move(p), [](void* o) { ParsingOptions po; po.add_resolution = true; ((H265SpsParser::SpsState*)o)->fdump(sx_file(), 0, po); })
#else
#define KEEP(p) (void)0
#define KEEP_SPS(p) (void)0
#endif
