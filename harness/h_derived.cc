// Values derived from decoded fields: picture sizes, reported profile
#include "ref_ptl.h"
#include "h265_sps_parser.h"
#include <string>
using namespace h265nal;

// ---------------------------------------------------------------- 7.4.3.2.1
// every SPS the parser accepts: block and picture sizes, chroma formats, windows
SX_ENTRY e_sizes() {
  H265SpsParser::SpsState p;
  unsigned lm = (unsigned)sx_concretize(sx_elem(2, "log2_min_luma_coding_block_size_minus3"));
  unsigned ld = (unsigned)sx_concretize(sx_elem(2, "log2_diff_max_min_luma_coding_block_size"));
  uint32_t w = (uint32_t)sx_elem(32, "pic_width_in_luma_samples"), h = (uint32_t)sx_elem(32, "pic_height_in_luma_samples");
  sx_assume(w >= 1 && w <= 16888 && h >= 1 && h <= 16888);
  if (!sx_param("anysize")) sx_assume(w % (8u << lm) == 0 && h % (8u << lm) == 0);
  unsigned cfi = (unsigned)sx_elem(2, "chroma_format_idc"), scp = (unsigned)sx_elem(1, "separate_colour_plane_flag");
  sx_assume(cfi == 3 || scp == 0);
  uint32_t sw = (uint32_t)sx_ite(cfi == 1 || cfi == 2, 2, 1), sh = (uint32_t)sx_ite(cfi == 1, 2, 1);  // Table 6-1
  uint32_t l = (uint32_t)sx_elem(15, "left"), r = (uint32_t)sx_elem(15, "right"), t = (uint32_t)sx_elem(15, "top"), b = (uint32_t)sx_elem(15, "bottom");
  sx_assume(sw * (l + r) < w && sh * (t + b) < h);
  p.log2_min_luma_coding_block_size_minus3 = lm; p.log2_diff_max_min_luma_coding_block_size = ld;
  p.pic_width_in_luma_samples = w; p.pic_height_in_luma_samples = h;
  p.chroma_format_idc = cfi; p.separate_colour_plane_flag = scp;
  p.conformance_window_flag = (l | r | t | b) != 0;
  p.conf_win_left_offset = l; p.conf_win_right_offset = r; p.conf_win_top_offset = t; p.conf_win_bottom_offset = b;
  uint32_t mincb = 8u << lm, ctb = mincb << ld;
  sx_check(p.getMinCbLog2SizeY() == lm + 3, "MinCbLog2SizeY");
  sx_check(p.getCtbLog2SizeY() == lm + 3 + ld, "CtbLog2SizeY");
  sx_check(p.getMinCbSizeY() == mincb, "MinCbSizeY");
  sx_check(p.getCtbSizeY() == ctb, "CtbSizeY");
  uint32_t wm = w >> (lm + 3), hm = h >> (lm + 3), wc = (w + ctb - 1) >> (lm + 3 + ld), hc = (h + ctb - 1) >> (lm + 3 + ld);
  sx_check(p.getPicWidthInMinCbsY() == wm, "PicWidthInMinCbsY");
  sx_check(p.getPicHeightInMinCbsY() == hm, "PicHeightInMinCbsY");
  sx_check(p.getPicWidthInCtbsY() == wc, "PicWidthInCtbsY");
  sx_check(p.getPicHeightInCtbsY() == hc, "PicHeightInCtbsY");
  sx_check(p.getPicSizeInMinCbsY() == wm * hm, "PicSizeInMinCbsY");
  sx_check(p.getPicSizeInCtbsY() == wc * hc, "PicSizeInCtbsY");
  sx_check(p.getPicSizeInSamplesY() == w * h, "PicSizeInSamplesY");
  sx_check(p.getSubWidthC() == (int)sw, "SubWidthC");
  sx_check(p.getSubHeightC() == (int)sh, "SubHeightC");
  int rw = -7, rh = -7;
  sx_check(p.getResolution(&rw, &rh) == 0, "resolution available");
  sx_check(rw == (int)(w - sw * (l + r)), "cropped width");
  sx_check(rh == (int)(h - sh * (t + b)), "cropped height");
  int k1 = -7;
  sx_check(p.getResolution(nullptr, &k1) == -1 && p.getResolution(&k1, nullptr) == -1, "missing result pointer");
  sx_cover("sizes");
}

// ---------------------------------------------------------------- A.3, G.11, H.11, I.11
struct Row { uint8_t prof; const char* flags; };  // 14bit 12bit 10bit 8bit 422 420 mono intra one_pic lower_bit_rate; '-': any
static const Row A2[] = {
  {MONOCHROME, "-111111001"}, {MONOCHROME_10, "-110111001"}, {MONOCHROME_12, "-100111001"}, {MONOCHROME_16, "-000111001"},
  {MAIN_12, "-100110001"}, {MAIN_422_10, "-110100001"}, {MAIN_422_12, "-100100001"}, {MAIN_444, "-111000001"},
  {MAIN_444_10, "-110000001"}, {MAIN_444_12, "-100000001"},
  {MAIN_INTRA, "-11111010-"}, {MAIN_10_INTRA, "-11011010-"}, {MAIN_12_INTRA, "-10011010-"}, {MAIN_422_10_INTRA, "-11010010-"},
  {MAIN_422_12_INTRA, "-10010010-"}, {MAIN_444_INTRA, "-11100010-"}, {MAIN_444_10_INTRA, "-11000010-"}, {MAIN_444_12_INTRA, "-10000010-"},
  {MAIN_444_16_INTRA, "-00000010-"}, {MAIN_444_STILL_PICTURE, "-11100011-"}, {MAIN_444_16_STILL_PICTURE, "-00000011-"},
  // combinations the table does not name but whose meaning is evident
  {MONOCHROME_STILL_PICTURE, "-11111111-"}, {MONOCHROME_10_STILL_PICTURE, "-11011111-"}, {MAIN_STILL_PICTURE, "-11111011-"},
  {MAIN_10_STILL_PICTURE, "-11011011-"}, {MAIN_444_10_STILL_PICTURE, "-11000011-"}, {0, nullptr}};
static const Row A3[] = {{HIGH_THROUGHPUT_444, "1111000001"}, {HIGH_THROUGHPUT_444_10, "1110000001"}, {HIGH_THROUGHPUT_444_14, "1000000001"},
  {HIGH_THROUGHPUT_444_16_INTRA, "000000010-"}, {0, nullptr}};
static const Row H11[] = {{SCALABLE_MAIN, "-111110001"}, {SCALABLE_MAIN_10, "-110110001"}, {0, nullptr}};
static const Row A5[] = {{SCREEN_EXTENDED_MAIN, "1111110001"}, {SCREEN_EXTENDED_MAIN_10, "1110110001"},
  {SCREEN_EXTENDED_MAIN_444, "1111000001"}, {SCREEN_EXTENDED_MAIN_444_10, "1110000001"}, {0, nullptr}};
static const Row A7[] = {{SCREEN_EXTENDED_HIGH_THROUGHPUT_444, "1111000001"}, {SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10, "1110000001"},
  {SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14, "1000000001"}, {0, nullptr}};
static const Row NONE[] = {{0, nullptr}};

static uint64_t lookup(const Row* t, unsigned other, uint32_t flags) {
  uint64_t r = other;
  for (; t->flags; t++) {
    uint32_t mask = 0, val = 0;
    for (int i = 0; i < 10; i++) if (t->flags[i] != '-') { mask |= 1u << i; if (t->flags[i] == '1') val |= 1u << i; }
    r = sx_ite((flags & mask) == val, t->prof, r);
  }
  return r;
}
static uint64_t want_profile(unsigned space, unsigned idc, uint32_t flags) {
  uint64_t r = UNSPECIFIED;
#define ON(n, v) r = sx_ite(idc == n, v, r)
  ON(1, MAIN);
  ON(2, sx_ite((flags >> 8) & 1, MAIN_10_STILL_PICTURE, MAIN_10));
  ON(3, MAIN_STILL_PICTURE);
  ON(4, lookup(A2, FREXT, flags));
  ON(5, lookup(A3, HIGH_THROUGHPUT, flags));
  ON(6, lookup(NONE, MULTIVIEW_MAIN, flags));
  ON(7, lookup(H11, SCALABLE, flags));
  ON(8, _3D_MAIN);
  ON(9, lookup(A5, SCREEN_EXTENDED, flags));
  ON(10, MULTILAYER);
  ON(11, lookup(A7, SCREEN_EXTENDED_HIGH_THROUGHPUT, flags));
  ON(12, MULTIVIEW_EXTENDED);
  ON(13, MULTIVIEW_EXTENDED_10);
#undef ON
  return sx_ite(space != 0, UNSPECIFIED, r);
}
static uint32_t flags_of(const H265ProfileInfoParser::ProfileInfoState& p) {
  return p.max_14bit_constraint_flag | p.max_12bit_constraint_flag << 1 | p.max_10bit_constraint_flag << 2 | p.max_8bit_constraint_flag << 3 |
         p.max_422chroma_constraint_flag << 4 | p.max_420chroma_constraint_flag << 5 | p.max_monochrome_constraint_flag << 6 |
         p.intra_constraint_flag << 7 | p.one_picture_only_constraint_flag << 8 | p.lower_bit_rate_constraint_flag << 9;
}
SX_ENTRY e_profile() {
  H265ProfileInfoParser::ProfileInfoState p;
  p.profile_space = (uint32_t)sx_elem(2, "profile_space");
  p.profile_idc = (uint32_t)sx_elem(5, "profile_idc");
  p.tier_flag = (uint32_t)sx_elem(1, "tier_flag");
  p.max_14bit_constraint_flag = (uint32_t)sx_elem(1, "max_14bit_constraint_flag");
  p.max_12bit_constraint_flag = (uint32_t)sx_elem(1, "max_12bit_constraint_flag");
  p.max_10bit_constraint_flag = (uint32_t)sx_elem(1, "max_10bit_constraint_flag");
  p.max_8bit_constraint_flag = (uint32_t)sx_elem(1, "max_8bit_constraint_flag");
  p.max_422chroma_constraint_flag = (uint32_t)sx_elem(1, "max_422chroma_constraint_flag");
  p.max_420chroma_constraint_flag = (uint32_t)sx_elem(1, "max_420chroma_constraint_flag");
  p.max_monochrome_constraint_flag = (uint32_t)sx_elem(1, "max_monochrome_constraint_flag");
  p.intra_constraint_flag = (uint32_t)sx_elem(1, "intra_constraint_flag");
  p.one_picture_only_constraint_flag = (uint32_t)sx_elem(1, "one_picture_only_constraint_flag");
  p.lower_bit_rate_constraint_flag = (uint32_t)sx_elem(1, "lower_bit_rate_constraint_flag");
  for (auto& f : p.profile_compatibility_flag) f = (uint32_t)sx_elem(1, "profile_compatibility_flag");
  uint64_t want = want_profile(p.profile_space, p.profile_idc, flags_of(p));
  sx_check((uint64_t)p.GetProfileType() == want, "profile of the tables");
  sx_cover("profile");
}
// the profile recorded with parsed content, read from the positions the syntax
// gives the flags (params: maxsub)
SX_ENTRY e_profile_parsed() {
  int maxsub = (int)sx_param("maxsub");
  st::reset();
  Ref r;
  PtlM m;
  bool ok = ref_ptl(r, m, true, maxsub);
  BitBuffer* bb = st::open(ok);
  auto p = H265ProfileTierLevelParser::ParseProfileTierLevel(bb, true, maxsub);
  if (!p || !ok || !p->general) return;
  auto one = [](const H265ProfileInfoParser::ProfileInfoState& s, const PiM& i) {
    const char* N[] = {"max_14bit_constraint_flag", "max_12bit_constraint_flag", "max_10bit_constraint_flag", "max_8bit_constraint_flag", "max_422chroma_constraint_flag",
      "max_420chroma_constraint_flag", "max_monochrome_constraint_flag", "intra_constraint_flag", "one_picture_only_constraint_flag", "lower_bit_rate_constraint_flag"};
    uint32_t f = 0;
    for (int k = 0; k < 10; k++) if (CNT(i.s, N[k])) f |= (uint32_t)VAL(i.s, N[k], 0) << k;
    sx_check((uint64_t)s.profile_type == want_profile((unsigned)i.space, (unsigned)i.idc, f), "profile of parsed content");
  };
  one(*p->general, m.general);
  for (int i = 0; i < m.nsub && i < (int)p->sub_layer.size(); i++) one(*p->sub_layer[i], m.sub[i]);
  sx_cover("parsed");
}
// the printed name
SX_ENTRY e_profile_name() {
  static const struct { uint8_t t; const char* n; } T[] = {
    {UNSPECIFIED, "Unspecified"}, {MAIN, "Main"}, {MAIN_10, "Main 10"}, {MAIN_STILL_PICTURE, "Main Still Picture"}, {FREXT, "FRExt"},
    {HIGH_THROUGHPUT, "High Throughput"}, {MULTIVIEW_MAIN, "Multiview Main"}, {SCALABLE, "Scalable"}, {_3D_MAIN, "3D-Main"},
    {SCREEN_EXTENDED, "Screen-Extended"}, {MULTILAYER, "Multilayer (Annex F)"}, {SCREEN_EXTENDED_HIGH_THROUGHPUT, "Screen-Extended High-Throughput"},
    {MULTIVIEW_EXTENDED, "Multiview Extended"}, {MULTIVIEW_EXTENDED_10, "Multiview Extended 10"}, {MAIN_10_STILL_PICTURE, "Main 10 Still Picture"},
    {MONOCHROME, "Monochrome (8-bit)"}, {MONOCHROME_10, "Monochrome (10-bit)"}, {MONOCHROME_12, "Monochrome (12-bit)"}, {MONOCHROME_16, "Monochrome (16-bit)"},
    {MAIN_12, "Main 12"}, {MAIN_422_10, "Main 4:2:2 10"}, {MAIN_422_12, "Main 4:2:2 12"}, {MAIN_444, "Main 4:4:4"}, {MAIN_444_10, "Main 4:4:4 10"},
    {MAIN_444_12, "Main 4:4:4 12"}, {MAIN_INTRA, "Main Intra"}, {MAIN_10_INTRA, "Main 10 Intra"}, {MAIN_12_INTRA, "Main 12 Intra"},
    {MAIN_422_10_INTRA, "Main 4:2:2 10 Intra"}, {MAIN_422_12_INTRA, "Main 4:2:2 12 Intra"}, {MAIN_444_INTRA, "Main 4:4:4 Intra"},
    {MAIN_444_10_INTRA, "Main 4:4:4 10 Intra"}, {MAIN_444_12_INTRA, "Main 4:4:4 12 Intra"}, {MAIN_444_16_INTRA, "Main 4:4:4 16 Intra"},
    {MAIN_444_STILL_PICTURE, "Main 4:4:4 Still Picture"}, {MAIN_444_16_STILL_PICTURE, "Main 4:4:4 16 Still Picture"},
    {HIGH_THROUGHPUT_444, "High Throughput 4:4:4"}, {HIGH_THROUGHPUT_444_10, "High Throughput 4:4:4 10"}, {HIGH_THROUGHPUT_444_14, "High Throughput 4:4:4 14"},
    {HIGH_THROUGHPUT_444_16_INTRA, "High Throughput 4:4:4 16 Intra"}, {SCALABLE_MAIN, "Scalable Main"}, {SCALABLE_MAIN_10, "Scalable Main 10"},
    {SCREEN_EXTENDED_MAIN, "Screen-Extended Main"}, {SCREEN_EXTENDED_MAIN_10, "Screen-Extended Main 10"}, {SCREEN_EXTENDED_MAIN_444, "Screen-Extended Main 4:4:4"},
    {SCREEN_EXTENDED_MAIN_444_10, "Screen-Extended Main 4:4:4 10"}, {SCREEN_EXTENDED_HIGH_THROUGHPUT_444, "Screen-Extended High Throughput 4:4:4"},
    {SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10, "Screen-Extended High Throughput 4:4:4 10"}, {SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14, "Screen-Extended High Throughput 4:4:4 14"},
    {MONOCHROME_STILL_PICTURE, "Monochrome (8-bit) Still Picture"}, {MONOCHROME_10_STILL_PICTURE, "Monochrome (10-bit) Still Picture"},
    {MAIN_444_10_STILL_PICTURE, "Main 4:4:4 10 Still Picture"}};
  uint64_t t = sx_elem(8, "profile");
  const char* want = "Unknown";
  uint64_t c = sx_concretize(t);
  for (auto& e : T) if (e.t == c) want = e.n;
  std::string s;
  profileTypeToString((ProfileType)c, s);
  sx_check(s == want, "name of the profile");
}
