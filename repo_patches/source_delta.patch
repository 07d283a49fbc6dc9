From 19da430dbe75adf312600be540e986e26a04f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 01/40] fix: infer fixed_pic_rate_within_cvs_flag as 1 when the
 general flag is set

---
 src/h265_hrd_parameters_parser.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..23c1385 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,10 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // Section E.3.2: "When fixed_pic_rate_general_flag[i] is equal to 1, the
+      // value of fixed_pic_rate_within_cvs_flag[i] is inferred to be equal
+      // to 1."
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From 85561ddac05158504b0ab4d00dabbf417e639ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 02/40] fix: read sub_layer_level_idc when
 sub_layer_level_present_flag is set

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From 706e4aa12ebff37e65b7c5467ec81b498a8e883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 03/40] fix: reject out-of-range scaling list coefficients
 (signed overflow)

---
 src/h265_scaling_list_data_parser.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..dbd7972 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -82,6 +82,15 @@ H265ScalingListDataParser::ParseScalingListData(
                       ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId])) {
             return nullptr;
           }
+          // Section 7.4.5: in the range of -7 to 247, inclusive
+          if (scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] <
+                  -7 ||
+              scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] >
+                  247) {
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(
               scaling_list_data
                   ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
@@ -94,6 +103,10 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
+          // Section 7.4.5: in the range of -128 to 127, inclusive
+          if (scaling_list_delta_coef < -128 || scaling_list_delta_coef > 127) {
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
                                            scaling_list_delta_coef + 256) %
                      256;
-- 
2.43.0


From e70f268c9e562eb4f341a9905c32efc8b796bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 04/40] fix: reject out-of-range delta_poc_sX_minus1 (signed
 overflow)

---
 include/h265_st_ref_pic_set_parser.h |  1 +
 src/h265_st_ref_pic_set_parser.cc    | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..3cc8886 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -35,6 +35,7 @@ class H265StRefPicSetParser {
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1] -
   // num_negative_pics, inclusive."
   const static uint32_t kNumPositivePicsMin = 0;
+  const static uint32_t kDeltaPocMinus1Max = 32767;
 
   // The parsed state of the StRefPicSet.
   struct StRefPicSetState {
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..fe33b99 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,16 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s0_minus1: %" PRIu32
+                " not in range "
+                "[0, %" PRIu32 "]\n",
+                golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +341,16 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s1_minus1: %" PRIu32
+                " not in range "
+                "[0, %" PRIu32 "]\n",
+                golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From a062b43daa34195a7d26e26d3f7adf0d0b39fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 05/40] fix: check the picture size against the actual
 MinCbSizeY

---
 src/h265_sps_parser.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..5842490 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -322,6 +322,20 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
   if (sps->log2_min_luma_coding_block_size_minus3 > 3) {
     return nullptr;
   }
+  // the picture size must be an integer multiple of the actual MinCbSizeY,
+  // which is only known now
+  MinCbSizeY = sps->getMinCbSizeY();
+  if ((sps->pic_width_in_luma_samples % MinCbSizeY) != 0 ||
+      (sps->pic_height_in_luma_samples % MinCbSizeY) != 0) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr,
+            "error: picture size %" PRIu32 "x%" PRIu32
+            " not a multiple of MinCbSizeY %" PRIu32 "\n",
+            sps->pic_width_in_luma_samples, sps->pic_height_in_luma_samples,
+            MinCbSizeY);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
 
   // log2_diff_max_min_luma_coding_block_size  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From f6528201cd3ef0729fb4af7161face2dcf14122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 06/40] fix: reject a conformance window that leaves no picture

---
 src/h265_sps_parser.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index 5842490..0a21ffb 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -225,6 +225,16 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
               " not in range "
               "[%" PRIu32 ", %" PRIu32 "]\n",
               sps->conf_win_bottom_offset, 0, sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+      return nullptr;
+    }
+    // Section 7.4.3.2.1: the conformance cropping window must not be empty
+    int width = 0;
+    int height = 0;
+    if (sps->getResolution(&width, &height) != 0 || width <= 0 ||
+        height <= 0) {
+#ifdef FPRINT_ERRORS
+      fprintf(stderr, "error: invalid (empty) conformance window\n");
 #endif  // FPRINT_ERRORS
       return nullptr;
     }
-- 
2.43.0


From 388595a439938c365f2681d0f7a5634d5f820b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 07/40] fix: dump diff_cu_qp_delta_depth

---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..0bd0923 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -390,7 +390,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From a8cdf9d68848fe383e63d8cb5520b5f0cde5c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 08/40] fix: reject a PPS whose multilayer extension cannot be
 parsed

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 0bd0923..e5c534f 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From 4ac2b6b3d5bc7db5db6b2bbc6707b2f0af326f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 09/40] fix: read chroma_bit_depth_entry_minus8 when the
 palette is not monochrome

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From 366722e4027f8b9ae7569e53cd0af79d6208aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 10/40] fix: read the resampling phases of the PPS multilayer
 extension as ue(v)

---
 src/h265_pps_multilayer_extension_parser.cc | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 5449234..495f865 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -33,6 +33,7 @@ std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
 H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
     BitBuffer* bit_buffer) noexcept {
   uint32_t bits_tmp;
+  uint32_t golomb_tmp;
   int32_t sgolomb_tmp;
 
   // H265 pps_multilayer_extension() NAL Unit.
@@ -153,29 +154,33 @@ H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
         bits_tmp);
 
     if (pps_multilayer_extension->resample_phase_set_present_flag.back()) {
-      // phase_hor_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
     }
   }
 
-- 
2.43.0


From 44c5d4e70c14ec228d4769712b4d3a69d0d81dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 11/40] fix: read cprms_present_flag as u(1) and infer its
 first value as 1

---
 src/h265_vps_parser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..2efd282 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,12 +225,13 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // Section 7.4.3.1: "cprms_present_flag[0] is inferred to be equal to 1"
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From 28e8b9038f2a58764282b6ef40dee1875db2d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 12/40] fix: infer uniform_spacing_flag and
 loop_filter_across_tiles_enabled_flag as 1

---
 include/h265_pps_parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/h265_pps_parser.h b/include/h265_pps_parser.h
index 5a11526..e966253 100644
--- a/include/h265_pps_parser.h
+++ b/include/h265_pps_parser.h
@@ -60,10 +60,10 @@ class H265PpsParser {
     uint32_t entropy_coding_sync_enabled_flag = 0;
     uint32_t num_tile_columns_minus1 = 0;
     uint32_t num_tile_rows_minus1 = 0;
-    uint32_t uniform_spacing_flag = 0;
+    uint32_t uniform_spacing_flag = 1;
     std::vector<uint32_t> column_width_minus1;
     std::vector<uint32_t> row_height_minus1;
-    uint32_t loop_filter_across_tiles_enabled_flag = 0;
+    uint32_t loop_filter_across_tiles_enabled_flag = 1;
     uint32_t pps_loop_filter_across_slices_enabled_flag = 0;
     uint32_t deblocking_filter_control_present_flag = 0;
     uint32_t deblocking_filter_override_enabled_flag = 0;
-- 
2.43.0


From 68bd25004b384bdd066cffdd42f2510bc7e2bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 13/40] fix: infer the absent slice deblocking parameters from
 the PPS

---
 src/h265_slice_parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..241de9e 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -554,6 +554,15 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Section 7.4.7.1: when not present, the slice deblocking parameters are
+    // inferred to be equal to the ones in the PPS
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
+    slice_segment_header->slice_beta_offset_div2 = pps->pps_beta_offset_div2;
+    slice_segment_header->slice_tc_offset_div2 = pps->pps_tc_offset_div2;
+    slice_segment_header->slice_loop_filter_across_slices_enabled_flag =
+        pps->pps_loop_filter_across_slices_enabled_flag;
+
     slice_segment_header->deblocking_filter_override_enabled_flag =
         pps->deblocking_filter_override_enabled_flag;
     if (slice_segment_header->deblocking_filter_override_enabled_flag) {
-- 
2.43.0


From 566a9f26da53fd8dac5d4a79886700b1b9523729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 14/40] fix: infer the absent number of active reference
 indices from the PPS

---
 src/h265_slice_parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 241de9e..53cd733 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -391,6 +391,15 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
+      // Section 7.4.7.1: when not present, the number of active reference
+      // indices is inferred to be equal to the PPS default
+      slice_segment_header->num_ref_idx_l0_active_minus1 =
+          pps->num_ref_idx_l0_default_active_minus1;
+      if (slice_segment_header->slice_type == SliceType_B) {
+        slice_segment_header->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
+      }
+
       if (slice_segment_header->num_ref_idx_active_override_flag) {
         // num_ref_idx_l0_active_minus1  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From feab9d50e0ec997591b618538c05e389537106f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 15/40] fix: set ChromaArrayType when SAO is disabled

---
 src/h265_slice_parser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 53cd733..7bdaf15 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,13 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // ChromaArrayType is also used by pred_weight_table(), so it must be set
+    // when SAO is disabled
+    slice_segment_header->ChromaArrayType =
+        (slice_segment_header->separate_colour_plane_flag == 0)
+            ? sps->chroma_format_idc
+            : 0;
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
-- 
2.43.0


From 7304c76c70122e4cd860b30e178dfaab83ee1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 16/40] fix: limit of num_entry_point_offsets with tiles and
 entropy coding sync

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 7bdaf15..9799ce4 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -727,7 +727,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 002bbf9db239775eef6d145e4351ea715cf91c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 17/40] fix: infer pic_output_flag as 1

---
 include/h265_slice_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/h265_slice_parser.h b/include/h265_slice_parser.h
index a3d46a0..aab867b 100644
--- a/include/h265_slice_parser.h
+++ b/include/h265_slice_parser.h
@@ -76,7 +76,7 @@ class H265SliceSegmentHeaderParser {
     uint32_t slice_segment_address = 0;
     std::vector<uint32_t> slice_reserved_flag;
     uint32_t slice_type = 0;
-    uint32_t pic_output_flag = 0;
+    uint32_t pic_output_flag = 1;
     uint32_t colour_plane_id = 0;
     uint32_t slice_pic_order_cnt_lsb = 0;
     uint32_t short_term_ref_pic_set_sps_flag = 0;
-- 
2.43.0


From d4dc14628d01889cc1c70aa0738d1259b48c089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 18/40] fix: parse the list 1 part of pred_weight_table() in B
 slices

---
 include/h265_pred_weight_table_parser.h |   4 +-
 src/h265_pred_weight_table_parser.cc    | 123 +++++++++++++++++++++++-
 src/h265_slice_parser.cc                |   4 +-
 3 files changed, 128 insertions(+), 3 deletions(-)

diff --git a/include/h265_pred_weight_table_parser.h b/include/h265_pred_weight_table_parser.h
index 0a455d0..1cda264 100644
--- a/include/h265_pred_weight_table_parser.h
+++ b/include/h265_pred_weight_table_parser.h
@@ -35,6 +35,7 @@ class H265PredWeightTableParser {
     // input parameters
     uint32_t ChromaArrayType = 0;
     uint32_t num_ref_idx_l0_active_minus1 = 0;
+    uint32_t num_ref_idx_l1_active_minus1 = 0;
 
     // contents
     uint32_t luma_log2_weight_denom = 0;
@@ -60,7 +61,8 @@ class H265PredWeightTableParser {
       uint32_t num_ref_idx_l0_active_minus1) noexcept;
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1, bool parse_l1 = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..3af186c 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -33,7 +33,8 @@ H265PredWeightTableParser::ParsePredWeightTable(
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool parse_l1,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   uint32_t bits_tmp;
   int32_t sgolomb_tmp;
 
@@ -121,6 +122,70 @@ H265PredWeightTableParser::ParsePredWeightTable(
     }
   }
 
+  if (!parse_l1) {
+    return pred_weight_table;
+  }
+
+  // list 1 (B slices only)
+  pred_weight_table->num_ref_idx_l1_active_minus1 =
+      num_ref_idx_l1_active_minus1;
+
+  for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+       ++i) {
+    // luma_weight_l1_flag[i]  u(1)
+    if (!bit_buffer->ReadBits(1, bits_tmp)) {
+      return nullptr;
+    }
+    pred_weight_table->luma_weight_l1_flag.push_back(bits_tmp);
+  }
+
+  if (pred_weight_table->ChromaArrayType != 0) {
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      // chroma_weight_l1_flag[i]  u(1)
+      if (!bit_buffer->ReadBits(1, bits_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->chroma_weight_l1_flag.push_back(bits_tmp);
+    }
+  }
+
+  for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+       ++i) {
+    if (pred_weight_table->luma_weight_l1_flag[i]) {
+      // delta_luma_weight_l1[i]  se(v)
+      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->delta_luma_weight_l1.push_back(sgolomb_tmp);
+
+      // luma_offset_l1[i]  se(v)
+      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->luma_offset_l1.push_back(sgolomb_tmp);
+    }
+
+    if (pred_weight_table->ChromaArrayType != 0 &&
+        pred_weight_table->chroma_weight_l1_flag[i]) {
+      pred_weight_table->delta_chroma_weight_l1.emplace_back();
+      pred_weight_table->delta_chroma_offset_l1.emplace_back();
+      for (int j = 0; j < 2; ++j) {
+        // delta_chroma_weight_l1[i][j]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->delta_chroma_weight_l1.back().push_back(sgolomb_tmp);
+
+        // delta_chroma_offset_l1[i][j]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->delta_chroma_offset_l1.back().push_back(sgolomb_tmp);
+      }
+    }
+  }
+
   return pred_weight_table;
 }
 
@@ -193,6 +258,62 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
     fprintf(outfp, " }");
   }
 
+  if (!luma_weight_l1_flag.empty()) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_weight_l1_flag {");
+    for (const uint32_t& v : luma_weight_l1_flag) {
+      fprintf(outfp, " %u", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "chroma_weight_l1_flag {");
+      for (const uint32_t& v : chroma_weight_l1_flag) {
+        fprintf(outfp, " %u", v);
+      }
+      fprintf(outfp, " }");
+    }
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "delta_luma_weight_l1 {");
+    for (const int32_t& v : delta_luma_weight_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_offset_l1 {");
+    for (const int32_t& v : luma_offset_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_weight_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_weight_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_offset_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_offset_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+    }
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 9799ce4..0c1e435 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -484,7 +484,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         slice_segment_header->pred_weight_table =
             H265PredWeightTableParser::ParsePredWeightTable(
                 bit_buffer, slice_segment_header->ChromaArrayType,
-                slice_segment_header->num_ref_idx_l0_active_minus1);
+                slice_segment_header->num_ref_idx_l0_active_minus1,
+                slice_segment_header->slice_type == SliceType_B,
+                slice_segment_header->num_ref_idx_l1_active_minus1);
         if (slice_segment_header->pred_weight_table == nullptr) {
           return nullptr;
         }
-- 
2.43.0


From e01234f55c22dfd168aef008907ea696d80ca366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 19/40] fix: signed exp-Golomb values from code numbers above
 2^31-1

---
 src/rtc_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..181568b 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,7 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    val = static_cast<int32_t>(unsigned_val / 2 + 1);
   }
   return true;
 }
-- 
2.43.0


From d143c43d28725e5a173178c40a2094ea611744d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 20/40] fix: non-symmetric values with 1 or 2^31 possible
 values

---
 src/rtc_common.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 181568b..29bb830 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,14 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
+
+  // A single possible value takes no bits, and ReadBits() cannot read 0 bits.
+  if (num_values == 1) {
+    val = 0;
+    return true;
+  }
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -360,7 +367,13 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
+
+  // A single possible value takes no bits.
+  if (num_values == 1) {
+    return true;
+  }
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -372,7 +385,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 2fa3a6e673acffbce33acc563f43874572dbf245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 21/40] fix: do not dump an access unit delimiter that was
 refused

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..e1b7a73 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From 7fccd1148e9bd523653ba50c29bb566d5e2aadf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 22/40] fix: do not dump a checksum that was not computed

---
 src/h265_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..15b2530 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -108,7 +108,7 @@ void H265NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From cc2fd8e4e7fc08701394aab602f1547a681e4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 23/40] fix: do not dump a configuration box NAL unit that was
 refused

---
 src/h265_configuration_box_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..d1ed942 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -360,7 +360,9 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
       fdump_indent_level(outfp, indent_level);
-      nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      if (nalUnit[j][i] != nullptr) {
+        nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      }
     }
   }
 
-- 
2.43.0


From 6ab6f26953071e2011b44e0bb4b65c11e831f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 24/40] fix: report the length of length-prefixed NAL units

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..636c2f4 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -237,7 +237,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From c3c436a3ea350767c5fc43cd2126e3de6ba9c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 25/40] fix: overflow in the check of 8-byte NAL unit lengths

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 636c2f4..ef34cb7 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -216,7 +216,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From 4b2b6b40eb0e99cb9d070b52750ced29e820adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 26/40] fix: slice QP of an RTP aggregation packet without NAL
 units

---
 src/h265_utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..9344dc0 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -89,6 +89,9 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
     // use the latest NAL unit in the AP
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      return nullptr;
+    }
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
     nal_unit_type = header->nal_unit_type;
-- 
2.43.0


From 9b1415439b248055b1faf4d3d1cf68a3786e2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 27/40] fix: delimit the NAL units of an RTP aggregation packet
 by their sizes

---
 src/h265_rtp_ap_parser.cc | 16 ++++++++++++----
 src/h265_rtp_parser.cc    |  7 +++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/h265_rtp_ap_parser.cc b/src/h265_rtp_ap_parser.cc
index b16af27..08a9734 100644
--- a/src/h265_rtp_ap_parser.cc
+++ b/src/h265_rtp_ap_parser.cc
@@ -25,8 +25,8 @@ namespace h265nal {
 std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  // the NALU sizes count the escaped bytes, so each NALU is unpacked separately
+  BitBuffer bit_buffer(data, length);
   return ParseRtpAp(&bit_buffer, bitstream_parser_state);
 }
 
@@ -57,9 +57,17 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     }
     rtp_ap->nal_unit_sizes.push_back(nalu_size);
 
+    // extract and unpack the NALU
+    std::vector<uint8_t> nalu(nalu_size);
+    if (!bit_buffer->ReadBytes(nalu_size, nalu.data())) {
+      return nullptr;
+    }
+    std::vector<uint8_t> unpacked_nalu = UnescapeRbsp(nalu.data(), nalu.size());
+    BitBuffer nalu_bit_buffer(unpacked_nalu.data(), unpacked_nalu.size());
+
     // NALU header
     rtp_ap->nal_unit_headers.push_back(
-        H265NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H265NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_ap->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -70,7 +78,7 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     // NALU payload
     rtp_ap->nal_unit_payloads.push_back(
         H265NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
+            &nalu_bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
             bitstream_parser_state));
     if (rtp_ap->nal_unit_payloads.back() == nullptr) {
       return nullptr;
diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 4f923af..00939bd 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -23,6 +23,13 @@ namespace h265nal {
 std::unique_ptr<H265RtpParser::RtpState> H265RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
+  NalUnitType nal_unit_type;
+  if (H265NalUnitHeaderParser::GetNalUnitType(data, length, nal_unit_type) &&
+      nal_unit_type == AP) {
+    // the NALUs in an aggregation packet are unpacked separately
+    BitBuffer ap_bit_buffer(data, length);
+    return ParseRtp(&ap_bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
-- 
2.43.0


From 86b701ab3ab80fa69de3bb208905dbfc3b8cd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 28/40] fix: compute slice QPs with the PPS in force

---
 src/h265_utils.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 9344dc0..6e6ae7f 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -120,10 +120,15 @@ std::vector<int32_t> H265Utils::GetSliceQpY(
   // parse the incoming bitstream
   ParsingOptions parsing_options;
   parsing_options.add_checksum = false;
-  auto bitstream_state = h265nal::H265BitstreamParser::ParseBitstream(
-      data, length, bitstream_parser_state, parsing_options);
-  // get all possible QP values
-  for (auto& nal_unit : bitstream_state->nal_units) {
+  // get all possible QP values, each with the PPS in force at that point
+  for (const auto& nalu_index :
+       H265BitstreamParser::FindNaluIndices(data, length)) {
+    auto nal_unit = H265NalUnitParser::ParseNalUnit(
+        &data[nalu_index.payload_start_offset], nalu_index.payload_size,
+        bitstream_parser_state, parsing_options);
+    if (nal_unit == nullptr) {
+      continue;
+    }
     uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
     auto& payload = nal_unit->nal_unit_payload;
     // get the slice QP_Y value
-- 
2.43.0


From 0eec67b2054538086d13521aa9eff357a1b67ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 29/40] fix: endless loop in the checksum of unaligned data

---
 src/h265_common.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 2a2a3e4..0881e2a 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -691,8 +691,7 @@ std::shared_ptr<NaluChecksum> NaluChecksum::GetNaluChecksum(
   int i = 0;
   uint8_t val8 = 0;
   val = 0;
-  while (bit_buffer->RemainingBitCount() > 0) {
-    (void)bit_buffer->ReadUInt8(val8);
+  while (bit_buffer->ReadUInt8(val8)) {
     val |= (static_cast<uint32_t>(val8) << (8 * (3 - i)));
     i += 1;
   }
-- 
2.43.0


From 1f6ac96c81aac2f70358d89475585db3fe48b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 30/40] fix: do not dump an indeterminate NAL unit offset and
 length

---
 include/h265_nal_unit_parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/h265_nal_unit_parser.h b/include/h265_nal_unit_parser.h
index ef14840..bab4026 100644
--- a/include/h265_nal_unit_parser.h
+++ b/include/h265_nal_unit_parser.h
@@ -35,11 +35,11 @@ class H265NalUnitParser {
 #endif  // FDUMP_DEFINE
 
     // NAL Unit offset in the full blob
-    size_t offset;
+    size_t offset = 0;
     // NAL Unit length
-    size_t length;
+    size_t length = 0;
     // NAL Unit parsed length
-    size_t parsed_length;
+    size_t parsed_length = 0;
     // NAL Unit checksum
     std::shared_ptr<NaluChecksum> checksum;
 
-- 
2.43.0


From b5159876401f2d1e002b1ce06fbfef4fe2a7bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 31/40] fix: overflow in the slice QP of out-of-range offsets

---
 src/h265_utils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 6e6ae7f..cc08af0 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -69,9 +69,14 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = pps->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int64_t slice_qpy =
+      26 + static_cast<int64_t>(init_qp_minus26) + slice_qp_delta;
+  if (slice_qpy < INT32_MIN || slice_qpy > INT32_MAX) {
+    // invalid value
+    return nullptr;
+  }
 
-  return std::make_unique<int32_t>(slice_qpy);
+  return std::make_unique<int32_t>(static_cast<int32_t>(slice_qpy));
 }
 }  // namespace
 
-- 
2.43.0


From 9ed9ee5d3090815b6b69b8f30824c19d9a672662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 32/40] fix: profile names of the high throughput and 4:4:4 10
 still picture profiles

---
 src/h265_common.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 0881e2a..4454c33 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -311,6 +311,10 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       str = "FRExt";
       break;
 
+    case HIGH_THROUGHPUT:
+      str = "High Throughput";
+      break;
+
     case MULTIVIEW_MAIN:
       str = "Multiview Main";
       break;
@@ -499,7 +503,7 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       break;
 
     case MAIN_444_10_STILL_PICTURE:
-      str = "Main (8-bit) 4:4:4 Still Picture";
+      str = "Main 4:4:4 10 Still Picture";
       break;
 
     default:
-- 
2.43.0


From 38236b22a93143288b7311c10fc63e167495c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 33/40] fix: width of pre_lut_target_value in colour remapping
 SEI messages

---
 src/h265_sei_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index 96e36c4..fb061d4 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -525,6 +525,8 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
       if (payload_state->pre_lut_num_val_minus1[c] > 0) {
         uint32_t bit_depth_used = static_cast<uint32_t>(
             ((payload_state->colour_remap_input_bit_depth + 7) >> 3) << 3);
+        uint32_t target_bit_depth_used = static_cast<uint32_t>(
+            ((payload_state->colour_remap_output_bit_depth + 7) >> 3) << 3);
         for (uint32_t i = 0; i <= payload_state->pre_lut_num_val_minus1[c];
              i++) {
           // pre_lut_coded_value[c][i]  u(v)
@@ -540,7 +542,7 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           // The number of bits used to represent pre_lut_target_value[c][i]
           // is ((colour_remap_output_bit_depth + 7) >> 3) << 3
           uint32_t target_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, target_value)) {
+          if (!bit_buffer->ReadBits(target_bit_depth_used, target_value)) {
             return nullptr;
           }
           payload_state->pre_lut_target_value[c].push_back(target_value);
-- 
2.43.0


From 8c294a3cd14e45bc1c0927dd4a20549c7d33da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 34/40] fix: do not allocate SEI payloads that exceed the data

---
 src/h265_sei_parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index fb061d4..a312c13 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -146,6 +146,9 @@ H265SeiUserDataRegisteredItuTT35Parser::parse_payload(BitBuffer* bit_buffer,
     remaining_payload_size--;
   }
 
+  if (remaining_payload_size > bit_buffer->RemainingBitCount() / 8) {
+    return nullptr;
+  }
   payload_state->payload.resize(remaining_payload_size);
   for (size_t i = 0; i < payload_state->payload.size(); ++i) {
     // itu_t_t35_payload_byte  b(8)
@@ -193,6 +196,9 @@ H265SeiUserDataUnregisteredParser::parse_payload(BitBuffer* bit_buffer,
 
   remaining_payload_size -= 16;
 
+  if (remaining_payload_size > bit_buffer->RemainingBitCount() / 8) {
+    return nullptr;
+  }
   payload_state->payload.resize(remaining_payload_size);
   for (size_t i = 0; i < payload_state->payload.size(); ++i) {
     // user_data_payload_byte  b(8)
@@ -779,6 +785,9 @@ H265SeiUnknownParser::parse_payload(BitBuffer* bit_buffer,
     return nullptr;
   }
   auto payload_state = std::make_unique<H265SeiUnknownState>();
+  if (remaining_payload_size > bit_buffer->RemainingBitCount() / 8) {
+    return nullptr;
+  }
   payload_state->payload.resize(remaining_payload_size);
   for (size_t i = 0; i < payload_state->payload.size(); ++i) {
     if (!bit_buffer->ReadUInt8(payload_state->payload[i])) {
-- 
2.43.0


From ffb6e4b06e94130f619aa4b39452d56dcbc2bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 35/40] fix: print each sub-layer HRD structure once

The NAL and VCL structures are stored in one vector, which the dump printed
twice when both were present.
---
 src/h265_hrd_parameters_parser.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 23c1385..748546e 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -310,22 +310,8 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   }
   fprintf(outfp, " }");
 
-  if (nal_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-    indent_level = indent_level_incr(indent_level);
-    for (auto& v : sub_layer_hrd_parameters_vector) {
-      fdump_indent_level(outfp, indent_level);
-      v->fdump(outfp, indent_level);
-    }
-    indent_level = indent_level_decr(indent_level);
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "}");
-  }
-
-  if (vcl_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
+  if (nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag) {
+    // sublayer_hrd_parameters(), nal and vcl
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "sub_layer_hrd_parameters_vector {");
     indent_level = indent_level_incr(indent_level);
-- 
2.43.0


From a3a92c9f5b4a460920b307c2384500621633e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 36/40] fix: print the packet of an RTP dump on a line of its
 own

---
 src/h265_rtp_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 00939bd..0325964 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -91,12 +91,15 @@ void H265RtpParser::RtpState::fdump(FILE* outfp, int indent_level,
 
   if (nal_unit_header->nal_unit_type <= 47) {
     // rtp_single()
+    fdump_indent_level(outfp, indent_level);
     rtp_single->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == AP) {
     // rtp_ap()
+    fdump_indent_level(outfp, indent_level);
     rtp_ap->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == FU) {
     // rtp_fu()
+    fdump_indent_level(outfp, indent_level);
     rtp_fu->fdump(outfp, indent_level, parsing_options);
   }
 
-- 
2.43.0


From 3d34ddd729b851ee32b4d5a63915b6f149a21b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 37/40] fix: leave the position alone when ReadBytes() lacks
 data

---
 src/rtc_common.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 29bb830..7cee27e 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -186,6 +186,10 @@ bool BitBuffer::ReadBits(size_t bit_count, uint64_t& val) {
 }
 
 bool BitBuffer::ReadBytes(size_t byte_count, uint8_t* buffer) {
+  // Do not move (or write) if there are not enough bytes left.
+  if (byte_count > RemainingBitCount() / 8) {
+    return false;
+  }
   // There is probably a more efficient way to read a buffer than
   // byte-by-byte.
   for (size_t i = 0; i < byte_count; ++i) {
-- 
2.43.0


From 3e792593ab80f146109bb102bd5b1e7ba2377749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 38/40] fix: report the length of slices that could not be
 parsed

---
 tools/h265nal.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d88a4ab..ff8a389 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -504,7 +504,13 @@ int main(int argc, char** argv) {
         uint32_t first_slice_segment_in_pic_flag = 0;
         uint32_t slice_segment_address = 0;
         uint32_t slice_pic_order_cnt_lsb = 0;
-        bool is_slice_segment = h265nal::IsSliceSegment(nal_unit_type);
+        // slice segments whose header could not be parsed have no values
+        bool is_slice_segment =
+            h265nal::IsSliceSegment(nal_unit_type) &&
+            nal_unit->nal_unit_payload != nullptr &&
+            nal_unit->nal_unit_payload->slice_segment_layer != nullptr &&
+            nal_unit->nal_unit_payload->slice_segment_layer
+                    ->slice_segment_header != nullptr;
         if (is_slice_segment) {
           first_slice_segment_in_pic_flag =
               nal_unit->nal_unit_payload->slice_segment_layer
-- 
2.43.0


From f5bcc1aeea0e636da82a58b6b713a26a3cb9a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 39/40] fix: accept the documented --nalu-length-bytes -1

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index ff8a389..72ec3a2 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -299,7 +299,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From e7c7c2f9c758c5cab684bc97bba8da1676d1d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 40/40] fix: build the tool with a small footprint

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 72ec3a2..2bbc188 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -557,12 +557,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   return 0;
 }
-- 
2.43.0

