"""Job tables: which harness entry points decide which property, and within
which bounds.  A rule 'glob|kind|values' restricts the input elements whose name
matches; the first matching rule wins and an unmatched element is unrestricted
(any value of its width)."""


class Job:
    def __init__(self, name, harness, entry, params=None, rules=(), time=150, tier="qt", mode="elem", errors_only=False,
                 note="", must_cover=(), samples=6, labels=(), max_inst=0, extra=()):
        self.name, self.harness, self.entry = name, harness, entry
        self.params = dict({"trunc": 0, "dump": 0, "soft": 1}, **(params or {}))
        self.rules, self.time, self.tier, self.mode = list(rules), time, tier, mode
        self.errors_only, self.note, self.must_cover = errors_only, note, tuple(must_cover)
        self.samples, self.max_inst, self.extra = samples, max_inst, list(extra)
        self.cost = False  # only the effort counts
        self.labels = tuple(labels)  # the assertions this property is about; empty: all


def fix(**kw):
    return ["%s|fix|%d" % (k, v) for k, v in kw.items()]


def mx(**kw):
    return ["%s|max|%d" % (k, v) for k, v in kw.items()]


# profile_tier_level() in the simplest form (it has its own property)
PTLFIX = ["*profile_idc|fix|1", "profile_compatibility_flag|fix|0", "sub_layer_*_present_flag|fix|0"]
NOEXT = fix(sps_extension_present_flag=0)
NOVUI = fix(vui_parameters_present_flag=0)
NORPS = fix(num_short_term_ref_pic_sets=0)
NOSL = fix(scaling_list_enabled_flag=0)
ONESUB = fix(sps_max_sub_layers_minus1=0)
NOHRD = fix(vui_hrd_parameters_present_flag=0)
SL0 = {"slfree": 0, "slone": 0}
Q, T, QT = "q", "t", "qt"


# ---------------------------------------------------------------- profile/tier
def ptl_jobs():
    return [
        Job("general", "h_ptl.cc", "e_ptl", {"maxsub": 0}, must_cover=["accepted"], note="all profile_idc and compatibility flags free"),
        Job("sublayers1", "h_ptl.cc", "e_ptl", {"maxsub": 1}, ["profile_idc|set|1|2|4|9|11|0", "profile_compatibility_flag|fix|0"], tier=QT),
        Job("sublayers7-level", "h_ptl.cc", "e_ptl", {"maxsub": 7}, PTLFIX[:2] + ["sub_layer_profile_present_flag|fix|0"]), Job("sublayers7-profile", "h_ptl.cc", "e_ptl", {"maxsub": 6}, PTLFIX[:2] + ["sub_layer_level_present_flag|fix|0"]),
        Job("trunc", "h_ptl.cc", "e_ptl", {"maxsub": 2, "trunc": 1}, PTLFIX[:2]),
        Job("max", "h_ptl.cc", "e_ptl", {"maxsub": 7}, ["profile_idc|fix|1", "profile_compatibility_flag|fix|0", "sub_layer_profile_present_flag|fix|1", "sub_layer_level_present_flag|fix|1"]),
        Job("sublayers2", "h_ptl.cc", "e_ptl", {"maxsub": 2}, ["profile_idc|set|1|2|4|5|9|10|11|0", "profile_compatibility_flag|fix|0"], tier=T, time=300),
    ]


# ---------------------------------------------------------------- HRD
MAXHRD = fix(cpb_cnt_minus1=31, nal_hrd_parameters_present_flag=1, vcl_hrd_parameters_present_flag=1, sub_pic_hrd_params_present_flag=1, fixed_pic_rate_general_flag=0, fixed_pic_rate_within_cvs_flag=0, low_delay_hrd_flag=0)


def hrd_jobs():
    c1 = mx(cpb_cnt_minus1=1)
    return [
        Job("common-0", "h_vui.cc", "e_hrd", {"maxsub": 0, "common": 1}, mx(cpb_cnt_minus1=2), must_cover=["accepted"]),
        Job("nocommon-1", "h_vui.cc", "e_hrd", {"maxsub": 1, "common": 0}, []),
        Job("common-1", "h_vui.cc", "e_hrd", {"maxsub": 1, "common": 1}, c1),
        Job("common-2", "h_vui.cc", "e_hrd", {"maxsub": 2, "common": 1}, mx(cpb_cnt_minus1=0)),
        Job("trunc-1", "h_vui.cc", "e_hrd", {"maxsub": 1, "common": 1, "trunc": 1}, c1),
        Job("nocommon-6", "h_vui.cc", "e_hrd", {"maxsub": 6, "common": 0}, mx(cpb_cnt_minus1=0) + fix(low_delay_hrd_flag=0)),
        Job("common-3", "h_vui.cc", "e_hrd", {"maxsub": 3, "common": 1}, c1, tier=T, time=300),
        Job("max", "h_vui.cc", "e_hrd", {"maxsub": 6, "common": 1}, MAXHRD, must_cover=["accepted"]),
        Job("max-mix", "h_vui.cc", "e_hrd", {"maxsub": 6, "common": 1}, ["fixed_pic_rate_general_flag|mix|3", "fixed_pic_rate_within_cvs_flag|mix|1", "low_delay_hrd_flag|mix|2"] + MAXHRD, must_cover=["accepted"]),
        Job("one-low-delay", "h_vui.cc", "e_hrd", {"maxsub": 6, "common": 1}, ["cpb_cnt_minus1|fix|2", "low_delay_hrd_flag|one|0"] + MAXHRD, must_cover=["accepted"]),
        Job("one-normal-delay", "h_vui.cc", "e_hrd", {"maxsub": 6, "common": 1}, ["cpb_cnt_minus1|fix|2", "low_delay_hrd_flag|one|1"] + MAXHRD, must_cover=["accepted"]),
        Job("one-fixed-rate", "h_vui.cc", "e_hrd", {"maxsub": 6, "common": 0}, ["cpb_cnt_minus1|fix|2", "fixed_pic_rate_general_flag|one|0", "fixed_pic_rate_within_cvs_flag|mix|4", "low_delay_hrd_flag|mix|5"] + MAXHRD, must_cover=["accepted"]),
        Job("cpb31", "h_vui.cc", "e_hrd", {"maxsub": 0, "common": 1}, mx(cpb_cnt_minus1=31), tier=QT),
    ]


# ---------------------------------------------------------------- VUI
def vui_jobs():
    return [
        Job("nohrd", "h_vui.cc", "e_vui", {"maxsub": 0}, NOHRD, must_cover=["accepted"]),
        Job("hrd", "h_vui.cc", "e_vui", {"maxsub": 1}, ["aspect_ratio_info_present_flag|fix|0", "overscan*_flag|fix|0", "video_signal_type_present_flag|fix|0",
            "chroma_loc_info_present_flag|fix|0", "default_display_window_flag|fix|0", "vui_timing_info_present_flag|fix|1", "vui_hrd_parameters_present_flag|fix|1", "cpb_cnt_minus1|max|0"]),
        Job("trunc", "h_vui.cc", "e_vui", {"maxsub": 0, "trunc": 1}, NOHRD + ["overscan_info_present_flag|fix|0", "chroma_loc_info_present_flag|fix|0"]),
        Job("max", "h_vui.cc", "e_vui", {"maxsub": 6}, ["*_present_flag|fix|1", "default_display_window_flag|fix|1", "bitstream_restriction_flag|fix|1", "aspect_ratio_idc|fix|255"] + MAXHRD, must_cover=["accepted"]),
        Job("framerate", "h_vui.cc", "e_framerate"),
    ]


# ---------------------------------------------------------------- scaling list
def sl_jobs():
    return [
        Job("one-of-each", "h_parts.cc", "e_sl", {"slfree": 0, "slone": 0x1041}, must_cover=["accepted", "rejected"]),
        Job("4x4", "h_parts.cc", "e_sl", {"slfree": 0x3f, "slone": 0}),
        Job("8x8", "h_parts.cc", "e_sl", {"slfree": 0x1c0, "slone": 0}),
        Job("16x16", "h_parts.cc", "e_sl", {"slfree": 0x7000, "slone": 0}),
        Job("32x32", "h_parts.cc", "e_sl", {"slfree": 0xfc0000, "slone": 0}),
        Job("max", "h_parts.cc", "e_sl", {"slfree": 0, "slone": 0xffffff, "slvalid": 1}, must_cover=["accepted"]), Job("none", "h_parts.cc", "e_sl", {"slfree": 0, "slone": 0}, must_cover=["accepted"]),
        Job("alternate", "h_parts.cc", "e_sl", {"slfree": 0, "slone": 0xaaaaaa, "slvalid": 1}, must_cover=["accepted"]),
        Job("trunc", "h_parts.cc", "e_sl", {"slfree": 0x3, "slone": 0x40000, "trunc": 1}),
    ]


# ---------------------------------------------------------------- RPS
def rps_jobs():
    return [
        Job("sps1-slice", "h_parts.cc", "e_rps", {"num": 1, "slice": 1, "maxpics": 2}, must_cover=["accepted", "rejected", "inter"]),
        Job("sps2-slice", "h_parts.cc", "e_rps", {"num": 2, "slice": 1, "maxpics": 1}, tier=T, time=300),
        Job("sps3-narrow", "h_parts.cc", "e_rps", {"num": 2, "slice": 1, "maxpics": 1}, ["num_positive_pics|max|0", "delta_poc_s0_minus1|max|7", "abs_delta_rps_minus1|max|7"]),
        Job("sps1-deep", "h_parts.cc", "e_rps", {"num": 1, "slice": 0, "maxpics": 15}, mx(num_negative_pics=20, num_positive_pics=20)),
        Job("max-sets", "h_parts.cc", "e_rps", {"num": 64, "slice": 1, "maxpics": 15, "plain": 1}, ["num_negative_pics|fix|1", "num_positive_pics|fix|1", "delta_idx_minus1|set|0|1|31|62|63|64", "delta_poc*|max|100", "abs_delta_rps_minus1|fix|0", "use_delta_flag|fix|0"] ),
        Job("max-inter", "h_parts.cc", "e_rps", {"num": 1, "slice": 1, "maxpics": 15}, ["num_negative_pics|set|8|15", "num_positive_pics|set|0|7", "delta_poc*|fix|2", "inter_ref_pic_set_prediction_flag|fix|1", "used_by_curr_pic_flag|fix|1", "abs_delta_rps_minus1|set|0|7|14|21|100"]),
        Job("max-mix", "h_parts.cc", "e_rps", {"num": 1, "slice": 1, "maxpics": 15}, ["num_negative_pics|set|8|15", "num_positive_pics|set|0|7", "delta_poc*|fix|2", "inter_ref_pic_set_prediction_flag|fix|1", "used_by_curr_pic_flag|mix|1", "use_delta_flag|mix|2", "abs_delta_rps_minus1|set|0|7|14|21|100"]),
        Job("trunc", "h_parts.cc", "e_rps", {"num": 1, "slice": 1, "maxpics": 1, "trunc": 1}),
        Job("sps2-slice-2", "h_parts.cc", "e_rps", {"num": 2, "slice": 1, "maxpics": 2}, tier=T, time=800),
    ]


# ---------------------------------------------------------------- weights
def pwt_jobs():
    P = lambda n, **k: Job(n, "h_parts.cc", "e_pwt", k)
    js = [P("P-3-420", n0=2, cat=1, b=0, n1=0), P("P-1-mono", n0=0, cat=0, b=0, n1=0), P("B-1-1", n0=0, cat=3, b=1, n1=0), P("B-2-1", n0=1, cat=1, b=1, n1=0),
          P("B-1-2-mono", n0=0, cat=0, b=1, n1=1), P("trunc", n0=0, cat=1, b=1, n1=0, trunc=1), P("P-5", n0=4, cat=1, b=0, n1=0)]
    js += [Job("B-2-2", "h_parts.cc", "e_pwt", dict(n0=1, cat=1, b=1, n1=1), tier=QT), Job("P-15-mono", "h_parts.cc", "e_pwt", dict(n0=14, cat=0, b=0, n1=0), ["luma_weight_l0_flag|fix|1"])]
    js += [Job("max", "h_parts.cc", "e_pwt", dict(n0=14, cat=1, b=1, n1=14), ["*_flag|fix|1"]), Job("max-none", "h_parts.cc", "e_pwt", dict(n0=14, cat=3, b=1, n1=14), ["*_flag|fix|0"])]
    # flags that differ from entry to entry: an irregular pattern; one entry (each in turn) unlike the others
    js += [Job("max-mix", "h_parts.cc", "e_pwt", dict(n0=14, cat=1, b=1, n1=14), ["*_flag|mix|1"])]
    js += [Job("one-" + f.replace("_weight", "").replace("_flag", ""), "h_parts.cc", "e_pwt", dict(n0=14, cat=1, b=1, n1=14), [f + "|one|0", "*_flag|mix|2"]) for f in ("luma_weight_l0_flag", "chroma_weight_l0_flag", "luma_weight_l1_flag", "chroma_weight_l1_flag")]
    for j in js:
        j.must_cover = ("accepted",)
    return js


# ---------------------------------------------------------------- SPS
# every optional part switched off; a job frees the parts it is about
SPSB = {"sps_max_sub_layers_minus1": 0, "conformance_window_flag": 0, "scaling_list_enabled_flag": 0, "pcm_enabled_flag": 0,
        "num_short_term_ref_pic_sets": 0, "long_term_ref_pics_present_flag": 0, "vui_parameters_present_flag": 0, "sps_extension_present_flag": 0}


def spsr(extra=(), **free):
    r = list(extra) + PTLFIX
    for k, v in SPSB.items():
        if k not in free:
            r.append("%s|fix|%d" % (k, v))
        elif free[k] is not None:
            r.append("%s|max|%d" % (k, free[k]))
    return r


def sps_jobs():
    S = lambda n, rules, p=None, **k: Job(n, "h_ps.cc", "e_sps", dict(SL0, **(p or {})), rules, **k)
    return [
        S("core", spsr(conformance_window_flag=None, pcm_enabled_flag=None), must_cover=["accepted", "rejected"]),
        S("sublayers", spsr(sps_max_sub_layers_minus1=3, extra=["bit_depth*|fix|0", "chroma_format_idc|fix|1", "sub_layer_*_present_flag|fix|0"])),
        S("rps", spsr(num_short_term_ref_pic_sets=2, extra=["num_negative_pics|max|1", "num_positive_pics|max|1", "bit_depth*|fix|0", "chroma_format_idc|fix|1", "pic_*|fix|64", "log2*|fix|0"])),
        S("longterm", spsr(long_term_ref_pics_present_flag=None, extra=["bit_depth*|fix|0", "chroma_format_idc|fix|1", "num_long_term_ref_pics_sps|max|33", "pic_*|fix|64", "log2_min*|fix|0", "log2_diff*|fix|0"])),
        S("scaling", spsr(scaling_list_enabled_flag=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0"]), {"slfree": 0x41}),
        S("vui", spsr(vui_parameters_present_flag=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "chroma_format_idc|fix|1"] + NOHRD + ["video_signal_type_present_flag|fix|0", "default_display_window_flag|fix|0"])),
        S("ext", spsr(sps_extension_present_flag=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|max|1", "*num_palette_predictor_initializers_minus1|max|0"])),
        S("trunc", spsr(conformance_window_flag=None, pcm_enabled_flag=None, long_term_ref_pics_present_flag=None, extra=["num_long_term_ref_pics_sps|max|1", "chroma_format_idc|set|1|3", "pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0"], sps_max_sub_layers_minus1=1), {"trunc": 1}),
        S("trunc-ext", spsr(sps_extension_present_flag=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "chroma_format_idc|fix|1", "*num_palette_predictor_initializers_minus1|max|0"]), {"trunc": 1}),
        S("trunc-vui", spsr(vui_parameters_present_flag=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "chroma_format_idc|fix|1"] + NOHRD + ["video_signal_type_present_flag|fix|0", "default_display_window_flag|fix|0"]), {"trunc": 1}),
        S("max-rps", spsr(num_short_term_ref_pic_sets=None, long_term_ref_pics_present_flag=None, extra=["num_short_term_ref_pic_sets|fix|64", "num_negative_pics|fix|1", "num_positive_pics|fix|0", "inter_ref_pic_set_prediction_flag|fix|0", "num_long_term_ref_pics_sps|fix|32", "long_term_ref_pics_present_flag|fix|1", "bit_depth*|fix|0", "chroma_format_idc|fix|1", "pic_*|fix|64", "log2*|fix|0"]), must_cover=["accepted"]),
        S("max-sub", ["sps_max_sub_layers_minus1|fix|6", "sub_layer_*_present_flag|fix|1", "*profile_idc|fix|1", "*profile_compatibility_flag|fix|0"] + spsr(scaling_list_enabled_flag=None, extra=["bit_depth*|fix|0", "chroma_format_idc|fix|1", "pic_*|fix|64", "log2*|fix|0", "scaling_list_enabled_flag|fix|1", "sps_scaling_list_data_present_flag|fix|1", "sps_sub_layer_ordering_info_present_flag|fix|1"]), {"slone": 0xffffff, "slvalid": 1}, must_cover=["accepted"]),
        # every optional part on or off, in every combination, each with minimal contents
        S("controls", PTLFIX + ["sps_max_sub_layers_minus1|max|1", "chroma_format_idc|set|0|1|3", "separate_colour_plane_flag|fix|0", "pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "num_short_term_ref_pic_sets|set|0|2", "num_negative_pics|fix|1", "num_positive_pics|fix|0", "inter_ref_pic_set_prediction_flag|fix|0",
            "num_long_term_ref_pics_sps|fix|1", "*num_palette_predictor_initializers_minus1|fix|0", "aspect_ratio_idc|fix|255", "vui_hrd_parameters_present_flag|fix|0", "vui_*_flag|fix|1", "*_info_present_flag|fix|1", "video_signal_type_present_flag|fix|1", "colour_description_present_flag|fix|1", "default_display_window_flag|fix|1", "bitstream_restriction_flag|fix|1",
            "sps_range_extension_flag|fix|1", "sps_multilayer_extension_flag|free", "sps_3d_extension_flag|fix|0", "sps_scc_extension_flag|fix|1", "sps_extension_4bits|fix|0", "palette_mode_enabled_flag|fix|1", "sps_palette_predictor_initializers_present_flag|fix|1"], must_cover=["accepted"]),
        S("controls-hrd", PTLFIX + ["sps_max_sub_layers_minus1|max|1", "chroma_format_idc|fix|1", "conformance_window_flag|fix|0", "pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "num_short_term_ref_pic_sets|max|1", "num_negative_pics|fix|0", "num_positive_pics|fix|1", "long_term_ref_pics_present_flag|fix|0", "scaling_list_enabled_flag|fix|0", "pcm_enabled_flag|fix|0",
            "vui_parameters_present_flag|fix|1", "aspect_ratio_info_present_flag|fix|0", "overscan*|fix|0", "video_signal_type_present_flag|fix|0", "chroma_loc*|fix|0", "default_display_window_flag|fix|0", "cpb_cnt_minus1|fix|1", "low_delay_hrd_flag|fix|0", "sub_pic_hrd_params_present_flag|free", "sps_extension_present_flag|free", "sps_range_extension_flag|fix|1", "sps_multilayer_extension_flag|fix|1", "sps_3d_extension_flag|free", "sps_scc_extension_flag|fix|0", "sps_extension_4bits|fix|0"], must_cover=["accepted"]),
        S("all", PTLFIX + ONESUB + NOEXT + NOVUI + ["num_short_term_ref_pic_sets|max|1", "num_negative_pics|max|1", "num_positive_pics|max|1", "num_long_term_ref_pics_sps|max|1"], tier=T, time=600),
    ]


# ---------------------------------------------------------------- PPS
def pps_jobs():
    S = lambda n, rules, p=None, **k: Job(n, "h_ps.cc", "e_pps", dict(SL0, **(p or {})), rules, **k)
    no = fix(pps_scaling_list_data_present_flag=0)
    return [
        S("core", no + fix(pps_extension_present_flag=0) + mx(num_tile_columns_minus1=2, num_tile_rows_minus1=2), must_cover=["accepted"]),
        S("tiles", no + fix(pps_extension_present_flag=0, cu_qp_delta_enabled_flag=0, deblocking_filter_control_present_flag=0)),
        S("tiles-long", no + fix(pps_extension_present_flag=0, cu_qp_delta_enabled_flag=0, deblocking_filter_control_present_flag=0, tiles_enabled_flag=1) + ["num_tile_columns_minus1|set|0|1|9|19", "num_tile_rows_minus1|set|0|1|10|21"], {"big": 40}),
        S("scaling", fix(pps_extension_present_flag=0, tiles_enabled_flag=0, deblocking_filter_control_present_flag=0), {"slfree": 0x1001}),
        S("ext", no + fix(tiles_enabled_flag=0, deblocking_filter_control_present_flag=0, cu_qp_delta_enabled_flag=0, pps_extension_present_flag=1) + mx(num_ref_loc_offsets=1, pps_num_palette_predictor_initializer=1)),
        S("controls", ["*num_ref_loc_offsets|fix|1", "scaled_ref_layer_offset_present_flag|fix|1", "ref_region_offset_present_flag|fix|0", "resample_phase_set_present_flag|fix|0", "colour_mapping_enabled_flag|fix|0", "num_tile_columns_minus1|fix|1", "num_tile_rows_minus1|fix|1", "pps_num_palette_predictor_initializer|fix|1", "monochrome_palette_flag|free", "*bit_depth_entry*|fix|0",
            "pps_range_extension_flag|fix|0", "pps_3d_extension_flag|fix|0", "pps_extension_4bits|fix|0", "pps_curr_pic_ref*|fix|0"], must_cover=["accepted"]),
        S("max", ["pps_scaling_list_data_present_flag|fix|1", "*_present_flag|fix|1", "pps_range_extension_flag|fix|0", "pps_3d_extension_flag|fix|0", "pps_multilayer_extension_flag|fix|1", "pps_scc_extension_flag|fix|1", "pps_extension_4bits|fix|0", "colour_mapping_enabled_flag|fix|0", "monochrome_palette_flag|fix|0", "luma_bit_depth*|fix|2", "chroma_bit_depth*|fix|8",
            "tiles_enabled_flag|fix|1", "uniform_spacing_flag|fix|0", "num_tile_columns_minus1|fix|19", "num_tile_rows_minus1|fix|21", "num_ref_loc_offsets|fix|32", "pps_num_palette_predictor_initializer|fix|128", "cu_qp_delta_enabled_flag|fix|1", "deblocking_filter_control_present_flag|fix|1", "pps_deblocking_filter_disabled_flag|fix|0", "pps_infer_scaling_list_flag|fix|1", "residual_adaptive_colour_transform_enabled_flag|fix|1"], {"slone": 0xffffff, "slvalid": 1, "big": 40, "pal": 128}, must_cover=["accepted"]),
        S("max-ext", no + fix(tiles_enabled_flag=0, deblocking_filter_control_present_flag=0, cu_qp_delta_enabled_flag=0, pps_extension_present_flag=1, pps_range_extension_flag=0, pps_3d_extension_flag=0, colour_mapping_enabled_flag=0) + ["num_ref_loc_offsets|set|3|63"] + fix(scaled_ref_layer_offset_present_flag=1, ref_region_offset_present_flag=0, resample_phase_set_present_flag=1, pps_scc_extension_flag=0), {"big": 63}),
        S("trunc", no + fix(pps_extension_present_flag=0) + mx(num_tile_columns_minus1=1, num_tile_rows_minus1=1), {"trunc": 1}),
        S("trunc-ext", no + fix(tiles_enabled_flag=0, deblocking_filter_control_present_flag=0, cu_qp_delta_enabled_flag=0, pps_extension_present_flag=1) + mx(num_ref_loc_offsets=1, pps_num_palette_predictor_initializer=1, luma_bit_depth_entry_minus8=0, chroma_bit_depth_entry_minus8=0), {"trunc": 1}),
    ]


# ---------------------------------------------------------------- VPS
def vps_jobs():
    S = lambda n, rules, p=None, **k: Job(n, "h_ps.cc", "e_vps", dict(SL0, **(p or {})), PTLFIX + rules, **k)
    one = fix(vps_max_sub_layers_minus1=0)
    hr = ["vps_max_layer_id|set|0|1|63", "sub_pic_hrd_params_present_flag|fix|0", "low_delay_hrd_flag|fix|0", "cpb_cnt_minus1|max|0"]
    return [
        S("core", fix(vps_timing_info_present_flag=0) + ["vps_num_layer_sets_minus1|max|0"], must_cover=["accepted", "rejected"]),
        S("controls", ["vps_max_sub_layers_minus1|max|1", "vps_num_layer_sets_minus1|max|1", "vps_max_layer_id|fix|1", "vps_num_hrd_parameters|max|2", "cpb_cnt_minus1|fix|0", "fixed_pic_rate*|fix|1", "low_delay*|fix|0", "sub_pic_hrd_params_present_flag|fix|1", "vcl_hrd*|free"], must_cover=["accepted"]),
        S("layers", one + fix(vps_timing_info_present_flag=0) + ["vps_num_layer_sets_minus1|range|0|3"]),
        S("layer-sets", one + fix(vps_timing_info_present_flag=0, vps_extension_flag=0, vps_max_layer_id=0) + ["vps_num_layer_sets_minus1|set|1022|1023|1024|1025|65535"], must_cover=["accepted", "rejected"]),
        S("max", ["vps_max_sub_layers_minus1|fix|6", "vps_num_layer_sets_minus1|fix|7", "vps_max_layer_id|fix|62", "vps_timing_info_present_flag|fix|1", "vps_num_hrd_parameters|fix|8", "cprms_present_flag|fix|1", "vps_sub_layer_ordering_info_present_flag|fix|1", "vps_extension_flag|fix|0"] + ["cpb_cnt_minus1|fix|2"] + MAXHRD, must_cover=["accepted"]),
        S("max-mix", ["vps_max_sub_layers_minus1|fix|2", "vps_num_layer_sets_minus1|fix|11", "vps_max_layer_id|fix|3", "vps_timing_info_present_flag|fix|1", "vps_num_hrd_parameters|fix|12", "cprms_present_flag|mix|1", "fixed_pic_rate*|mix|2", "low_delay*|mix|3", "vps_sub_layer_ordering_info_present_flag|fix|1", "vps_extension_flag|fix|0"] + ["cpb_cnt_minus1|fix|1"] + MAXHRD, must_cover=["accepted"]),
        S("hrd1", one + ["vps_num_layer_sets_minus1|max|0"] + hr),
        S("hrd2", one + ["vps_num_layer_sets_minus1|fix|1", "vps_num_hrd_parameters|fix|2", "vcl_hrd_parameters_present_flag|fix|0", "vps_max_layer_id|fix|0", "vps_extension_flag|fix|0"] + hr),
        S("hrdsub", ["vps_max_sub_layers_minus1|fix|1", "vps_num_layer_sets_minus1|fix|0", "vcl_hrd_parameters_present_flag|fix|0", "vps_max_layer_id|fix|0", "vps_extension_flag|fix|0"] + hr),
        S("trunc", ["vps_max_sub_layers_minus1|max|1", "vps_num_layer_sets_minus1|max|1", "nal_hrd_parameters_present_flag|fix|0", "vcl_hrd_parameters_present_flag|fix|0"] + hr, {"trunc": 1}),
    ]


# ---------------------------------------------------------------- extensions
def ext_jobs():
    E = lambda n, k, rules=(), **kw: Job(n, "h_ps.cc", "e_ext", dict(SL0, ext=k, **kw), rules, must_cover=("accepted",))
    pal = ["*num_palette_predictor_initializer*|max|2"]
    pal1 = ["*num_palette_predictor_initializer*|max|1"]
    return [E("sps-range", 0), E("sps-ml", 1), E("sps-3d", 2), E("sps-scc", 3, pal1), E("pps-ml", 4, mx(num_ref_loc_offsets=2)), E("sps-scc-max", 3, ["bit_depth*|set|0|8", "*num_palette_predictor_initializer*|fix|127", "chroma_format_idc|set|0|2", "palette_mode*|fix|1", "sps_palette_predictor_initializers_present_flag|fix|1"], pal=128),
            E("pps-scc-max", 5, ["*bit_depth_entry*|set|0|8", "*num_palette_predictor_initializer*|set|127|128", "residual*|fix|0", "pps_palette_predictor_initializer_present_flag|fix|1"], pal=128), E("pps-ml-max", 4, ["num_ref_loc_offsets|fix|64", "scaled_ref_layer_offset_present_flag|fix|1", "ref_region_offset_present_flag|fix|1", "resample_phase_set_present_flag|fix|1"], big=64), E("pps-scc", 5, pal),
            E("pps-ml-mix", 4, ["num_ref_loc_offsets|fix|40", "scaled_ref_layer_offset_present_flag|mix|1", "ref_region_offset_present_flag|mix|2", "resample_phase_set_present_flag|mix|3"], big=40),
            E("pps-ml-one", 4, ["num_ref_loc_offsets|fix|64", "ref_region_offset_present_flag|one|0", "*_present_flag|mix|2"], big=64),
            E("sps-range-t", 0, trunc=1), E("sps-3d-t", 2, trunc=1), E("sps-scc-t", 3, ["bit_depth*|fix|0"] + pal1, trunc=1),
            E("pps-ml-t", 4, mx(num_ref_loc_offsets=1), trunc=1), E("pps-scc-t", 5, ["*bit_depth_entry*|fix|0"] + pal1, trunc=1)]


# ---------------------------------------------------------------- slice header
SLB = {"nut": 1, "sps.chroma_format_idc": 1, "sps.separate_colour_plane_flag": 0, "sps.log2_min_luma_coding_block_size_minus3": 0,
       "sps.log2_diff_max_min_luma_coding_block_size": 1, "sps.pic_width_in_luma_samples": 72, "sps.pic_height_in_luma_samples": 40,
       "sps.log2_max_pic_order_cnt_lsb_minus4": 2, "sps.*": 0, "pps.pps_beta_offset_div2": None, "pps.pps_tc_offset_div2": None, "pps.*": 0,
       "first_slice_segment_in_pic_flag": 1, "slice_pic_parameter_set_id": 3, "slice_type": 2, "short_term_ref_pic_set_sps_flag": 1}


def slr(extra):
    return list(extra) + ["%s|%s" % (k, "free" if v is None else "fix|%d" % v) for k, v in SLB.items()]


def free(*names):
    return ["%s|free" % n for n in names]


# every part of the header switched on by the parameter sets, one element each
ALLON = (fix(**{"sps.long_term_ref_pics_present_flag": 1, "sps.num_long_term_ref_pics_sps": 3, "sps.sps_temporal_mvp_enabled_flag": 1, "sps.sample_adaptive_offset_enabled_flag": 1, "sps.sps_scc_extension_flag": 1,
                "sps.motion_vector_resolution_control_idc": 2, "pps.dependent_slice_segments_enabled_flag": 1, "pps.num_extra_slice_header_bits": 2, "pps.output_flag_present_flag": 1, "pps.cabac_init_present_flag": 1,
                "pps.weighted_pred_flag": 1, "pps.weighted_bipred_flag": 1, "pps.pps_slice_chroma_qp_offsets_present_flag": 1, "pps.deblocking_filter_override_enabled_flag": 1, "pps.pps_loop_filter_across_slices_enabled_flag": 1,
                "pps.tiles_enabled_flag": 1, "pps.entropy_coding_sync_enabled_flag": 1, "pps.num_tile_columns_minus1": 1, "pps.num_tile_rows_minus1": 1, "pps.slice_segment_header_extension_present_flag": 1,
                "pps.pps_scc_extension_flag": 1, "pps.pps_slice_act_qp_offsets_present_flag": 1, "num_long_term_sps": 1, "num_long_term_pics": 1, "num_entry_point_offsets": 1, "offset_len_minus1": 7, "slice_segment_header_extension_length": 1})
         + ["num_negative_pics|fix|1", "num_positive_pics|fix|0", "inter_ref_pic_set_prediction_flag|fix|0", "delta_poc_s*|fix|2", "short_term_ref_pic_set_sps_flag|free"])
# the flags of the slice header itself set, so that every conditional part is there
ONES = fix(num_long_term_sps=1, num_long_term_pics=1, delta_poc_msb_present_flag=1, slice_temporal_mvp_enabled_flag=1, num_ref_idx_active_override_flag=1, num_ref_idx_l0_active_minus1=1, num_ref_idx_l1_active_minus1=1,
           slice_sao_luma_flag=1, slice_sao_chroma_flag=1, deblocking_filter_override_flag=1, slice_deblocking_filter_disabled_flag=0, num_entry_point_offsets=1, offset_len_minus1=3, slice_segment_header_extension_length=1,
           dependent_slice_segment_flag=0, collocated_from_l0_flag=0) + ["*_weight_l?_flag|fix|1"]


def slice_parts():
    """name -> (rules, params): each frees one part of the header and its controls"""
    return {
        "address": (["sps.pic_height*|set|8|40|1080|16888", "sps.log2_min_luma*|set|0|3", "sps.log2_diff*|set|0|2"] + free("sps.pic_width*", "first_slice_segment_in_pic_flag", "slice_pic_parameter_set_id", "pps.dependent_slice_segments_enabled_flag"), {"rps": 0}),
        "types": (free("nut", "slice_type", "pps.output_flag_present_flag", "pps.num_extra_slice_header_bits", "sps.separate_colour_plane_flag", "sps.chroma_format_idc", "sps.log2_max_pic_order_cnt_lsb_minus4"), {"rps": 0}),
        "rps": (["short_term_ref_pic_set_sps_flag|free", "num_negative_pics|max|2", "num_positive_pics|max|1"], {"rps": 0}),
        "rps-inter": (["short_term_ref_pic_set_sps_flag|free", "num_negative_pics|max|1", "num_positive_pics|max|1"], {"rps": 1}),
        "rps-idx": (["num_negative_pics|fix|1", "num_positive_pics|fix|0", "inter_ref_pic_set_prediction_flag|fix|0", "delta_poc*|max|100"], {"rps": 5}),
        "longterm": (free("sps.long_term_ref_pics_present_flag", "sps.num_long_term_ref_pics_sps", "sps.sps_temporal_mvp_enabled_flag"), {"rps": 0}),
        "inter": (["slice_type|max|3"] + free("sps.sps_temporal_mvp_enabled_flag", "pps.cabac_init_present_flag", "pps.num_ref_idx*", "sps.sps_scc_extension_flag", "sps.motion_vector_resolution_control_idc"), {"rps": 0}),
        "weights": (["slice_type|set|0|1", "num_ref_idx_l0_active_minus1|max|1", "num_ref_idx_l1_active_minus1|max|1", "pps.num_ref_idx*|max|1", "sps.chroma_format_idc|set|0|1"] + free("pps.weighted*"), {"rps": 0}),
        "filters": (["nut|fix|19"] + free("sps.chroma_format_idc", "sps.separate_colour_plane_flag", "sps.sample_adaptive_offset_enabled_flag", "pps.pps_slice_chroma_qp_offsets_present_flag", "pps.deblocking*", "pps.pps_deblocking*", "pps.pps_loop*", "pps.pps_scc_extension_flag", "pps.pps_slice_act*"), {"rps": 0}),
        "entry": (["nut|fix|20", "sps.log2_min_luma*|fix|0", "sps.log2_diff*|set|0|3", "sps.pic_height*|set|8|72|1080|16888", "num_entry_point_offsets|free", "offset_len_minus1|set|0|7|30|31|32"] + free("pps.tiles_enabled_flag", "pps.entropy*", "pps.num_tile*"), {"rps": 0}),
        "entry-dep": (["nut|fix|20", "num_entry_point_offsets|max|2", "offset_len_minus1|set|0|31"] + free("first_slice_segment_in_pic_flag", "pps.dependent_slice_segments_enabled_flag", "pps.tiles_enabled_flag", "pps.entropy*", "pps.num_tile*"), {"rps": 0}),
        "entry-height": (["nut|fix|20", "num_entry_point_offsets|free", "offset_len_minus1|fix|0", "pps.entropy*|fix|1", "pps.num_tile_columns_minus1|max|3", "pps.num_tile_rows_minus1|max|3"] + free("sps.pic_height*", "pps.tiles_enabled_flag"), {"rps": 0}),
        "max-rps": (["short_term_ref_pic_set_sps_flag|fix|1", "num_negative_pics|fix|1", "num_positive_pics|fix|0", "inter_ref_pic_set_prediction_flag|fix|0", "delta_poc*|fix|3"], {"rps": 64}),
        "max-longterm": (["sps.long_term_ref_pics_present_flag|fix|1", "sps.num_long_term_ref_pics_sps|set|31|32|17", "num_long_term_sps|set|0|32", "num_long_term_pics|set|0|33", "delta_poc_msb_present_flag|fix|1"], {"rps": 0, "big": 40}),
        "longterm-mix": (["sps.long_term_ref_pics_present_flag|fix|1", "sps.num_long_term_ref_pics_sps|set|31|32|17", "num_long_term_sps|set|0|12|32", "num_long_term_pics|set|0|20|33", "delta_poc_msb_present_flag|mix|1"], {"rps": 0, "big": 40}),
        "longterm-one": (["sps.long_term_ref_pics_present_flag|fix|1", "sps.num_long_term_ref_pics_sps|set|20", "num_long_term_sps|set|0|20", "num_long_term_pics|set|0|33", "delta_poc_msb_present_flag|one|0"], {"rps": 0, "big": 40}),
        "weights-mix": (["slice_type|set|0|1", "num_ref_idx_l0_active_minus1|fix|14", "num_ref_idx_l1_active_minus1|set|0|14", "num_ref_idx_active_override_flag|fix|1", "pps.weighted*|fix|1", "sps.chroma_format_idc|set|0|1", "*_weight_l?_flag|mix|1"], {"rps": 0, "big": 14}),
        "max-weights": (["slice_type|set|0|1", "num_ref_idx_l0_active_minus1|fix|14", "num_ref_idx_l1_active_minus1|set|0|14", "num_ref_idx_active_override_flag|fix|1", "pps.weighted*|fix|1", "*_weight_l?_flag|fix|1"], {"rps": 0, "big": 14}),
        "max-entry": (["nut|fix|20", "sps.log2_diff*|fix|0", "sps.pic_height*|set|1080|4320", "num_entry_point_offsets|set|134|135|439|440", "offset_len_minus1|set|0|31", "pps.tiles_enabled_flag|free", "pps.entropy*|fix|1", "pps.num_tile*|set|0|19"], {"rps": 0, "big": 500}),
        "max-entry-long": (["nut|fix|20", "sps.log2_diff*|fix|0", "sps.pic_height*|set|16400|16888", "num_entry_point_offsets|set|8|100|300|1100", "offset_len_minus1|set|0", "pps.tiles_enabled_flag|fix|1", "pps.entropy*|set|0|1", "pps.num_tile*|set|19|31"], {"rps": 0, "big": 1200}),
        "max-extension": (["nut|set|0|16", "pps.slice_segment_header_extension_present_flag|fix|1", "slice_segment_header_extension_length|set|0|255|256|257"], {"rps": 0, "big": 300}),
        # everything at once: how the parts of a header depend on each other
        "all-on": (["nut|fix|1", "slice_type|max|3"] + ALLON + ["first_slice_segment_in_pic_flag|fix|0", "dependent_slice_segment_flag|fix|0", "slice_reserved_flag|fix|1", "num_ref_idx_l0_active_minus1|max|1", "num_ref_idx_l1_active_minus1|set|0|2", "*_weight_l?_flag|fix|1"], {"rps": 2}),
        "all-dependent": (["nut|set|1|19", "num_long_term_*|free", "num_entry*|free", "slice_segment_header_extension_length|free"] + ALLON + ["first_slice_segment_in_pic_flag|free", "dependent_slice_segment_flag|free", "slice_type|fix|2"], {"rps": 2}),
        "controls-slice": (["nut|set|1|19|21", "slice_type|set|0|1|2", "sps.log2_max_pic*|fix|2"] + free("sps.separate_colour_plane_flag", "sps.long_term_ref_pics_present_flag", "sps.sps_temporal_mvp_enabled_flag", "sps.sample_adaptive_offset_enabled_flag", "pps.output_flag_present_flag", "pps.cabac_init_present_flag", "pps.weighted_*") + ["sps.chroma_format_idc|set|0|3", "pps.num_extra_slice_header_bits|set|0|1", "sps.num_long_term_ref_pics_sps|fix|2"] + ONES, {"rps": 0}),
        "controls-pps": (["nut|fix|1", "slice_type|set|1|2", "sps.sample_adaptive_offset_enabled_flag|fix|1"] + free("pps.dependent_slice_segments_enabled_flag", "pps.output_flag_present_flag", "pps.pps_slice_chroma_qp_offsets_present_flag", "pps.deblocking*", "pps.pps_deblocking*", "pps.pps_loop*", "pps.tiles_enabled_flag", "pps.entropy*", "pps.slice_segment_header_extension_present_flag", "pps.pps_scc_extension_flag", "pps.pps_slice_act*") + ["first_slice_segment_in_pic_flag|fix|0", "slice_deblocking_filter_disabled_flag|free", "slice_sao_*|free"] + ONES, {"rps": 0}),
        "extension": (["nut|set|0|16"] + free("pps.slice_segment_header_extension_present_flag", "pps.output_flag_present_flag", "pps.num_extra_slice_header_bits", "first_slice_segment_in_pic_flag", "pps.dependent_slice_segments_enabled_flag"), {"rps": 0}),
    }


GEOM = ("address", "entry", "entry-dep", "entry-height", "max-entry", "max-entry-long")


def slice_jobs(names=None, dump=0, trunc=0, prefix=""):
    js = []
    for n, (ru, p) in slice_parts().items():
        if names is None and n in GEOM or names is not None and n not in names:
            continue
        js.append(Job(prefix + n, "h_slice.cc", "e_slice", dict(p, dump=dump, trunc=trunc), slr(ru)))
    return js


def geom_jobs():
    return slice_jobs(GEOM)


def range_jobs():
    js = [j for j in sps_jobs() if j.name in ("core", "longterm")] + [j for j in vps_jobs() if j.name == "core"]
    js[-1].name = "vps-core"
    js += [j for j in vps_jobs() if j.name == "layer-sets"]
    js.append(Job("sps-counts", "h_ps.cc", "e_sps", dict(SL0), spsr(num_short_term_ref_pic_sets=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "chroma_format_idc|fix|1", "num_short_term_ref_pic_sets|set|0|63|64|65|66|255|256", "num_negative_pics|fix|0", "num_positive_pics|fix|0", "inter_ref_pic_set_prediction_flag|fix|0"])))
    js.append(Job("sps-rps-range", "h_ps.cc", "e_sps", dict(SL0), spsr(num_short_term_ref_pic_sets=1, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "chroma_format_idc|fix|1", "num_negative_pics|set|0|1|15|16|17", "num_positive_pics|set|0|1|15|16|17"])))
    js.append(Job("sps-ext-range", "h_ps.cc", "e_ext", dict(SL0, ext=3), ["*num_palette_predictor_initializer*|max|1"]))
    js.append(Job("sps-palette-range", "h_ps.cc", "e_ext", dict(SL0, ext=3, pal=128), ["*num_palette_predictor_initializer*|set|0|127|128|129|255|256", "chroma_format_idc|set|0|1", "bit_depth*|fix|0", "palette_max_size|fix|0", "delta_palette*|fix|0", "palette_mode*|fix|1", "sps_palette_predictor_initializers_present_flag|fix|1"]))
    for j in js:
        j.labels = ("rejects*", "accepts")
    return js


def trunc_jobs():
    js = []
    for pre, t in (("ptl", ptl_jobs), ("hrd", hrd_jobs), ("vui", vui_jobs), ("sl", sl_jobs), ("rps", rps_jobs), ("pwt", pwt_jobs), ("sps", sps_jobs), ("pps", pps_jobs), ("vps", vps_jobs), ("ext", ext_jobs), ("sei", sei_jobs)):
        for j in t():
            if j.params["trunc"] == 1:
                j.name = pre + "-" + j.name
                js.append(j)
    js += slice_jobs(("types", "rps-inter", "longterm", "inter", "weights", "filters", "entry-dep", "extension", "controls-slice", "controls-pps"), trunc=1, prefix="slice-")
    for j in js:
        j.labels = ("rejects*",)
    return js


def dump_jobs():
    js = []
    pick = (("ptl", ptl_jobs, ("general", "sublayers7-level", "max")), ("hrd", hrd_jobs, ("common-1", "nocommon-1", "max")), ("vui", vui_jobs, ("nohrd", "hrd", "max")), ("sl", sl_jobs, ("one-of-each", "max")),
            ("rps", rps_jobs, ("sps1-deep", "sps3-narrow", "max-sets", "max-inter")), ("pwt", pwt_jobs, ("P-3-420", "B-2-1", "B-1-2-mono", "max")), ("sps", sps_jobs, ("core", "longterm", "ext", "rps", "sublayers", "scaling", "vui", "max-rps")),
            ("pps", pps_jobs, ("core", "tiles", "trunc-ext", "scaling", "max")), ("vps", vps_jobs, ("core", "layers", "hrd1", "hrd2", "hrdsub", "max")), ("ext", ext_jobs, ("sps-range", "sps-ml", "sps-3d", "sps-scc", "pps-ml", "pps-scc", "sps-scc-max", "pps-scc-max", "pps-ml-max")),
            ("sei", sei_jobs, ("user", "uuid", "other", "fixed", "knee", "remap-pre", "remap-post", "max-knee", "max-remap")))
    for pre, t, names in pick:
        for j in t():
            if j.name in names:
                j.name = pre + "-" + j.name
                j.params["dump"] = 1
                j.params["trunc"] = 0
                js.append(j)
    js += slice_jobs(("types", "rps-inter", "longterm", "inter", "weights", "filters", "entry-dep", "extension", "all-dependent", "controls-slice", "controls-pps", "max-longterm", "max-weights", "max-entry", "max-extension"), dump=1, prefix="slice-")
    for j in js:
        j.labels = ("!accepts*", "!rejects*", "!consumed exactly", "!payload accepted", "!payload refused")
    js += layer_dump_jobs(0)
    return js


def layer_dump_jobs(layout):
    # the layers above the syntax structures
    return [G(n, "e_%sdump" % n, must_cover=["parsed"], layout=layout) for n in ("nal", "rtp", "box", "stream")]


def layout_jobs():
    js = dump_jobs()[:-4] + layer_dump_jobs(1)
    for j in js:
        j.params["layout"] = 1
        j.labels = ("layout", "one line*", "template", "parsed")
    return js


# ---------------------------------------------------------------- byte level
def B(name, entry, harness="h_bits.cc", rules=(), **p):
    kw = {k: p.pop(k) for k in ("time", "tier", "must_cover", "note", "samples", "labels", "max_inst") if k in p}
    return Job(name, harness, entry, p, rules, mode="byte", **kw)


def bitread_jobs():
    return [B("read32-narrow", "e_read", max=6, w64=0, lo=1, hi=16, must_cover=["inside", "outside"]),
            B("read32-wide", "e_read", max=7, w64=0, lo=17, hi=34, must_cover=["inside", "outside"]),
            B("read64-wide", "e_read", max=10, w64=1, lo=33, hi=66, must_cover=["inside", "outside"]),
            B("read64-narrow", "e_read", max=6, w64=1, lo=1, hi=32), B("bytes", "e_readbytes", max=6),
            B("huge", "e_huge", steps=1), B("huge2", "e_huge", steps=2, time=300, tier=T),
            B("move", "e_move", max=3, steps=2, must_cover=["seek", "consume"]), B("move3", "e_move", max=2, steps=3, tier=T, time=300),
            # the same behind many other bytes
            B("far32", "e_read", max=5, w64=0, lo=1, hi=33, base=70000), B("far64", "e_read", max=9, w64=1, lo=30, hi=65, base=300), B("far-bytes", "e_readbytes", max=5, base=70000), B("far-move", "e_move", max=2, steps=1, base=300)]


def golomb_jobs():
    return [B("unsigned", "e_ue", max=9, signed=0, must_cover=["accepted", "rejected"]), B("signed", "e_ue", max=9, signed=1, must_cover=["accepted", "rejected"]),
            B("far", "e_ue", max=9, signed=0, base=70000), B("far-signed", "e_ue", max=9, signed=1, base=300)]


def writer_jobs():
    return [B("bits-narrow", "e_write", kind=0, max=5, lo=1, hi=24, must_cover=["written", "refused"]), B("bits-wide", "e_write", kind=0, max=9, lo=25, hi=64, must_cover=["written", "refused"]),
            B("ue", "e_write", kind=1, max=9, must_cover=["written", "refused"]), B("se-6", "e_write", kind=2, max=6, must_cover=["written", "refused"]), B("se-8", "e_write", kind=2, min=7, max=8, must_cover=["written"]), B("se-9", "e_write", kind=2, min=9, max=9),
            B("far", "e_write", kind=0, max=5, lo=1, hi=33, base=70000), B("far-ue", "e_write", kind=1, max=9, base=300),
            B("bytes", "e_write", kind=4, max=6)] + [
            B("nonsym%d" % w, "e_write", kind=3, max=5, w=w) for w in (1, 2, 3, 8, 9, 16, 31, 32)] + [
            B("nonsym%d" % w, "e_write", kind=3, max=5, w=w, tier=T) for w in range(4, 31) if w not in (8, 9, 16)]


def escape_jobs():
    return [B("unescape", "e_unescape", max=11, must_cover=["removed"]), B("roundtrip", "e_roundtrip", max=10, must_cover=["inserted"]),
            B("far", "e_unescape", max=6, base=300), B("far-dense", "e_unescape", max=6, base=300, dense=1), B("farther", "e_unescape", max=5, base=66000, time=200),
            B("unescape14", "e_unescape", max=14, tier=T, time=600), B("roundtrip14", "e_roundtrip", max=14, tier=T, time=600)]


def trailing_jobs():
    return [B("more", "e_more", max=5), B("trailing", "e_trailing", max=5, must_cover=["accepted"]), B("far-more", "e_more", max=3, base=70000), B("far-trailing", "e_trailing", max=3, base=70000)]


F = lambda name, entry, **p: B(name, entry, harness="h_frame.cc", **p)


def annexb_jobs():
    return [F("split", "e_annexb", max=10, must_cover=["one", "several"]), F("far", "e_annexb", max=8, base=300, must_cover=["several"]), F("farther", "e_annexb", max=6, base=66000, must_cover=["several"]), F("many", "e_annexb", max=6, many=300, must_cover=["several"]), F("split13", "e_annexb", min=11, max=13, tier=T, time=600)]


def framed_jobs():
    m = {0: (7, 9), 1: (7, 9), 2: (9, 11), 3: (10, 12), 4: (12, 14), 5: (12, 14), 6: (13, 16), 7: (14, 18), 8: (16, 20)}
    js = [F("explicit", "e_framed", max=14, must_cover=["several"]), F("explicit-far", "e_framed", max=8, base=300, must_cover=["several"]), F("explicit-farther", "e_framed", max=8, base=66000, must_cover=["several"]), F("explicit-many", "e_framed", max=7, many=300, must_cover=["several"]), F("len2-many", "e_nalulen", size=2, max=6, many=300, few=1, must_cover=["several"]), F("len1-many", "e_nalulen", size=1, max=4, many=40, must_cover=["several"]), F("len2-far", "e_nalulen", size=2, max=6, base=300), F("len3-far", "e_nalulen", size=3, max=6, base=66000), F("len4-far", "e_nalulen", size=4, max=7, base=66000)]
    for n, (q, t) in m.items():
        js.append(F("len%d" % n, "e_nalulen", size=n, max=q, must_cover=["one"]))
        js.append(F("len%d-long" % n, "e_nalulen", size=n, min=q + 1, max=t, few=1, must_cover=["one"], tier=T, time=400))
    return js


def header_jobs():
    return [F("header", "e_header", max=4, must_cover=["accepted"]), F("classes", "e_classes"), F("names", "e_names")]


def aud_jobs():
    return [F("aud", "e_aud", max=4, must_cover=["accepted"])]


def checksum_jobs():
    return [F("sum", "e_checksum", max=10), F("far", "e_checksum", max=6, base=300), F("farther", "e_checksum", max=5, base=66000), F("sum13", "e_checksum", min=11, max=13), F("print", "e_checksum", max=5, print=1), F("unaligned", "e_checksum_unaligned", max=6),
            F("sum-long", "e_checksum", min=14, max=24, tier=T, time=600)]


def rtp_jobs():
    return [F("single", "e_rtp", kind=0, max=6, dump=1, must_cover=["accepted", "refused"]), F("fu", "e_rtp", kind=2, max=7, dump=1, must_cover=["accepted", "refused", "start"]),
            F("other", "e_rtp", kind=3, max=5, dump=1, must_cover=["accepted"]), F("ap", "e_rtp", kind=1, max=14, dump=1, must_cover=["accepted", "refused", "several"]),
            F("single-direct", "e_rtp", kind=0, direct=1, max=5), F("fu-direct", "e_rtp", kind=2, direct=1, max=6), F("ap-direct", "e_rtp", kind=1, direct=1, max=10), F("ap-many", "e_rtp", kind=1, max=7, many=300, few=1, dump=1, must_cover=["accepted", "refused"]),
            G("units", "e_rtpunits", packets=2, must_cover=["parsed", "slice"]), G("units-long", "e_rtpunits", packets=1, long=1, must_cover=["parsed"]), B("units-longest", "e_rtpunits", harness="h_stream.cc", rules=["unit|set|1|3"], packets=1, long=65535, must_cover=["parsed"]), G("units3", "e_rtpunits", packets=3, tier=T, time=900),
            F("ap17", "e_rtp", kind=1, min=15, max=17, few=1, tier=T, time=800)]


def hvcc_jobs():
    return [G("units", "e_boxunits", arrays=2, must_cover=["parsed", "slice"]), B("units-longest", "e_boxunits", harness="h_stream.cc", rules=["unit|set|1|3", "units|fix|0"], arrays=1, long=65535, must_cover=["parsed"]), G("units-long", "e_boxunits", arrays=1, long=1, must_cover=["parsed"])] + [F("short", "e_hvcc", max=22), F("many-arrays", "e_hvcc", max=6, many=254, few=1, must_cover=["accepted", "refused"]), F("many-units", "e_hvcc", max=7, many=300, one=1, few=1, must_cover=["accepted", "refused"]), F("fixed", "e_hvcc", min=23, max=23, dump=1, must_cover=["accepted", "refused"])] + [
        F("arrays%d" % n, "e_hvcc", min=n, max=n, few=1, good=1, must_cover=["accepted", "refused"], dump=int(n == 28)) for n in range(24, 38)] + [
        F("arrays%d" % n, "e_hvcc", min=n, max=n, few=1, good=1, tier=T, time=800) for n in (38, 39)]


G = lambda name, entry, **p: B(name, entry, harness="h_stream.cc", **p)


def qp_jobs():
    return [G("stream", "e_qpstream", units=4, zmax=2, must_cover=["qp"]), G("rtp", "e_qprtp", must_cover=["qp"]), G("every-id", "e_everyid", must_cover=["slice"], labels=("*slice QP*",)), G("many", "e_manyunits", n=300, must_cover=["parsed"], labels=("*slice QP*",)), G("stream5", "e_qpstream", units=5, zmax=2, tier=T, time=800)]


def stream_jobs():
    return [G("annexb", "e_stream", units=3, must_cover=["slice"]), G("prefixed", "e_stream", units=3, prefixed=1, must_cover=["slice"]),
            G("many", "e_manyunits", n=300, must_cover=["parsed"]), G("long-unit", "e_manyunits", n=4, big=66000, must_cover=["parsed"]), G("every-id", "e_everyid", must_cover=["slice"]),
            G("annexb4", "e_stream", units=4, tier=T, time=800)]


D = lambda n, e, p=None, rules=(), **k: Job(n, "h_derived.cc", e, p or {}, rules, **k)


def sizes_jobs():
    return [D("aligned", "e_sizes", {"anysize": 0}, must_cover=["sizes"]), D("any", "e_sizes", {"anysize": 1}, must_cover=["sizes"])]


def profile_jobs():
    return [D("tables", "e_profile", must_cover=["profile"]), D("parsed", "e_profile_parsed", {"maxsub": 0}, must_cover=["parsed"], note="all profile_idc and compatibility flags free"),
            D("parsed-sub", "e_profile_parsed", {"maxsub": 1}, ["profile_idc|set|1|2|4|5|9|11|14", "profile_compatibility_flag|fix|0"], must_cover=["parsed"]), D("names", "e_profile_name")]


def sei_jobs():
    S = lambda n, rules=(), bytes=3, ff=0, **k: Job(n, "h_sei.cc", "e_sei", dict({"bytes": bytes, "ff": ff, "trunc": k.pop("trunc", 0), "dump": k.pop("dump", 0)}), rules, **dict({"must_cover": ["accepted"]}, **k))
    typ = lambda *t: ["payload_type_byte|set|" + "|".join(map(str, t))]
    few = mx(num_knee_points_minus1=20, pre_lut_num_val_minus1=1, post_lut_num_val_minus1=2)
    return [
        S("user", typ(4), bytes=20), S("uuid", typ(5), bytes=20), S("other", bytes=20, rules=["payload_type_byte|notset|4|5|137|141|142|144|147|148|149|165"]),
        S("fixed", typ(137, 144, 147, 148, 149, 165)), S("knee", typ(141) + few),
        S("remap-pre", typ(142) + ["post_lut_num_val_minus1|fix|0", "colour_remap_matrix_present_flag|fix|0"] + few),
        S("remap-post", typ(142) + ["pre_lut_num_val_minus1|fix|0"] + few),
        S("max-knee", typ(141) + ["num_knee_points_minus1|set|255|256|998|1500", "knee_function_cancel_flag|fix|0"]), S("max-remap", typ(142) + ["pre_lut_num_val_minus1|set|32|255", "post_lut_num_val_minus1|set|32|255", "colour_remap_input_bit_depth|set|8|17", "colour_remap_output_bit_depth|fix|10", "colour_remap_*_flag|fix|0"]),
        S("long", ["payload_type_byte|set|4|5|6", "payload_size_byte|set|16|250"], ff=1, bytes=520, time=100),
        S("head", ["payload_size_byte|set|0|2|254|255", "payload_type_byte|set|0|3|143|147|255"], ff=2, bytes=2),
        S("trunc", typ(4, 5, 0) + ["payload_size_byte|set|0|1|2|3|16|17|18|254"], bytes=2, trunc=1),
        S("trunc-fixed", typ(137, 141, 142, 144, 147, 148, 149, 165) + mx(num_knee_points_minus1=1, pre_lut_num_val_minus1=1, post_lut_num_val_minus1=0) + ["colour_remap_*put_bit_depth|fix|8"], trunc=1),
        B("longest", "e_seilong", harness="h_stream.cc", n=65540, must_cover=["accepted"]), B("long-size", "e_seilong", harness="h_stream.cc", n=764, must_cover=["accepted"]),
    ]


W = lambda name, entry, **p: B(name, entry, harness="h_tool.cc", **p)


def entry_jobs():
    E = lambda name, what, n, m, **k: B(name, "e_entry", harness="h_entry.cc", what=what, n=n, m=m, must_cover=k.pop("must_cover", ["parsed"]), **k)
    return [E("hrd", 0, 2, 12), E("subhrd", 1, 2, 8), E("vui", 2, 2, 14), E("pps-ml", 3, 3, 8), E("pps-scc", 4, 1, 10), E("pwt", 5, 1, 8), E("ptl", 6, 2, 42), E("profile", 7, 2, 12),
            E("profile-short", 7, 2, 8, must_cover=["refused"]), E("sl", 8, 1, 12), E("sps-3d", 9, 3, 12), E("sps-ml", 10, 1, 2, must_cover=["parsed"]), E("sps-range", 11, 2, 2), E("sps-scc", 12, 2, 10), E("rps", 13, 2, 6),
            E("vps", 14, 1, 0), E("sps", 15, 1, 0), E("pps", 16, 1, 0), E("slice", 17, 1, 1), E("slice-header", 18, 1, 1), E("payload", 19, 1, 1, must_cover=["parsed"]), E("sei", 20, 3, 8), E("header", 21, 2, 0, must_cover=[]), E("nal", 22, 1, 1)]


def length_jobs():
    return [W("annexb", "e_toollen", units=2, prefix=0, must_cover=["frame"]), W("prefixed", "e_toollen", units=2, prefix=2, must_cover=["frame"]),
            W("frames", "e_toollong", n=300, every=1, big=0, must_cover=["frame"]), W("slices", "e_toollong", n=300, every=290, big=0, must_cover=["frame"]), W("big", "e_toollong", n=4, every=2, big=66000, max_inst=300000000, must_cover=["frame"]),
            W("rate-value", "e_toolvalue", max=3, fps=1, must_cover=["value"]), W("rate-wide", "e_toolvalue", digits=10, fps=1, must_cover=["value"])]


def tool_jobs():
    return [W("options", "e_tooldump", opts=2, units=1, prefix=2), W("stream", "e_tooldump", opts=1, units=2, prefix=3, box=1, must_cover=["box", "contents"]), W("any", "e_toolany", max=4, must_cover=["ran"]), W("file", "e_readfile", max=3), W("framing-value", "e_toolvalue", max=2, must_cover=["value"]), W("rate-value", "e_toolvalue", max=3, fps=1, must_cover=["value"]),
            W("framing-wide", "e_toolvalue", digits=10, must_cover=["value"])]


def small_jobs():
    """the small footprint build against the same references"""
    js = []
    for pre, t in (("range", range_jobs), ("trunc", trunc_jobs), ("full", lambda: dump_jobs()[:-4]), ("state", state_jobs), ("tool", tool_jobs)):
        for j in t():
            if pre == "state" and j.name not in ("types", "trunc", "sets-slice") or pre == "tool" and j.name != "any":
                continue
            j.name, j.mode, j.labels, j.must_cover = pre + "-" + j.name, j.mode + "-small", (), ()
            j.params.update(dump=0, layout=0)
            js.append(j)
    return js


def cost_jobs():
    """how much a parse costs: memory and steps against the size of the input"""
    C = lambda name, what, k, r, **kw: B(name, "e_cost", harness="h_cost.cc", what=what, k=k, r=r, must_cover=["slices" if what == 13 else "done"], **kw)
    js = [C("unescape", 0, 3, 3000, how=0), C("find", 0, 4, 2000, how=1), C("find-explicit", 0, 0, 800, how=2, small=4), C("stream-any", 0, 2, 3000, how=3), C("prefixed-any", 0, 0, 600, how=4, lb=2, small=2), C("prefixed-1", 0, 0, 600, how=4, lb=1, small=1)]
    for t in (35, 41, 1, 39, 32, 33, 34):
        js.append(C("units-%d" % t, 1, 1, 3000 if t > 34 else 400, type=t))
    js += [C("units-sum", 1, 2, 3000, type=41, sum=1), C("prefixed", 2, 1, 3000, type=35, lb=2), C("prefixed-4", 2, 1, 3000, type=41, lb=4), C("framed", 3, 1, 3000, type=41, lb=4)]
    js += [C("one-%d" % t, 4, 1, 1500 if t != 34 else 24, type=t) for t in (1, 19, 32, 33, 34, 35, 39, 41)]
    js += [C("tail-%d" % t, 5, 1, 1000, type=t) for t in (32, 33, 34)]
    js += [C("unescape-end", 0, 1, 4000, how=0, k2=3, r2=1), C("unescape-ends", 0, 3, 1500, how=0, k2=1, r2=1500), C("find-end", 0, 1, 4000, how=1, k2=4, r2=1), C("find-ends", 0, 3, 1500, how=1, k2=1, r2=4000), C("one-end-1", 4, 1, 2000, type=41, k2=1, r2=2000),
           C("unit-tail", 1, 1, 100, type=35, k2=1, r2=6000), C("stream-tails", 0, 2, 2000, how=3, k2=2, r2=2000)]
    js += [C("tails-%d" % t, 5, 1, 600, type=t, k2=1, r2=1200) for t in (32, 33, 34)] + [C("slice-tails", 6, 1, 1500, type=1, k2=1, r2=1500)]
    js += [C("large-sps-%d" % t, 13, 0, 1500, type=t) for t in (1, 20)]
    js += [C("slice-%d" % t, 6, 1, 1500, type=t) for t in (1, 20)] + [C("slice-sum", 6, 1, 1500, type=1, sum=1)]
    js += [C("sei-run", 7, 2, 1000, type=39)] + [C("sei-%d" % m, 8, 1, 1000, type=39, sei=m) for m in (4, 5, 137, 200)]
    js += [C("rtp-ap", 9, 1, 3000, type=35), C("rtp-claims", 14, 3, 1), C("hvcc-arrays", 10, 1, 200, type=35), C("hvcc-units", 11, 1, 3000, type=41), C("hvcc-claims", 12, 0, 1)]
    for j in js:
        if j.name.startswith(("one-", "tail", "slice", "sei", "unescape", "find")):
            j.params["heap"] = 64
    for pre, t, names in COSTLY:
        for j in t():
            if j.name in names:
                j.name = pre + "-" + j.name
                j.params.update(effort=1, dump=0, layout=0)
                j.labels, j.must_cover = (), ()
                js.append(j)
    js += [j for j in robust_jobs() if j.name.startswith("free-")]
    for j in js:
        j.params["effort"], j.errors_only, j.cost = 1, True, True
    return js


def pre(rules):
    return ["pre/" + r for r in rules]


LAYERS = ("unit", "stream", "prefixed", "rtp", "box", "rtp-ap", "rtp-fu")


def twice_jobs(bytes=True):
    """a structure parsed after another one of its kind: as if it were the first"""
    js = []
    for name, table, full, after in TWICE:
        t = {j.name: j for j in table()}
        for k in after:
            a, j = t[full.replace("!", "")], next(x for x in table() if x.name == k)
            if "!" in full:
                a.params["trunc"] = 1  # the first one is cut off
            j.rules = pre((["@eof|free", "@left|fix|0"] if "!" in full else []) + PREFEW.get(name + "-" + full, []) + PREFEW.get(name, []) + a.rules + ([] if full.startswith("trunc") else ["*|fix|1"])) + j.rules
            j.params.update({"pre/" + n: v for n, v in a.params.items()})
            j.params["pre"] = 1
            j.name, j.labels, j.must_cover = "%s-%s-then-%s" % (name, full.replace("!", "cut-"), k), (), ("once before",)
            js.append(j)
    if bytes:
        T2 = lambda mk, n, e, first, rules, **then: js.append(mk("again-" + n, e, rules=pre(rules), must_cover=["once before"], **dict({"pre/" + k: v for k, v in first.items()}, **dict(then, pre=1))))
        T2(B, "unescape", "e_unescape", dict(base=300, dense=1), ["len|fix|4", "byte|fix|3"], max=8, dense=0)
        T2(F, "annexb", "e_annexb", dict(many=300), ["len|fix|4", "byte|fix|0"], max=8, many=0)
        T2(F, "framed", "e_framed", dict(many=300), ["len|fix|5", "byte|fix|0"], max=10, many=0)
        T2(F, "prefixed", "e_nalulen", dict(many=300), ["len|fix|5", "byte|fix|0"], max=7, many=0, size=2, few=1)
        T2(F, "header", "e_header", {}, ["len|fix|3"], max=3)
        T2(F, "aud", "e_aud", {}, ["len|fix|3"], max=3)
        T2(F, "sum", "e_checksum", dict(max=9), ["len|fix|9"], max=7)
        for a in range(3):
            for b in range(3):
                T2(F, "rtp-%d-%d" % (a, b), "e_rtp", dict(kind=a, max=7), ["len|fix|%d" % (7 if a == 1 else 5)], kind=b, max=9 if b == 1 else 5, few=1)
        T2(F, "rtp-many", "e_rtp", dict(many=40, kind=1), ["len|fix|6", "byte|fix|0"], kind=1, max=9, many=0, few=1)
        T2(F, "box-many", "e_hvcc", dict(many=200, good=0, min=0, max=6), ["len|fix|6", "byte|fix|0"], min=26, max=29, many=0, few=1, good=1)
        T2(F, "box-cut", "e_hvcc", dict(min=26, max=32), ["len|fix|6"], min=26, max=32, few=1, good=1)
        T2(G, "stream", "e_stream", dict(units=3), ["kind|set|2|3|5", "leading*|fix|0", "checksum|fix|1", "id|fix|0"], units=2)
        T2(G, "stream-prefixed", "e_stream", dict(units=3), ["kind|set|2|5|1", "checksum|fix|1", "id|fix|0"], units=2, prefixed=1)
        T2(G, "qp", "e_qpstream", dict(units=2), ["prefix|fix|2"], units=2, zmax=2)
        T2(G, "rtp-units", "e_rtpunits", {}, ["unit|set|1|2|4", "id|fix|0"], packets=1)
        T2(G, "box-units", "e_boxunits", {}, ["unit|set|1|2", "id|fix|0"], arrays=1)
        js += [G("two-" + n, "e_two", layer=k, must_cover=["parsed", "two"]) for k, n in enumerate(LAYERS)]
    return js


def kept_jobs():
    js = []
    for j in twice_jobs(False):
        if "-cut-" in j.name or "-trunc-f" in j.name.split("-then-")[0] or "sei-trunc-" in j.name:
            continue
        j.params["keep"] = 1
        j.labels, j.must_cover = ("result*",), ("kept",)
        js.append(j)
    return js + [G("rich", "e_rich", must_cover=["rich"])] + [G(n, "e_kept", layer=k, must_cover=["parsed", "sets", "another"]) for k, n in enumerate(LAYERS)]


def state_jobs():
    small = ["profile_space|fix|0"] + PTLFIX + ["%s|fix|%d" % kv for kv in SPSB.items()] + fix(
        sps_temporal_id_nesting_flag=0, vps_max_sub_layers_minus1=0, vps_num_layer_sets_minus1=0, vps_timing_info_present_flag=0, vps_extension_flag=0,
        pps_scaling_list_data_present_flag=0, tiles_enabled_flag=0, deblocking_filter_control_present_flag=0, cu_qp_delta_enabled_flag=0, pps_extension_present_flag=0,
        chroma_format_idc=1, bit_depth_luma_minus8=0, bit_depth_chroma_minus8=0, pic_width_in_luma_samples=64, pic_height_in_luma_samples=64)
    small += ["log2_*|fix|0", "payload_type_byte|set|4|137|144|200", "payload_size_byte|max|3"]
    sl = ["sps.pic_width_in_luma_samples|fix|72", "sps.pic_height_in_luma_samples|fix|40", "sps.chroma_format_idc|max|1", "sps.log2_diff*|fix|1", "sps.*|fix|0", "pps.output_flag_present_flag|free", "pps.*|fix|0", "slice_type|fix|2", "short_term_ref_pic_set_sps_flag|fix|1"]
    kinds = {"slice": list(range(0, 10)) + list(range(16, 22)), "sets": [32, 33, 34], "others": [35, 39, 40, 41, 10, 22, 48, 63, 36, 38]}
    one = ["stored_*|free"]
    S = lambda n, t1, t2=None, steps=1, extra=(), trunc=0, **k: Job(n, "h_state.cc", "e_state", {"steps": steps, "trunc": trunc, "bytes": 3, "slfree": 0, "slone": 0},
        (["nal_unit_type|set|" + "|".join(map(str, t1))] if t1 else []) + (["nal_unit_type2|set|" + "|".join(map(str, t2))] if t2 else []) + list(extra) + small + sl, **k)
    return [
        S("types", None, must_cover=["stored", "slice", "refused"]),
        S("trunc", [1, 19, 32, 33, 34, 35, 39], trunc=1),
        S("sets-sets", [32, 33, 34], [32, 33, 34], steps=2, must_cover=["stored"]),
        S("sets-others", [32, 33, 34], [35, 39, 40, 41, 22, 63], steps=2, must_cover=["stored"], extra=["slice_qp_delta|fix|0"]),
        S("sets-slice", [32, 33, 34], [1, 19], steps=2, must_cover=["stored"], extra=fix(slice_qp_delta=0, num_extra_slice_header_bits=0, dependent_slice_segments_enabled_flag=0, cabac_init_present_flag=0, weighted_pred_flag=0,
          weighted_bipred_flag=0, transquant_bypass_enabled_flag=0, entropy_coding_sync_enabled_flag=0, slice_segment_header_extension_present_flag=0, pps_slice_chroma_qp_offsets_present_flag=0, sps_temporal_mvp_enabled_flag=0, sample_adaptive_offset_enabled_flag=0)),
        S("others-sets", [1, 21, 35, 39, 41], [32, 33, 34], steps=2, must_cover=["stored"]),
        G("every-id", "e_everyid", must_cover=["slice"], labels=("stored*", "number of NAL units")),
        Job("access", "h_state.cc", "e_access", must_cover=["present", "absent"]),
        S("three", [32, 33, 34], [32, 33, 34], steps=3, tier=T, time=700),
    ]


def robust_jobs():
    """every other job, looking only for misbehaviour, plus streams that go on
    without constraint where the reference of the standard's syntax stops"""
    js = []
    for pre, t in sorted(TABLES.items()):
        if pre in ("P09", "P10", "P14", "P31", "P35", "P36", "P38", "P39", "P40", "P41"):
            continue
        for j in t():
            if pre == "P37" and j.name != "any":
                continue
            j.name = pre + "-" + j.name
            if j.mode == "elem" and j.harness not in ("h_derived.cc", "h_state.cc") and j.params["trunc"] == 0:
                j.params["dump"] = 1
            js.append(j)
    js += slice_jobs(("types", "rps-inter", "longterm", "inter", "weights", "filters", "entry-dep", "extension"), trunc=1, prefix="trunc-slice-")
    FR = lambda n, what, k, rules=(), **kw: js.append(Job("free-" + n, "h_free.cc", "e_free", dict({"what": what, "n": k}, **kw.pop("params", {})), rules, **dict({"must_cover": ["parsed", "refused"]}, **kw)))
    FR("ptl", 0, 12, ["maxNumSubLayersMinus1|max|1", "free_b2|fix|0", "free_b5|set|1|2|4|5|9|11|0"])
    FR("hrd", 1, 16, ["maxNumSubLayersMinus1|max|2"])
    FR("subhrd", 2, 14)
    FR("vui", 3, 18)
    FR("sl", 4, 52, ["free_b1|fix|0"]); FR("sl-coefs", 4, 18, must_cover=[])
    FR("pwt", 5, 12)
    FR("sps-range", 6, 12); FR("sps-ml", 7, 4); FR("sps-3d", 8, 22); FR("sps-scc", 9, 12, ["bdl|max|8", "bdc|max|8"])
    FR("pps-ml", 10, 16); FR("pps-scc", 11, 13)
    FR("rps0", 13, 12, params={"sets": 0}); FR("rps1", 13, 12, params={"sets": 1}); FR("rps2", 13, 11, params={"sets": 2})
    FR("pps-start", 12, 29, must_cover=["refused"])
    FP = lambda n, e, rules, free, p=None, **k: js.append(Job("open-" + n, "h_ps.cc", e, dict(SL0, free=free, **(p or {})), rules, must_cover=["free"], **k))
    pb = fix(pps_scaling_list_data_present_flag=0, tiles_enabled_flag=0, deblocking_filter_control_present_flag=0, cu_qp_delta_enabled_flag=0, pps_extension_present_flag=1)
    FP("pps-range", "e_pps", pb + fix(pps_range_extension_flag=1), 10)
    FP("pps-3d", "e_pps", pb + fix(pps_range_extension_flag=0, pps_3d_extension_flag=1) + mx(num_ref_loc_offsets=4), 9)
    FP("pps-ext4", "e_pps", pb + fix(pps_range_extension_flag=0, pps_3d_extension_flag=0, pps_multilayer_extension_flag=0) + mx(pps_num_palette_predictor_initializer=20), 9)
    FP("pps-tiles", "e_pps", fix(pps_scaling_list_data_present_flag=0, deblocking_filter_control_present_flag=0, cu_qp_delta_enabled_flag=0, pps_extension_present_flag=0), 12)
    FP("sps-ext", "e_sps", spsr(sps_extension_present_flag=None, extra=["pic_*|fix|64", "log2*|fix|0", "bit_depth*|fix|0", "chroma_format_idc|fix|1"]), 8)
    FP("vps-sets", "e_vps", PTLFIX + fix(vps_max_sub_layers_minus1=0) + ["vps_max_layer_id|set|0|62", "vps_num_layer_sets_minus1|range|4|2000"], 10)
    FS = lambda n, rules, free, p=None: js.append(Job("open-slice-" + n, "h_slice.cc", "e_slice", dict({"rps": 0, "free": free, "wild": 1}, **(p or {})), slr(rules), must_cover=["free"]))
    FS("lists", ["slice_type|max|2", "pps.lists_modification_present_flag|fix|1"] + free("pps.num_ref_idx*", "pps.weighted*"), 10)
    FS("weights", ["slice_type|set|0|1", "sps.chroma_format_idc|set|0|1"] + free("pps.num_ref_idx*", "pps.weighted*"), 12)
    FS("longterm", free("sps.long_term_ref_pics_present_flag", "sps.num_long_term_ref_pics_sps"), 12)
    FS("entry", ["nut|fix|20", "sps.log2_min_luma*|fix|0"] + free("num_entry_point_offsets", "offset_len_minus1", "pps.tiles_enabled_flag", "pps.entropy*", "pps.num_tile*"), 4)
    FS("ext", free("pps.slice_segment_header_extension_present_flag"), 8)
    for j in js:
        j.errors_only = True
        j.time = max(j.time, 120)
        if j.name == "P24-address":
            j.rules = ["sps.pic_height*|set|8|40"] + j.rules
        if j.name.startswith(("open-", "free-")):
            j.params.setdefault("dump", 0)
    return js


TABLES = {
    "P09": robust_jobs,
    "P08": state_jobs,
    "P25": sei_jobs,
    "P13": sizes_jobs, "P19": profile_jobs,
    "P11": vps_jobs, "P12": sps_jobs, "P15": pps_jobs, "P16": vui_jobs, "P17": hrd_jobs, "P18": ptl_jobs,
    "P20": rps_jobs, "P21": sl_jobs, "P22": pwt_jobs, "P23": slice_jobs, "P24": geom_jobs, "P26": ext_jobs,
    "P10": trunc_jobs, "P14": range_jobs, "P31": dump_jobs, "P35": layout_jobs,
    "P01": bitread_jobs, "P02": golomb_jobs, "P03": writer_jobs, "P04": escape_jobs, "P32": trailing_jobs,
    "P05": annexb_jobs, "P06": framed_jobs, "P07": header_jobs, "P33": aud_jobs, "P29": checksum_jobs, "P27": rtp_jobs, "P28": hvcc_jobs, "P30": qp_jobs, "P34": stream_jobs,
    "P36": length_jobs, "P37": tool_jobs, "P38": entry_jobs, "P39": small_jobs, "P40": cost_jobs, "P41": twice_jobs, "P42": kept_jobs,
}

PREFEW = {"ptl": ["*profile_idc|fix|1", "*profile_compatibility_flag|fix|0"], "rps": ["delta_idx_minus1|fix|0", "num_negative_pics|fix|8", "num_positive_pics|fix|7", "abs_delta_rps_minus1|fix|14"],
          "sei": ["num_knee_points_minus1|fix|256", "p??_lut_num_val_minus1|fix|32", "colour_remap_input_bit_depth|fix|17", "post_lut_num_val_minus1|fix|32", "payload_type_byte|set|4|5|141|142|200", "payload_size_byte|fix|16"], "sps": PTLFIX, "vps": PTLFIX, "slice": ["nut|fix|1", "slice_type|set|0|2"], "ext": ["colour_mapping_enabled_flag|fix|0"],
          "slice-all-dependent": ["first_slice_segment_in_pic_flag|fix|0", "dependent_slice_segment_flag|fix|1", "num_*|fix|1"], "sei-trunc-fixed": ["@left|fix|0", "*_cancel_flag|fix|0", "payload_type_byte|set|137|141|147", "payload_size_byte|fix|16"], "sei-trunc": ["@left|fix|0", "payload_type_byte|set|4|5|200", "payload_size_byte|fix|3"], "slice-!all-on": ["slice_type|fix|0"]}
# (structure, its jobs, what comes first, what comes then)
TWICE = (("ptl", ptl_jobs, "max", ("sublayers7-level", "sublayers7-profile", "trunc")), ("hrd", hrd_jobs, "max", ("common-0", "nocommon-1", "common-1", "trunc-1")), ("vui", vui_jobs, "max", ("nohrd", "hrd", "trunc")),
         ("sl", sl_jobs, "max", ("one-of-each", "none", "alternate", "trunc")), ("rps", rps_jobs, "max-inter", ("sps1-slice", "sps1-deep", "trunc")), ("pwt", pwt_jobs, "max", ("P-3-420", "P-1-mono", "B-1-1", "max-none", "trunc")), ("pwt", pwt_jobs, "max-none", ("B-2-1",)),
         ("sps", sps_jobs, "max-sub", ("core", "controls", "sublayers")), ("sps", sps_jobs, "max-rps", ("core", "rps", "longterm")), ("pps", pps_jobs, "max", ("core", "controls", "ext", "tiles")), ("vps", vps_jobs, "max", ("core", "controls", "layers")),
         ("slice", slice_jobs, "max-weights", ("controls-slice", "types", "inter", "weights")), ("slice", slice_jobs, "all-on", ("controls-slice", "controls-pps", "types", "extension")), ("slice", slice_jobs, "all-dependent", ("types",)),
         ("sei", sei_jobs, "max-knee", ("user", "fixed", "knee")), ("sei", sei_jobs, "max-remap", ("other", "remap-pre", "remap-post", "uuid")), ("sei", sei_jobs, "long", ("user", "other", "trunc")),
         ("ext", ext_jobs, "pps-ml-max", ("pps-ml",)), ("ext", ext_jobs, "pps-scc-max", ("pps-scc",)), ("ext", ext_jobs, "sps-scc-max", ("sps-scc",)),
         # the first one ends early
         ("ptl", ptl_jobs, "!max", ("sublayers7-level",)), ("hrd", hrd_jobs, "!common-1", ("common-0", "nocommon-1")), ("vui", vui_jobs, "!nohrd", ("trunc",)), ("rps", rps_jobs, "!max-inter", ("trunc",)), ("pwt", pwt_jobs, "!max", ("P-3-420", "P-1-mono", "B-1-1")),
         ("sps", sps_jobs, "!max-rps", ("sublayers",)), ("pps", pps_jobs, "!core", ("core", "tiles")), ("vps", vps_jobs, "!core", ("core",)), ("slice", slice_jobs, "!all-on", ("inter", "rps")), ("sei", sei_jobs, "trunc-fixed", ("fixed",)), ("sei", sei_jobs, "trunc", ("user", "fixed")))
COSTLY = (("vps", vps_jobs, ("max", "controls", "many-sets")), ("sps", sps_jobs, ("core", "max-rps", "max-sub", "controls", "controls-hrd")), ("pps", pps_jobs, ("max", "controls", "core")), ("vui", vui_jobs, ("max",)), ("hrd", hrd_jobs, ("max",)),
          ("ptl", ptl_jobs, ("max",)), ("rps", rps_jobs, ("max-sets", "max-inter")), ("sl", sl_jobs, ("none", "max")), ("pwt", pwt_jobs, ("max",)), ("slice", slice_jobs, ("all-on", "max-weights", "max-extension")), ("slice", geom_jobs, ("max-entry",)),
          ("sei", sei_jobs, ("max-knee", "max-remap", "long")), ("ext", ext_jobs, ("pps-ml-max", "pps-scc-max")))
ELEM_ASSUME = "the bit reader behaves as P01/P02 establish (its calls are served element by element); libstdc++ headers are executed as compiled, its out-of-line parts and libc are modelled; memory allocation succeeds"
BYTE_ASSUME = "libstdc++ headers are executed as compiled, its out-of-line parts and libc are modelled; memory allocation succeeds"


def jobs(prop, tier):
    if prop not in TABLES:
        return []
    return [j for j in TABLES[prop]() if (tier[0] in j.tier)]


def assumptions(prop):
    modes = {j.mode.split("-")[0] for j in TABLES[prop]()}
    return ([ELEM_ASSUME] if "elem" in modes else []) + ([BYTE_ASSUME] if "byte" in modes else [])
NOT_APPLICABLE = {}
