#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (kept in step with lib/jobs.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import jobs

P = []


def p(id, title, statement, over, qtext, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": observe} if observe else {})}, note=note))


I = ["inputs"]
H = ["inputs", "histories"]

p("P01", "Fixed-width bit reads are exact, bounded and atomic",
  "Reading or peeking n bits from a bit buffer returns exactly the next n bits, most significant first, and a read advances the position by exactly n while a peek leaves it alone. A request that exceeds the remaining bits (or the width of the result) fails without moving the position, and no byte outside the buffer is ever accessed. Position queries, seeks and skips agree with that position, and the remaining bit count is always the total minus the position.",
  I, "every buffer content and length up to the bound, every start position, every requested width, every short sequence of operations",
  "the unit tests of the parsers read a few fixed streams at a few offsets; they reach neither every (offset, width, length) combination nor reads ending exactly at the end of the buffer",
  ["src/rtc_common.cc", "include/rtc_common.h"], [("bit reads and position", "src/rtc_common.cc")],
  "buffers of up to 10 bytes, all contents, all start offsets and widths; sequences of up to 3 operations")
p("P02", "Exp-Golomb codes decode to the value the standard assigns",
  "An unsigned exp-Golomb read returns the value of the code word at the current position and consumes exactly that code word; a signed read returns the value the standard maps that code number to. Codes longer than 63 bits (values above 2^32-2), or that are cut off by the end of the data, are refused without moving the position.",
  I, "every bit pattern from every bit offset, including code words of up to 63 bits and buffers that end inside the code word",
  "tests only decode the small values that occur in their streams; large prefixes, truncation inside the code and the extreme signed values never occur",
  ["src/rtc_common.cc"], [("exp-Golomb decoding", "src/rtc_common.cc")],
  "buffers of up to 9 bytes, all contents and offsets")
p("P03", "What the bit writer writes, the bit reader reads back",
  "A value written as fixed-width bits, exp-Golomb, signed exp-Golomb or non-symmetric code is read back unchanged by the corresponding read from the same position, using the same number of bits. Writing changes no bit outside the written range, and a value that does not fit in the remaining space is refused and leaves the buffer and the position unchanged.",
  I, "every value of every encoding, every start offset, every previous buffer content",
  "the existing tests never use the writer at all", ["src/rtc_common.cc", "include/rtc_common.h"], [("bit writer", "src/rtc_common.cc")],
  "buffers of up to 9 bytes, all values and offsets; non-symmetric ranges up to 2^31")
p("P04", "Emulation prevention removal drops exactly the inserted bytes",
  "Converting a NAL unit payload to its raw form removes exactly the 0x03 bytes that follow two zero bytes (as the standard's syntax reads them) and keeps every other byte in order. Hence every payload that was produced by inserting emulation prevention bytes is recovered exactly.",
  I, "every byte string up to the bound, including those with 0x03 at the very start or end and runs of zero bytes",
  "tests check two or three strings", ["src/h265_common.cc"], [("emulation prevention removal", "src/h265_common.cc")],
  "all payloads of up to 11 bytes (14 thorough); round trips of up to 10 bytes (14 thorough)")
p("P05", "Annex B splitting returns exactly the NAL units between start codes",
  "Splitting a byte stream at its start codes yields, in order, exactly the byte ranges between consecutive start codes, with three- and four-byte start codes both recognised and the three or four bytes of each start code excluded from the NAL units (a start code at the very end of the data starts no NAL unit). All ranges lie inside the buffer, do not overlap, and nothing outside the buffer is read.",
  I, "every byte stream up to the bound", "tests split two well-formed streams", ["src/h265_bitstream_parser.cc"], [("start code scan", "src/h265_bitstream_parser.cc")],
  "all streams of up to 10 bytes (13 thorough)")
p("P06", "Length-prefixed framing returns exactly the framed NAL units",
  "Parsing a length-prefixed stream yields, in order, exactly the NAL units whose big-endian length fields frame them, for every supported length field size. A length that runs past the end of the data is refused, stream positions recorded for each unit are those in the stream, and nothing outside the buffer is read.",
  I, "every stream up to the bound, every length field size and value", "tests parse one stream with one length size", ["src/h265_bitstream_parser.cc"], [("length-prefixed parse", "src/h265_bitstream_parser.cc")],
  "streams of up to 14 bytes given the units; length fields of 0..8 bytes with streams of up to 7..16 bytes")
p("P07", "NAL unit headers are decoded and classified as the standard defines",
  "The two header bytes are decoded into forbidden bit, type, layer id and temporal id exactly; a header cut off by the end of data, or one the parser is documented to refuse, is refused. The predicates that classify a NAL unit type (segment data, IRAP, parameter sets and so on) and the printed type name agree with the standard's type table for all 64 types.",
  I, "all 65536 headers, every truncation, all 64 types", "tests look at a handful of types", ["src/h265_nal_unit_header_parser.cc", "src/h265_common.cc"], [("header parse", "src/h265_nal_unit_header_parser.cc"), ("type predicates", "src/h265_common.cc")],
  "complete: all header values and types")
p("P08", "NAL units update the parsing state only by the set they carry",
  "Parsing a NAL unit hands its payload to the parser its type selects, and to no other. A successfully parsed VPS, SPS or PPS replaces the stored one of its own id and leaves every other stored set untouched; a refused one, or any other NAL unit type, leaves all stored parameter sets as they were.",
  H, "every NAL unit type and id, from any previously stored sets", "tests run one or two well-formed streams in one order", ["src/h265_nal_unit_payload_parser.cc", "src/h265_nal_unit_parser.cc", "src/h265_bitstream_parser_state.cc"],
  [("payload dispatch", "src/h265_nal_unit_payload_parser.cc")], "all 64 types, arbitrary set ids; histories of two NAL units (three thorough); a full state, every set sent again with a unit of every other type in between")
p("P09", "No input makes the parser misbehave",
  "Whatever bytes are parsed, with whatever stored parameter sets, parsing and dumping terminate without reading or writing outside their objects, without undefined arithmetic, uncaught exceptions or failed internal assertions. Malformed content is reported as a refused parse.",
  H, "every element value and truncation point, for each syntax structure and framing layer", "fuzzers sample this space, the unit tests hardly touch it", ["src", "include"], [("all parse and dump functions", "src")],
  "every job of the other properties, plus structures continued with up to 4..52 unconstrained elements")
p("P10", "Truncated input is never accepted",
  "A parameter set, slice header, SEI, VUI, HRD or other syntax structure whose data ends before the last element the standard requires is refused, wherever the cut falls. It is never reported as successfully parsed with made-up values.",
  I, "every structure shape within the bound, every cut position", "tests contain hardly any truncated stream", ["src"], [("per-element read checks", "src")],
  "the truncation variants of every structure's model")
p("P11", "Video parameter sets decode to the values in the bitstream",
  "A VPS is accepted exactly when it satisfies the syntax and the limits the standard and this parser state, consumes exactly its bits, and every reported field has the coded value (or the standard's inferred value when absent), including per-sub-layer arrays, layer sets and HRD parameters.",
  I, "every value of every element, every combination of optional parts within the bound", "tests decode two recorded sets", ["src/h265_vps_parser.cc"], [("VPS parse", "src/h265_vps_parser.cc")],
  "up to 3 layer sets, 2 HRD structures, all sub-layer counts without timing info")
p("P12", "Sequence parameter sets decode to the values in the bitstream",
  "An SPS within the supported limits is accepted, consumes exactly its bits, and every reported field has the coded value or, when absent, the value the standard infers. This includes per-sub-layer arrays, scaling lists, reference picture sets, long-term pictures, VUI and all extensions.",
  I, "every value of every element, every combination of optional parts within the bound", "tests decode a few recorded sets in which most optional parts are absent", ["src/h265_sps_parser.cc"], [("SPS parse", "src/h265_sps_parser.cc")],
  "optional parts are freed in groups, with up to 2 reference picture sets, 32 long-term pictures, 4 sub-layers")
p("P13", "Picture sizes derived from an SPS follow the standard's equations",
  "The derived chroma sub-sampling factors, minimum coding block and CTB sizes, picture sizes in minimum coding blocks and CTBs, and the cropped resolution equal what the standard's equations give for the decoded SPS.",
  I, "every accepted SPS", "tests check one or two resolutions", ["src/h265_sps_parser.cc"], [("derived sizes", "src/h265_sps_parser.cc")], "all supported picture sizes (1..16888) and block sizes")
p("P14", "Out-of-range parameter set elements are refused",
  "An SPS or VPS in which an element lies outside the range the standard (or the parser's stated limit) allows - ids, chroma format, picture size, bit depth, POC length, block sizes, conformance window, number of reference sets - is refused, and one on the boundary of every range is accepted.",
  I, "every value of each limited element, the others arbitrary", "tests hold a few in-range values only", ["src/h265_sps_parser.cc", "src/h265_vps_parser.cc"], [("range checks", "src/h265_sps_parser.cc")],
  "all values of all limited elements with optional parts off")
p("P15", "Picture parameter sets decode to the values in the bitstream",
  "A PPS is accepted, consumes exactly its bits, and every reported field has the coded value or, when absent, the value the standard infers, including tile columns and rows, deblocking control, scaling lists and the multilayer and screen content extensions.",
  I, "every value of every element, every combination of optional parts within the bound", "tests decode a few recorded sets, most without tiles or extensions", ["src/h265_pps_parser.cc"], [("PPS parse", "src/h265_pps_parser.cc")],
  "up to 4 explicit tile columns and rows; up to 1 reference offset and 1 palette entry")
p("P16", "Video usability information decodes to the values in the bitstream",
  "VUI parameters are accepted exactly when their elements satisfy the stated limits, consume exactly their bits, and every reported field has the coded or inferred value, whatever combination of optional parts is present.",
  I, "every value of every element and every combination of optional parts", "tests decode two recorded combinations", ["src/h265_vui_parameters_parser.cc"], [("VUI parse", "src/h265_vui_parameters_parser.cc")], "complete except the number of CPBs inside nested HRD parameters")
p("P17", "HRD parameters decode to the values in the bitstream",
  "HRD and sub-layer HRD parameters consume exactly their bits, and every reported field of every sub-layer and CPB has the coded or inferred value, with and without common information and sub-picture parameters.",
  I, "every value of every element, sub-layer counts and CPB counts within the bound", "tests decode two recorded structures", ["src/h265_hrd_parameters_parser.cc", "src/h265_sub_layer_hrd_parameters_parser.cc"], [("HRD parse", "src/h265_hrd_parameters_parser.cc")], "up to 7 sub-layers and 32 CPBs (not both)")
p("P18", "Profile, tier and level decode to the values in the bitstream",
  "The profile_tier_level structure consumes exactly its bits whatever the profile, and every general and sub-layer field has the coded value, with the constraint flags read from the positions the profile assigns to them.",
  I, "every profile_idc, every combination of the 32 compatibility flags, every sub-layer presence pattern within the bound", "tests decode three recorded structures", ["src/h265_profile_tier_level_parser.cc"], [("PTL parse", "src/h265_profile_tier_level_parser.cc")], "general part complete; up to 7 sub-layers")
p("P19", "The reported profile is the one the standard's tables assign",
  "The profile reported for a decoded profile_tier_level is the one whose profile number and constraint flags match the standard's tables (the general class of its profile number when no row matches), and unspecified for an unknown profile number or a non-zero profile space. The printed name is the name of that profile.",
  I, "every profile number and every combination of constraint flags", "tests check a handful of combinations", ["src/h265_profile_tier_level_parser.cc"], [("profile classification", "src/h265_profile_tier_level_parser.cc")], "complete: all profile_idc values and flag combinations")
p("P20", "Short-term reference picture sets decode and derive correctly",
  "A short-term reference picture set, coded explicitly or predicted from an earlier one, is accepted exactly when it is valid, consumes exactly its bits, and its fields and derived picture lists (counts, deltas and used flags) equal what the standard's derivation gives.",
  I, "every value of every element, sets in parameter sets and in slice headers, prediction chains within the bound", "tests hold a few recorded sets, hardly any predicted", ["src/h265_st_ref_pic_set_parser.cc"], [("RPS parse and derivation", "src/h265_st_ref_pic_set_parser.cc")],
  "up to 3 sets with up to 2 pictures per list, and single explicit sets of up to 16 pictures")
p("P21", "Scaling lists decode to the values in the bitstream",
  "Scaling list data consumes exactly its bits, coefficients outside the standard's range are refused, and every reported prediction mode, reference delta, DC and coefficient delta is the coded one for its size and matrix.",
  I, "every value of every element, with coded lists at chosen matrices", "tests decode one recorded structure", ["src/h265_scaling_list_data_parser.cc"], [("scaling list parse", "src/h265_scaling_list_data_parser.cc")], "each of the 24 lists coded in some job; not all at once")
p("P22", "Prediction weight tables decode to the values in the bitstream",
  "A weight table consumes exactly its bits and every weight and offset of both lists is the coded one, for monochrome and chroma formats and for P and B slices.",
  I, "every value of every element, list lengths within the bound", "tests decode one P-slice table", ["src/h265_pred_weight_table_parser.cc"], [("weight table parse", "src/h265_pred_weight_table_parser.cc")], "up to 5 references in list 0, 2 in list 1; 15 in monochrome")
p("P23", "Slice headers decode to the values in the bitstream",
  "Given the parameter sets in force, a slice segment header is accepted exactly when the sets it names exist and its elements are in range, reads every element with the width and under the conditions those sets imply, and reports the coded or inferred value of each.",
  H, "every NAL unit type, every relevant parameter set field, every element value within the bound", "tests decode a few recorded slices under two parameter sets", ["src/h265_slice_parser.cc"], [("slice header parse", "src/h265_slice_parser.cc")],
  "header parts freed in groups; up to 2 long-term pictures, 4 entry points, 2 weighted references; list modification excluded")
p("P24", "Slice entry points and addresses respect the picture's block structure",
  "The slice address has the width the picture's CTB count implies, and the number of entry points is refused exactly when it exceeds what the picture's CTB rows and tiles allow; each offset is read with the announced width.",
  H, "every picture size and block size, every tile grid and synchronisation mode", "tests use one picture size", ["src/h265_slice_parser.cc"], [("address and entry point limits", "src/h265_slice_parser.cc")], "up to 4 entry points stored; all limits")
p("P25", "SEI messages are framed and decoded as coded",
  "An SEI message's type and size are decoded from their extended byte encoding, user data and payloads of unknown type are exactly the announced bytes, the other payloads read exactly the elements of their syntax, and every reported field has the coded value. A message or payload that exceeds the data is refused.",
  I, "every payload type and size encoding, every payload content within the bound", "tests decode a few recorded messages", ["src/h265_sei_parser.cc"], [("SEI parse", "src/h265_sei_parser.cc")], "the first message of a unit; user data of up to 20 bytes, knee functions of up to 21 points, look-up tables of up to 2 (pre) and 3 (post) entries, up to 2 extension bytes in type and size; messages of 764, 65540 bytes and one more with five unknown bytes")
p("P26", "Parameter set extensions decode to the values in the bitstream",
  "Each SPS extension (range, multilayer, 3D, screen content) and PPS extension (multilayer, screen content) consumes exactly its bits, and every reported field has the coded or inferred value.",
  I, "every value of every element, array lengths within the bound", "tests decode one recorded structure each", ["src/h265_sps_range_extension_parser.cc", "src/h265_sps_3d_extension_parser.cc", "src/h265_sps_scc_extension_parser.cc", "src/h265_sps_multilayer_extension_parser.cc", "src/h265_pps_multilayer_extension_parser.cc", "src/h265_pps_scc_extension_parser.cc"],
  [("extension parsers", "src")], "up to 2 palette entries and 2 reference offsets")
p("P27", "RTP payloads are unpacked into the NAL units they carry",
  "An RTP payload is recognised as single NAL unit, aggregation packet or fragmentation unit by its header type; aggregation yields each NAL unit framed by its size field, fragmentation headers yield the start, end and type bits, and truncated packets are refused.",
  I, "every packet up to the bound", "tests parse one recorded packet of each kind", ["src/h265_rtp_parser.cc", "src/h265_rtp_ap_parser.cc", "src/h265_rtp_fu_parser.cc", "src/h265_rtp_single_parser.cc"], [("RTP parse", "src")], "single units of up to 6 bytes, fragmentation units of 7, aggregation packets of 14 (17 thorough)")
p("P28", "The decoder configuration box decodes to the values it stores",
  "An hvcC box is decoded field by field from its fixed layout, its arrays and NAL units have the announced counts, types, lengths and contents, and a box whose announced contents exceed the data is refused.",
  I, "every box within the bound", "tests parse one recorded box", ["src/h265_configuration_box_parser.cc"], [("hvcC parse", "src/h265_configuration_box_parser.cc")], "boxes of up to 37 bytes (39 thorough), which hold up to 2 arrays")
p("P29", "NAL unit checksums depend on exactly the unit's bytes",
  "The checksum computed for a NAL unit is the documented one's-complement sum of its 32-bit words over exactly the bytes from the current position to the end, is printed as computed, and leaves the reading position where it was.",
  I, "every NAL unit up to the bound", "tests compute one checksum", ["src/h265_utils.cc", "src/h265_common.cc"], [("checksum", "src")], "units of up to 13 bytes (24 thorough), printing up to 5")
p("P30", "The reported slice QP is the one the standard's equation gives",
  "The slice QP reported for a slice equals 26 plus the offsets of its picture parameter set (the one in force when the slice occurs) and of the slice itself, and no value is reported when the slice or the set it refers to is missing.",
  H, "every offset value, every combination of present and missing sets", "tests check one stream", ["src/h265_utils.cc", "src/h265_slice_parser.cc"], [("slice QP", "src/h265_utils.cc")], "complete for the equation; streams of 4 NAL units (5 thorough) for the set in force")
p("P31", "Textual dumps show the decoded values",
  "The dump of a decoded structure shows, under each element's name, the decoded value of that element (every entry, for arrays), and a nested structure exactly when it is present.",
  I, "every decoded structure within the bound", "no test looks at the dump", ["src"], [("fdump functions", "src")], "the dump variants of every structure's model")
p("P32", "End-of-payload detection finds the last payload bit",
  "The test for more payload data answers yes exactly when the position is before the last set bit of the data (asked at or before that bit, in data whose last byte holds it), and leaves the position unchanged; trailing bits are accepted exactly when they are a single one followed by zeros to the byte boundary.",
  I, "every content and position up to the bound", "tests never exercise these directly", ["src/h265_common.cc"], [("more data / trailing bits", "src/h265_common.cc")], "buffers of up to 5 bytes")
p("P33", "Access unit delimiters decode to the coded picture type",
  "An access unit delimiter is accepted exactly when its picture type is present, whatever follows it, and reports the coded picture type.",
  I, "every payload", "tests decode one value", ["src/h265_aud_parser.cc"], [("AUD parse", "src/h265_aud_parser.cc")], "payloads of up to 4 bytes, complete for the byte that matters")
p("P34", "A bitstream parses as its NAL units in order",
  "Parsing a whole stream gives the same NAL units, in the same order and with the same contents, as splitting the stream and parsing each NAL unit in turn with one shared parsing state; recorded offsets and lengths are those of the stream.",
  H, "every stream up to the bound", "tests parse two streams", ["src/h265_bitstream_parser.cc", "src/h265_nal_unit_parser.cc"], [("bitstream parse", "src/h265_bitstream_parser.cc")], "streams of 3 NAL units of chosen shapes (4 thorough), parameter set ids and slice QPs free; streams of 300 slices and with a unit of 66000 bytes")

p("P35", "Textual dumps are well formed",
  "The dump of a parsed structure has balanced braces, in multi-line form puts every entry on a line of its own, indented by its nesting depth, and in one-line form contains no line break but exactly the same entries.",
  I, "every decoded structure within the bound, every indentation option", "no test looks at the layout of a dump", ["src"], [("fdump functions", "src")], "the dump variants of every structure's model")

p("P36", "The length report accounts for every NAL unit and frame",
  "With --dump-length the command line tool writes, after the header line, one line per NAL unit in stream order with its number, the number of its frame, its type and the type's name, its length in bytes and, for every slice segment that was decoded, its first-in-picture flag, address and picture order count bits. A slice segment that starts a new picture closes the frame before it: after the last slice segment of each frame comes one line with the frame's number, the type of its last slice segment and the bit rate, 8 times the bytes of its slice segments times the frame rate.",
  H, "every stream up to the bound, with decodable and undecodable slice segments in any order, every frame rate", "no test runs the tool", ["tools/h265nal.cc"], [("dump_length", "tools/h265nal.cc")],
  "streams of 2 NAL units of 6 kinds after optional parameter sets, both framings; addresses, picture order counts, rate free; 300 frames, a frame of 290 slices, a slice of 66000 bytes", "tools/h265nal.cc")

p("P37", "The command line tool dumps what the library parsed, as its options ask",
  "The tool reads the whole input file (and the configuration box, which comes first), parses it with the framing selected by --nalu-length-bytes (-1 start codes, 0 a single NAL unit, n > 0 length fields), and writes the dump of every NAL unit in order with exactly the additions its options select, the last of contradictory options winning; --add-contents adds the bytes of each NAL unit in hexadecimal, taken from its place in the file. Malformed option values, missing and empty files are refused. No input file makes it misbehave.",
  I, "every option sequence, option value and file up to the bounds", "no test runs the tool", ["tools/h265nal.cc", "src/h265_utils.cc"], [("main, parse_args", "tools/h265nal.cc"), ("ReadFile", "src/h265_utils.cc")],
  "2 option flags in any order; 2 NAL units of 5 kinds with and without a box; files of up to 7 arbitrary bytes; option values of up to 3 arbitrary characters and around the largest int", "tools/h265nal.cc")

p("P38", "Every entry point for the bytes of one structure unescapes and decodes them alike",
  "Parsing a structure from its escaped bytes gives the same acceptance and the same decoded values as parsing it from a bit buffer over its unescaped bytes with the same arguments, for every structure that offers both; a NAL unit gives the same result through its escaped and its unescaped entry point.",
  I, "every structure and argument choice, every content up to the bound", "the tests use one input per entry point", ["src"], [("Parse*(const uint8_t* data, size_t length, ...)", "src")],
  "1 to 3 free bytes before or after template content that needs emulation prevention, all argument choices")

p("P39", "The small footprint build decodes like the normal one",
  "Built with SMALL_FOOTPRINT (no dumps, no messages, no RTP), the library accepts and refuses the same input, decodes the same values, stores the same parameter sets and consumes the same bits as the standard's syntax prescribes.",
  H, "every input up to the bounds, truncated and out of range ones included", "the tests are built with the normal footprint only", ["src", "src/CMakeLists.txt"], [("#ifdef FDUMP_DEFINE, FPRINT_ERRORS, RTP_DEFINE", "src")],
  "the range, truncation and dump variants of every structure's model and the NAL unit models, compiled with the small footprint defines")

p("P40", "Parsing effort stays proportional to the input",
  "Whatever the input contains or announces, a parse allocates at most a fixed amount of memory plus a small fixed multiple of the number of input bytes, and takes at most a fixed number of steps plus a fixed multiple of it. What is announced but not carried is not paid for, nothing is searched, copied or reallocated again for each NAL unit, byte or element, and a large parameter set is not copied by each NAL unit that refers to it.",
  H, "every structure with its counts at any value, with arrays at their largest, and with anything repeated thousands of times", "tests parse short regular streams and measure nothing; quadratic work shows only on long inputs, and oversized allocation only for counts no regular stream has",
  ["src", "src/h265_bitstream_parser.cc", "src/h265_common.cc", "src/h265_rtp_ap_parser.cc", "src/h265_configuration_box_parser.cc", "src/h265_sei_parser.cc"],
  [("splitting and unescaping of streams", "src/h265_bitstream_parser.cc, src/h265_common.cc"), ("loops over coded counts", "src/h265_*_parser.cc")],
  "repeated units of 1 to 4 free bytes (and a second repeated part), up to 18000 bytes; element models with maximal arrays and with unconstrained element values; budgets: 16 KiB plus 64 to 512 bytes of heap per byte, 10000 plus 600 steps per byte")

p("P41", "A parse depends only on its input and the state passed to it",
  "What a parse accepts, refuses and decodes depends on the bytes and arguments given to it and, where one is passed, on the parser state - not on what was parsed before, completely or up to a refusal: a structure with every part absent decodes to its absent or inferred values right after one with every part present, a refused one leaves nothing behind, and a new stream, packet, box or state knows no parameter set, fragment or counter of an earlier one.",
  H, "every pair of a first structure (largest, cut off anywhere, or any small one) and a second one with any content", "tests run each parser once per process state that matters; a leftover shows only when a particular second input omits what a particular first one had",
  ["src"], [("parsers' local and static data, parser state", "src/h265_*_parser.cc, src/h265_common.cc, src/h265_bitstream_parser_state.cc")],
  "two parses in a row: the first the largest of its kind, cut off at any element, or small and symbolic; the second symbolic within the bounds of the structure's own property")

p("P42", "Results stand on their own",
  "What a parse returned keeps its values when the input bytes are overwritten and freed, when more is parsed with the same state (other content for the same identifiers included), when another result is dropped and when the state itself is destroyed; parameter sets stored in a state keep theirs when the result that carried them is dropped. The input is only read.",
  H, "every structure, every combination of a first and a next unit in every framing", "tests look at each result at once and keep input and state alive",
  ["src"], [("ownership of decoded structures", "src/h265_nal_unit_parser.cc, src/h265_nal_unit_payload_parser.cc, src/h265_*_parser.h")],
  "13 kinds of unit (values symbolic) followed by each of the 13, in 7 framings; each structure at its largest followed by a symbolic one of its kind")

TECH = "symbolic execution of the compiled code (LLVM bitcode) with an SMT solver (Z3), bounded; counterexamples replayed natively"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if k != "note"}) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in jobs.TABLES:
            checks.append({"property": q["id"], "quick_cmd": "python3 lib/run.py %s quick" % q["id"], "thorough_cmd": "python3 lib/run.py %s thorough" % q["id"],
                           "technique": TECH, "level": "model_checking",
                           "level_note": "Decides every value within the bounds (%s); beyond them nothing is claimed. Trusts: clang's translation, the engine's LLVM semantics and libc/libstdc++ models (cross-checked by native replay of witnesses), Z3%s." % (
                               q["note"], "" if all(j.mode == "byte" for j in jobs.TABLES[q["id"]]()) else ", and the bit reader's contract (P01, P02, P32)")})
        else:
            na.append({"property": q["id"], "reason": jobs.NOT_APPLICABLE.get(q["id"], "no check registered yet")})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "H265NAL_VERIF", "enable": "no hooks are needed: the checks compile /repo's sources unchanged", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Every check compiles /repo's working tree itself (LLVM bitcode and a sanitizer build). See DESIGN.md for the method and bounds."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
