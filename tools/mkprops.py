#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or ["bytes handed to the sink of Encoder::encode / encode_image"], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)
W="src/writer.rs"; E="src/encoder.rs"; H="src/huffman.rs"; Q="src/quantization.rs"; I="src/image_buffer.rs"; D="src/fdct.rs"; A="src/avx2/fdct.rs"; Y="src/avx2/ycbcr.rs"

p("C01","Every successful encode is one well-formed JPEG marker stream",
  "When encoding succeeds, the output is a single JPEG (T.81 Annex B / JFIF) marker stream: SOI, a JFIF APP0 segment first, correctly sized segments in a legal order, exactly one frame header (baseline SOF0, or progressive SOF2 exactly when progressive mode is configured) before the first scan, every quantization and Huffman table and component a scan refers to defined before it, legal scan parameters, and a single EOI as the last two bytes. Tables, factors and scan parameters stay inside the limits of the announced coding process (8 bit precision, at most two Huffman table pairs for baseline, at most ten blocks per interleaved MCU, Ss<=Se).",
  ["inputs","configurations"],"all image sizes, colour types, sampling factors, coding modes, scan counts 2..64, restart intervals, tables, metadata",
  "The tests decode about 20 fixed configurations of one or two images with one tolerant decoder; scan counts other than the default, most sampling factors, metadata combinations and sizes are never tried, and a decoder accepts many illegal streams.",
  [E,W,"src/marker.rs"],[m("encode_image_internal / write_frame_header order the segments",E),m("write_segment, write_scan_header, write_frame_header, write_huffman_segment",W)],
  [s("Encoder fields","configuration deciding which segments are written",E)])

p("C02","Every scan decodes completely with the tables in the stream",
  "In every successfully written stream the entropy-coded data of each scan decodes, using only the Huffman tables defined in that stream, to exactly the number of data units that frame header, scan header and restart interval imply: every code exists, no category or run leaves its legal range (DC at most 11 bits, AC at most 10), and after the last data unit only the padding of the last byte is left.",
  ["inputs","configurations"],"all images and configurations, including extreme sample values, long zero runs, all sampling factors and optimized tables",
  "Tests use smooth gradients, so large coefficients, ZRL codes, blocks without EOB, single-symbol tables and restart/optimization combinations are hardly reached; decoders also conceal errors near the end of a scan.",
  [W,E,H],[m("write_bits / write_block / write_dc / write_ac_block / get_code",W),m("optimize_huffman_table counts every symbol the writer will need",E)],
  [s("bit_buffer, free_bits","bits not yet written",W),s("huffman_tables","code tables in use",E)])

p("C03","Decoded coefficients are the quantized transform of the image",
  "For every component and block, the coefficients recovered from the stream are those of the accurate integer forward DCT (libjpeg jfdctint) of the component's samples minus 128, divided by the stream's quantization values and rounded to the nearest integer (with the 15 bit fixed-point reciprocal libjpeg uses), where the component samples are the input pixels taken every (Hmax/H, Vmax/V) positions with the last column and row repeated beyond the image edge. The result does not depend on the coding mode, number of scans, restart interval or Huffman optimization.",
  ["inputs","configurations"],"all images (any content, any width and height 1..65535), colour types, sampling factors, coding modes",
  "The tests compare decoded pixels of one smooth gradient with a tolerance of 20 grey levels, one pair of image sizes; block order, edge handling at other sizes, and small numerical errors are invisible to them.",
  [E,D,I,W],[m("get_block, encode_blocks, encode_image_interleaved geometry",E),m("fdct",D),m("quantize_block, ZIGZAG order",E),m("DC prediction",W)],
  [s("row buffers","component samples with replicated edges",E)])

p("C04","Restart markers appear exactly where the restart interval says",
  "If a restart interval n>0 is configured, the stream announces n in a DRI segment before the first scan and every scan carries a restart marker after each n MCUs except at its end, numbered RST0..RST7 cyclically starting at RST0 in every scan, with the data byte aligned and DC prediction restarting from zero; without a restart interval there is neither DRI nor RST. The MCU is the interleaved MCU or, in single-component scans, one data unit.",
  ["inputs","configurations"],"all restart intervals 0..65535, image sizes, sampling factors and coding modes",
  "Three tests use interval 32 on one image size and only check that DRI exists and a resynchronising decoder is satisfied; the wrap after eight markers, intervals dividing the MCU count and interval 1 are not covered.",
  [E,W],[m("restarts_to_go / restarts counters in the three encoding loops",E),m("write_dri, finalize_bit_buffer",W)],
  [s("restarts_to_go","MCUs left in the interval",E),s("restarts","next RST number",E),s("prev_dc","DC predictions",E)])

p("C05","Entropy-coded bytes are stuffed and padded so no false marker appears",
  "Inside entropy-coded data every 0xFF data byte is followed by a stuffed 0x00, so the only markers inside a scan are the restart markers, and every restart interval and scan ends with fewer than eight padding bits that are all ones. No surplus bytes and no lost bits occur at any alignment of the bit buffer.",
  ["inputs","configurations"],"all bit sequences the encoder can produce: every alignment of codes against byte and machine word boundaries, every position of 0xFF bytes",
  "Stuffing is decided by a word-at-a-time test on 64 bit groups whose outcome depends on the positions and neighbours of 0xFF bytes; the fixed test images reach few of these patterns and a decoder ignores padding.",
  [W],[m("write_bit_buffer, flush_byte_from_bit_buffer, finalize_bit_buffer, write_bits",W)],
  [s("bit_buffer/free_bits","pending bits",W)])

p("C06","Huffman tables are valid, sufficient and, when optimized, optimal",
  "Every Huffman table written is a valid JPEG table: code lengths 1..16, number of values matching the length counts, no value twice, a prefix code that never uses the all-ones code. With optimization enabled each table contains exactly the symbols that the scans using it need, and coding them takes no more bits in total than with the code the T.81 Annex K.2 procedure builds from their actual frequencies (minimal for these frequencies together with the reserved code point whenever no code had to be limited to 16 bits), whatever the statistics are.",
  ["inputs","configurations"],"all images, i.e. all symbol histograms (single symbol, flat, strongly skewed with unlimited codes longer than 16 or even 32 bits), with and without restart intervals and progressive scans",
  "Two tests use optimized tables on one image with benign statistics; skewed histograms that need length limiting and histograms changed by restarts or spectral bands are never built.",
  [H,E],[m("HuffmanTable::new_optimized (K.1-K.4), create_sizes, create_codes",H),m("optimize_huffman_table statistics",E),m("write_huffman_segment",W)],
  [s("freq/codesize/bits","Annex K.2 work arrays",H)])

p("C07","The scans transmit every coefficient of every component exactly once",
  "For every component, the scans of a stream transmit each of its 64 coefficients exactly once: in sequential modes one scan covers a component completely, in progressive mode with n configured scans (2..64) each component gets one DC scan followed by n-1 non-empty AC scans whose spectral bands partition 1..63. Nothing is transmitted twice and nothing is left out, for all n.",
  ["configurations"],"all scan counts 2..64, colour types, sampling factors, with and without optimization and restarts",
  "Only the default of 4 scans is tested; a decoder accepts missing coefficients silently.",
  [E,W],[m("band computation in encode_image_progressive and optimize_huffman_table",E),m("write_scan_header spectral fields",W)],
  [s("progressive_scans","configured scan count",E)])

p("C08","Quantization tables written are the documented ones and are those used",
  "The stream's quantization tables equal the selected preset (luma set for the luma-like components, chroma set for the others) scaled by the quality 1..100 with the IJG rule and limited to 1..255, or the user's custom values limited to 1..255, stored in zigzag order with 8 bit precision; out-of-range qualities behave like 1 or 100. Every component refers to a table that is present and its coefficients were quantized with exactly those values.",
  ["configurations","inputs"],"all qualities 0..255, the nine presets and all custom tables, luma and chroma, all colour types",
  "Unit tests check only that quality 100 gives all ones for one preset and one all-ones custom table; other presets, qualities, and any custom value are unchecked.",
  [Q,W,E],[m("new_with_quality, get_with_quality, get_user_table, get",Q),m("write_quantization_segment",W),m("init_components table choice",E)],
  [s("quantization_tables","configured types",E)])

p("C09","Metadata is embedded completely, unchanged and in order",
  "The stream carries the configured density in the JFIF header, the Adobe segment with the right transform exactly for CMYK (0) and YCCK (2) images, and every application segment accepted before encoding, byte for byte, in the order it was added. An ICC profile of up to 16,707,345 bytes is split into APP2 chunks numbered 1..n of n that concatenate to exactly the profile; segments up to 65,533 bytes are accepted.",
  ["inputs","histories"],"all densities, segment numbers 1..15, lengths 0..65533, profile lengths 0..16,707,345, orders and combinations of additions",
  "One 7 byte segment and one 128 KiB profile are tested; boundary lengths, several segments, order and densities are not.",
  [E,W],[m("add_app_segment, add_icc_profile",E),m("write_header, write_segment",W)],
  [s("app_segments","accepted segments",E),s("density","configured density",E)])

p("C10","Invalid requests are refused without any effect",
  "A segment number outside 1..15, segment data over 65,533 bytes, an ICC profile over 16,707,345 bytes, image data shorter than width*height*bytes-per-pixel, or a zero dimension yields the matching error value, and a scan count outside 2..64 panics as documented. A refused setting leaves the encoder as it was, so a later encode behaves as if it never happened, and a refused encode hands not a single byte to the sink; surplus image data is ignored, and requests within the limits, the largest ones included, are not refused.",
  ["inputs","histories"],"all argument values around and beyond each limit, at every point of a configuration history",
  "No test exercises any error path.",
  [E,"src/error.rs"],[m("argument checks in add_app_segment, add_icc_profile, encode, encode_image_internal, set_progressive_scans",E)],
  [s("Encoder fields","must be unchanged by refused calls",E)],["return values","sink bytes","getters"])

p("C11","Sink failures are reported at once and never corrupt delivered data",
  "For every way the sink can behave (short writes, interruptions, zero writes, errors at any write, failure of the final flush) an encode that returns Ok has delivered and flushed the complete stream, an encode whose sink fails returns that very error, makes no further write or flush call after it, and has delivered exactly a prefix of the stream a perfect sink would receive. For files this includes data still buffered when encoding ends.",
  ["fault_sequences","crash_points"],"every position of a failure in the sequence of sink calls and every chunking of accepted bytes, for all coding modes, generic writers, no_std writers and files",
  "No test uses a sink that can fail.",
  [W,E,"src/error.rs"],[m("JfifWrite implementations, ? propagation at every write",W),m("flush at the end of encode_image_internal, new_file",E)],
  [s("w","the sink",W)],["sequence of sink calls","return value of encode","file contents"])

p("C12","All build configurations produce identical bytes",
  "The same sequence of API calls produces byte-identical output in every supported build: default, no_std and SIMD (with AVX2), with and without debug assertions, on 64 and 32 bit targets, whatever concrete writer type is used. Repeating an encode gives the same bytes.",
  ["inputs","configurations"],"all images (widths with every remainder modulo the vector width, all sample values), colour types, configurations",
  "Each feature set runs the same tolerant tests separately; outputs are never compared and the AVX2 transform is never compared with the scalar one.",
  [A,Y,"src/avx2.rs",D,I,W],[m("fdct_avx2 vs fdct",A),m("AVX2 row conversion vs rgb_to_ycbcr",Y),m("std and no_std JfifWrite impls",W)],
  [],["output bytes per build"])

p("C13","The output depends only on the final configuration, last setting wins",
  "After any sequence of setter calls the getters report, and encoding uses, exactly the most recently accepted value of each setting (defaults: no density, 4:2:0 below quality 90 and 4:4:4 from 90, sequential, no restarts, default tables, 4 scans for plain progressive). Two encoders with equal final settings and segments produce equal output regardless of the history; the R_ sampling names are pure aliases.",
  ["histories","configurations"],"all sequences of setter and add calls, including repeated and contradicting ones",
  "Tests set each option at most once; two getter values are checked.",
  [E],[m("setters, getters, Encoder::new defaults, SamplingFactor mapping",E)],
  [s("Encoder fields","configuration",E)],["getters","header fields of the output"])

p("C14","All pixel formats and image sources of the same picture give the same file",
  "RGBA, BGR and BGRA data encode exactly like the corresponding RGB data whatever the alpha values, and each built-in format encodes exactly like a user ImageBuffer that supplies the converted component rows (RGB via YCbCr, CMYK inverted, CMYK-as-YCCK converted with inverted K, YCbCr/YCCK/Luma unchanged). A user ImageBuffer is asked only for rows 0..height-1, in order, each row at least once, in buffers it may simply append to.",
  ["inputs","histories"],"all pixel values, sizes, formats, sampling factors and modes",
  "RGBA is compared to its RGB source with tolerance 20 at one size; BGR, BGRA, YCbCr, YCCK and user buffers are untested.",
  [I,Y,E],[m("ImageBuffer implementations and fill_buffers loops",I),m("row loops with clamped y",E)],
  [],["output bytes","arguments of fill_buffers"])

p("C15","Quantization error stays within the rounding bound of the true DCT",
  "Multiplying any decoded coefficient by its quantization value gives the exact two-dimensional DCT coefficient of the block within two thirds of the quantization value plus a quarter, and for quantization value 1 within 0.8. This holds for every coefficient position, quantization value 1..255 and sample block, including extreme blocks, so nothing overflows or saturates.",
  ["inputs"],"all sample blocks and quantization values, in scalar and SIMD builds",
  "The transform is compared with two recorded blocks, the quantizer only with divisor 8 and |values| < 256.",
  [D,A,Q],[m("fdct, fdct_avx2",D),m("compute_reciprocal, quantize",Q)],
  [],["decoded coefficients against the DCT definition"])

p("C16","Encoding any valid image terminates successfully without panicking",
  "For every non-empty image with sufficient data, every combination of valid settings and a sink that accepts everything, encoding returns Ok: it does not panic, overflow, index out of range or access memory outside its buffers, in builds with and without debug assertions. Configuration calls with valid arguments do not panic either.",
  ["inputs","configurations"],"all sizes 1..65535, contents, colour types, settings and their combinations",
  "About 20 configurations are run, nearly all on one image; combinations such as optimization with restarts, unusual statistics or extreme sizes are not.",
  [E,W,H,Q],[m("arithmetic and indexing throughout",E),m("new_optimized array bounds",H),m("get_for_value debug assertion",H)],
  [],["panic / result of encode"])

p("C17","The frame header describes the image and its component layout",
  "The frame header states the image's exact width and height, 8 bit precision and one component per channel in order (1 for luma, 3 for YCbCr, 4 for CMYK and YCCK) with unique ids; the configured sampling factors are given to the full-resolution components (Y; Y and K for YCCK; K for CMYK), all others have 1x1, and luma images are always 1x1. SamplingFactor::from_factors names exactly the eight supported pairs.",
  ["inputs","configurations"],"all widths and heights 1..65535, colour types, sampling factors and modes",
  "Two image sizes and few sampling factors are used and only the decoder's view of the size is checked.",
  [E,W],[m("init_components, get_sampling_factors, supports_interleaved",E),m("write_frame_header, write_scan_header",W)],
  [s("components","component table",E)])

p("C18","Colour conversion follows the JFIF equations",
  "Converting RGB yields Y, Cb and Cr within 0.51 of the JFIF (BT.601 full range) equations for every one of the 2^24 colours, never wrapping around; grey maps to neutral chroma. The CMYK to YCCK conversion applies the same equations to its first three channels and inverts K.",
  ["inputs"],"all 2^24 RGB triples and all K values, through the public functions and through encoding in scalar and SIMD builds",
  "77 fixed colours are tested, only on the scalar function.",
  [I,Y],[m("rgb_to_ycbcr, cmyk_to_ycck",I),m("AVX2 row conversion",Y)],
  [],["return values of rgb_to_ycbcr and cmyk_to_ycck","decoded DC values of uniform images"])

p("C19","Encoders do not influence one another",
  "Any number of encoders may exist and run at the same time: in different threads, with their calls interleaved in any order, or one inside a callback (a row request of an ImageBuffer, a write of the sink) of another. Each produces exactly the result and bytes it produces alone, also when another one fails or panics.",
  ["schedules","histories"],"all interleavings of setter calls, row requests and sink writes of several encoders, nested and parallel encodes",
  "Every test uses one encoder at a time and looks at its output only tolerantly; interleavings cannot be enumerated by tests.",
  [E,W,H,Q,I],[m("all state is kept in Encoder, JfifWriter and locals",E),m("tables are computed per encode",Q),m("generic operations chosen per encode",E)],
  [s("none","there is no shared mutable state",E)],["output bytes","results","row requests"])

p("C20","Panicking or misbehaving callbacks are contained",
  "Whatever a user's sink or ImageBuffer does (panic at any call; deliver rows that are missing, too short, too long or in the wrong buffers; clear or replace the buffers; change its answers between calls), encoding ends with a result or an ordinary panic: no memory outside the encoder's buffers is touched, no abort, no endless loop. A callback's panic reaches the caller unchanged; after a callback has panicked or the sink has failed nothing more is written, flushed or requested, not even by dropping the encoder; the bytes delivered until then are a prefix of the complete stream, and sink and image are released exactly once.",
  ["fault_sequences","inputs"],"a panic or error at every callback, every kind of contract violation of an ImageBuffer, all modes and builds",
  "No test has a sink or image that panics or breaks its contract.",
  [E,W,I],[m("encode_image_internal and its loops between callbacks",E),m("get_block indexing of user-filled rows",E),m("write_all, flush",W)],
  [s("buffers","rows filled by the user's image",E)],["order of all callbacks","panic payload","delivered bytes","drops"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
