#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/vector/mod.rs"
READ = ["src/formats/i420/read.rs", "src/formats/i422/read.rs", "src/formats/i444/read.rs", "src/formats/nv12/read.rs", "src/formats/yuyv/read.rs", "src/formats/rgb/read.rs", "src/formats/rgba/read.rs"]
WRITE = [f.replace("read.rs", "write.rs") for f in READ]
SIMD = ["src/vector/mod.rs", "src/vector/avx2.rs", "src/vector/avx512.rs"]
TESTS = "The tests convert a handful of fixed 8-bit pictures with tightly packed planes and look at overall similarity"

P = []
def prop(id, title, stmt, over, text, why, files, mech, observe, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=stmt, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

AI = "abstract interpretation of monomorphised MIR (symbolic buffers, polyhedral loop summaries): "
LV = "Decided per context for all sizes, strides, buffer lengths and sample values. "

prop("P01", "Conversion stays inside the planes it was given",
  "For any two images passed to convert, of any pixel formats, colour descriptions, sizes, strides and plane buffer lengths, the conversion reads only bytes inside the source's planes and writes only bytes inside the destination's planes. This holds for every implementation (scalar, AVX2, AVX-512) the CPU may select.",
  ["inputs", "configurations"], "all widths, heights, strides, plane lengths, sample values; all 15x15 format pairs; scalar/AVX2/AVX-512",
  TESTS + "; an out-of-bounds raw pointer access shows only for particular size/stride/length combinations and may not even crash.",
  READ + WRITE + ["src/formats/visit_2x2.rs", "src/lib.rs", "src/pixel_format.rs", "src/copy.rs"] + SIMD,
  [("plane bounds check before conversion", "src/pixel_format.rs bounds_check"), ("block visitor", "src/formats/visit_2x2.rs visit"), ("raw pointer loads/stores", "src/vector")],
  ["memory accesses of convert"], AI + "bounds obligation at every load and store", LV)
prop("P02", "A successful conversion writes the whole picture and only the picture",
  "After convert returns Ok, every byte of every destination plane that belongs to the picture (rows up to the plane's height, bytes up to the plane's row length) has been written. No byte outside the picture - stride padding between rows, bytes after the last row, surplus planes - is ever written.",
  ["inputs", "configurations"], "all sizes, strides, plane lengths; all 15x15 format pairs; scalar/AVX2/AVX-512",
  TESTS + "; a missed last column at one width class or a spill into the padding of a wide stride is not visible there.",
  WRITE + ["src/formats/visit_2x2.rs", "src/copy.rs"] + SIMD,
  [("block visitor with vector and remainder loops", "src/formats/visit_2x2.rs visit"), ("row copy", "src/copy.rs")],
  ["destination planes after convert"], AI + "exact tiling of the written region by the store log", LV)
prop("P03", "Every destination sample comes from the colocated source samples",
  "For every pixel position, the value convert stores for a destination sample depends on exactly the source samples that cover that position in the source format's layout: right plane, row, column, channel order and byte order, with subsampled chroma replicated on reading and averaged over all pixels it covers on writing.",
  ["inputs", "configurations"], "every pixel position of every size; all 15x15 format pairs; scalar/AVX2/AVX-512",
  TESTS + "; swapped neighbouring pixels, lanes or chroma rows inside a vector block change pictures imperceptibly and only in one implementation.",
  READ + WRITE + SIMD, [("readers", "src/formats/*/read.rs"), ("writers", "src/formats/*/write.rs"), ("lane shuffles", "src/vector/avx2.rs")],
  ["destination planes after convert"], AI + "symbolic dependency set of each stored sample against layout tables", LV)
prop("P04", "YUV and RGB are related by the colour space's matrix",
  "Converting between a YUV and an RGB format applies the matrix of the YUV image's colour space in the right direction: the one derived from Kr/Kb for BT.601, BT.709 and BT.2020, and the BT.2100 ICtCp definition (with PQ or HLG) for ICtCp. Coefficients agree up to the rounding of single precision constants, for every sample value.",
  ["inputs", "configurations"], "all sample values; five colour spaces x YUV formats x both directions; scalar/AVX2/AVX-512",
  TESTS + " after a round trip, which cancels any wrong but invertible matrix.",
  ["src/color/space.rs", "src/formats/i420/to_rgb.rs", "src/formats/i420/from_rgb.rs", "src/formats/i444/to_rgb.rs", "src/formats/i444/from_rgb.rs", "src/formats/i422/to_rgb.rs", "src/formats/i422/from_rgb.rs"],
  [("matrices", "src/color/space.rs"), ("application", "src/formats/*/to_rgb.rs, from_rgb.rs")],
  ["destination planes after convert"], AI + "real-valued normal form of each stored sample compared with the specified one", LV + "Floating point rounding is not bounded: expressions are compared as real functions.")
prop("P05", "Range and bit depth are mapped as specified",
  "A sample code c of an image with b-bit samples stands for c/(2^b-1); in limited range luma 16/255..235/255 and chroma 16/255..240/255 of the code range map to the full signal, in full range the whole code range does, and chroma is centred at one half. Reading and writing use the depth and range of their own image, for every format and code.",
  ["inputs", "configurations"], "all codes; 8/10/12 bit formats x full/limited on either side; scalar/AVX2/AVX-512",
  TESTS + " with the same range on both sides, so that a wrong but symmetric scale or offset cancels.",
  READ + WRITE + ["src/formats/i420/to_rgb.rs", "src/formats/i420/from_rgb.rs"],
  [("scale by max value, range offset", "src/formats/*/read.rs, write.rs")],
  ["destination planes after convert"], AI + "real-valued normal form of each stored sample compared with the specified one", LV)
prop("P06", "Transfer functions follow their standards, in both directions",
  "When source and destination transfer differ, linear light is obtained with the source's characteristic and encoded with the destination's: linear, gamma 2.2, gamma 2.8, sRGB, SDR (BT.709/BT.2020), BT.2100 PQ and BT.2100 HLG, per published constants including the linear segments. The same functions are computed by every implementation.",
  ["inputs", "configurations"], "all sample values; all ordered pairs of transfers (with Linear for the vector implementations in the quick tier); scalar/AVX2/AVX-512",
  "The tests never change the transfer function during a conversion.",
  ["src/color/transfer.rs", "src/formats/transfer_and_primaries_convert.rs"] + SIMD,
  [("characteristics", "src/color/transfer.rs"), ("application", "src/formats/transfer_and_primaries_convert.rs")],
  ["destination planes after convert"], AI + "real-valued normal form of each stored sample compared with the specified one", LV + "Polynomial kernels behind pow/ln/exp are assumed to compute these functions.")
prop("P07", "Primaries are converted with the matrices of their chromaticities",
  "When source and destination primaries differ, linear RGB is multiplied by inverse(destination RGB->XYZ) x (source RGB->XYZ), each derived from the published chromaticities and D65 white of ST 240, BT.709 or BT.2020. ICtCp conversions go through BT.2020 primaries in the same way.",
  ["inputs", "configurations"], "all sample values; all ordered pairs of primaries; scalar/AVX2/AVX-512",
  "The tests never change primaries during a conversion.",
  ["src/color/primaries.rs", "src/formats/transfer_and_primaries_convert.rs", "src/color/space.rs"],
  [("XYZ matrices", "src/color/primaries.rs"), ("application", "src/formats/transfer_and_primaries_convert.rs")],
  ["destination planes after convert"], AI + "real-valued normal form of each stored sample compared with the specified one", LV)
prop("P08", "Alpha is kept, or opaque where the source has none",
  "Converting between formats with an alpha channel carries each pixel's alpha code over unchanged, whatever happens to its colour. Converting from a format without alpha to one with alpha writes full opacity for every pixel.",
  ["inputs", "configurations"], "every pixel; all source formats into RGBA/BGRA, with and without transfer/primaries conversion; scalar/AVX2/AVX-512",
  TESTS + " whose alpha is opaque everywhere.",
  ["src/formats/rgba/read.rs", "src/formats/rgba/write.rs", "src/formats/rgb/read.rs", "src/formats/transfer_and_primaries_convert.rs"],
  [("RGBA block", "src/formats/rgba"), ("opaque default", "src/formats/rgb/read.rs, to_rgb.rs")],
  ["alpha bytes after convert"], AI + "real-valued normal form of each stored alpha sample", LV)
prop("P09", "Same format and colour: the picture is copied bit for bit",
  "Converting between two images of equal pixel format and equal colour description makes every picture sample of the destination equal to the source sample at the same plane, row and column, for every code within the format's bit depth and for any strides on either side.",
  ["inputs", "configurations"], "all sizes, strides, contents; all 15 formats; scalar/AVX2/AVX-512",
  "The copy tests use a few packed sizes; the strides, plane counts and formats they take are few.",
  ["src/copy.rs", "src/lib.rs", "src/planes.rs"], [("copy path", "src/lib.rs convert_same_color_and_pixel_format, src/copy.rs")],
  ["destination planes after convert"], AI + "byte provenance of each destination byte", LV)
prop("P10", "Out-of-range results saturate instead of wrapping",
  "Whatever sample codes the source contains - including codes outside the limited range, 16-bit words above the format's depth, and colours outside the destination's gamut - the code convert stores for a destination sample is that of the computed value clamped to 0..=2^bits-1. It never wraps around and never exceeds the destination's depth.",
  ["inputs", "configurations"], "all source codes (0..=65535 for 16-bit planes); every writer and depth; scalar/AVX2/AVX-512",
  TESTS + " whose values stay in gamut and in range.",
  WRITE + SIMD, [("clamp before quantising", "src/formats/*/write.rs, src/vector")],
  ["destination planes after convert"], AI + "interval of the stored expression against the quantiser's clamp and conversion range", LV + "NaN is excluded.")
prop("P11", "Multi-threaded conversion equals single-threaded conversion",
  "convert_multi_thread does what convert does, for any number of CPU cores: it refuses exactly the arguments convert refuses, with an error, before anything is written; otherwise every picture byte of the destination is written, with the value convert specifies for it, from the colocated source samples, whatever the height, strides and plane lengths. The areas its tasks write are disjoint, so the result cannot depend on their schedule, and no task touches memory outside the planes.",
  ["inputs", "schedules", "configurations"], "all sizes, strides, plane lengths, sample values and task orders; every reader and writer; 1, 2 and 3 cores (4 in the thorough tier)",
  "The tests run it on one machine's core count with two picture heights; a band that starts at the wrong chroma row, or rows lost when height/2 is not a multiple of the core count, shows only for particular heights and core counts.",
  ["src/multi_thread.rs", "src/lib.rs", "src/plane_decs.rs", "src/image.rs"],
  [("band splitting", "src/multi_thread.rs split_planes"), ("task per band", "src/multi_thread.rs convert_multi_thread")],
  ["destination planes after convert_multi_thread", "returned Result"], AI + "per-task store logs: disjointness, tiling and value obligations", LV + "The core count is enumerated, everything else is symbolic. rayon is modelled as running every task once, in any order.")
prop("P13", "Image constructors accept exactly usable geometry and keep it",
  "Image::from_buffer and Image::from_planes succeed exactly when width and height are not zero, every plane of the format has memory and a stride (packed strides when none are given), each stride holds a row of its plane and the memory reaches the end of each plane's last row; anything else is an error, not a panic. The image then reports the given size, format and colour, and planes() and planes_mut(), directly or through references, deliver each plane as the given memory at its place (in one buffer the planes follow one another, rows times stride bytes each) with its stride.",
  ["inputs", "configurations"], "all buffer and plane lengths, strides, numbers of planes and of strides, widths and heights (even widths for NV12 and YUYV); all 15 formats; size computations that exceed usize excepted",
  "The tests construct images from packed buffers of exactly the right size only.",
  ["src/image.rs", "src/image_traits.rs", "src/planes.rs", "src/pixel_format.rs", "src/plane_decs.rs"],
  [("Image::new", "src/image.rs"), ("split_buffer", "src/planes.rs"), ("bounds_check", "src/pixel_format.rs")],
  ["result of the constructors", "planes, planes_mut, width, height, format, color"], AI + "path conditions of every accepting and refusing exit against the geometry predicate; address, length and stride of every delivered plane", LV)
prop("P14", "Plane sizes, strides and bounds checks agree for every format",
  "For every pixel format, packed_strides, buffer_size, infer, Image::blank, bits_per_component and bounds_check describe the same layout: packed_strides gives the row bytes of each plane, buffer_size is the sum over the planes of rows times row bytes, infer cuts a buffer into the consecutive planes, blank owns exactly buffer_size zero bytes cut likewise, and bounds_check accepts exactly planes whose stride holds a row and whose bytes reach the end of the last row.",
  ["inputs", "configurations"], "all widths, heights, strides and plane lengths (even widths for NV12 and YUYV); all 15 formats; sizes exceeding isize excepted",
  "The tests never compare these functions with each other or with the format definitions; they use a few fixed sizes.",
  ["src/pixel_format.rs", "src/plane_decs.rs", "src/planes.rs", "src/image.rs", "src/image_traits.rs"],
  [("plane tables", "src/plane_decs.rs"), ("buffer_size, packed_strides, bounds_check", "src/pixel_format.rs"), ("infer", "src/planes.rs")],
  ["returned sizes and strides", "planes returned by infer", "Result of bounds_check"], AI + "normal forms of the returned terms against the format table; path conditions of bounds_check exits", LV)
prop("P15", "A cropped image is exactly its window of the picture",
  "Cropped::new succeeds exactly when the image passes its bounds check and the window lies inside it. Plane by plane, the cropped image then starts at the window's first sample, keeps the stride, and contains all rows of the window and nothing after the window's last row's stride; its size is the window's, format and colour are the image's, also for crops of crops and for planes_mut. into_inner gives the image back unchanged. Nothing of this panics for a window that is not empty.",
  ["inputs", "configurations"], "all image sizes, strides and plane lengths; all windows (at even coordinates and of even size for formats with subsampled chroma; even widths for NV12 and YUYV); all 15 formats",
  "The tests crop one fixed window out of one packed RGB picture.",
  ["src/crop.rs", "src/image_traits.rs", "src/pixel_format.rs", "src/plane_decs.rs"], [("Cropped::new", "src/crop.rs"), ("crop_planes", "src/crop.rs")],
  ["planes and planes_mut of the cropped image", "result of Cropped::new"], AI + "path conditions of every exit against the window predicate; address, length and stride of every delivered plane", LV)
prop("P17", "copy transfers the picture exactly and nothing else",
  "For two images of the same pixel format, copy makes every picture byte of every destination plane equal to the byte of the source at the same plane, row and column, for any strides and plane lengths on either side; stride padding and bytes below the picture keep their contents, nothing outside the planes is read or written, and images that are odd sized, differ in size or fail the bounds check are refused with an error instead of a panic, before anything is written.",
  ["inputs", "configurations"], "all sizes, strides, plane lengths and contents; all 15 formats; default/AVX2/AVX-512 compilations",
  "The tests copy all-zero pictures and only look at Ok; strides shorter or longer than the other side's and 16-bit row lengths are not compared.",
  ["src/copy.rs", "src/plane_decs.rs", "src/pixel_format.rs"], [("row copy", "src/copy.rs copy_impl")],
  ["destination planes after copy", "returned Result"], AI + "byte provenance and tiling of the copied rows", LV)
prop("P12", "Unusable arguments are refused with an error before anything is written",
  "convert returns Ok exactly when both images have equal size, even dimensions, a colour description of the kind their format needs, the number of planes their format needs, strides no smaller than a row and planes long enough for all rows; otherwise it returns an error and has not written a single byte. It never panics, except when a size computation itself exceeds usize.",
  ["inputs", "configurations"], "all sizes, strides, plane lengths and plane counts; every format on either side; mismatched colour kinds",
  "No test passes unusable arguments.",
  ["src/lib.rs", "src/pixel_format.rs", "src/plane_decs.rs", "src/planes.rs", "src/copy.rs"] + READ + WRITE,
  [("verify_input_windows", "src/lib.rs"), ("bounds_check", "src/pixel_format.rs"), ("plane readers", "src/planes.rs")],
  ["result of convert", "panics"], AI + "path conditions of every Ok/Err/panic exit against the validity predicate, and emptiness of the store log at error exits", LV)
prop("P19", "CPU-specific instructions run only on CPUs that have them",
  "On every path, code compiled for AVX, AVX2, FMA or AVX-512 is reached only after exactly the CPU features it needs were detected at run time, for every set of features a CPU may report.",
  ["inputs", "configurations"], "eleven CPU feature sets (none, avx, avx2, fma, avx2+fma, avx512f, avx512bw, ... with and without the unstable feature); every reader and writer; colour conversions",
  "Tests run on one CPU, which has all the features the code asks for.",
  ["src/formats/visit_2x2.rs"] + SIMD + ["src/formats/mod.rs"],
  [("runtime detection", "src/formats/visit_2x2.rs, is_x86_feature_detected"), ("target_feature functions", "src/vector/avx2.rs, src/vector/avx512.rs")],
  ["illegal instruction"], AI + "feature requirement at every call of a target_feature function or intrinsic", LV)
prop("P20", "Exactly the colour steps that differ are applied, in order",
  "A conversion applies the transfer decode/encode and the primaries matrix if and only if the two colour descriptions differ in transfer or primaries, and YUV matrices and ranges of each side always belong to that side. Descriptions that differ in one attribute only change nothing else about the computed function.",
  ["inputs", "configurations"], "all sample values; combinations of equal/different transfer, primaries, colour space and range for RGB->RGB, YUV->RGB, RGB->YUV and YUV->YUV; scalar/AVX2/AVX-512",
  "The tests use one colour description throughout.",
  ["src/lib.rs", "src/formats/transfer_and_primaries_convert.rs", "src/formats/dyn_rgba_src.rs", "src/color/mod.rs"],
  [("need-for-conversion decision", "src/formats/transfer_and_primaries_convert.rs, src/lib.rs")],
  ["destination planes after convert"], AI + "real-valued normal form of each stored sample compared with the specified composition", LV)
prop("P21", "Previous destination contents never influence a conversion",
  "convert never reads a byte of the destination: the outcome and everything written depend only on the source picture, the sizes and strides, and the descriptions of both images. Converting twice, or into a dirty buffer, gives the same picture.",
  ["inputs", "histories", "configurations"], "all sizes, strides, contents; all 15x15 format pairs; scalar/AVX2/AVX-512",
  "Tests always convert into freshly zeroed buffers.",
  WRITE + SIMD + ["src/copy.rs"], [("writers", "src/formats/*/write.rs")],
  ["destination planes after convert"], AI + "no load may address a destination plane", LV)
#MORE

NA = [
]
NOTAPP = [
 dict(id="P16", title="Resizing resamples exactly the picture of the source",
  stmt="Resizing computes every destination sample from samples of the same channel inside the source picture, at the right scale, and writes the whole destination picture and nothing else.",
  over=["inputs"], text="all images, sizes and filters",
  why="A few sizes are resized and looked at.",
  files=["src/resize.rs"], mech=[("Resizer::resize", "src/resize.rs")], observe=["destination planes after Resizer::resize"],
  reason="What a resized sample is computed from is decided inside the fast_image_resize crate by coefficient tables calculated in floating point from the sizes and the filter, and by table driven loops over them; those are runtime quantities for which the analysis has no sound bound. A defect found here by reading (rows below the picture were passed on) was repaired in 5bc9c9b."),
 dict(id="P90", title="Converted samples are within one code of the exact result",
  stmt="For every source picture the code stored for a destination sample differs by at most one from the exactly computed value, rounded.",
  over=["inputs"], text="all sample values and colour descriptions",
  why="The tests compare whole pictures by a similarity score.",
  files=SIMD + ["src/color/transfer.rs"], mech=[("single precision arithmetic and polynomial pow/ln/exp", "src/vector")], observe=["destination planes after convert"],
  reason="Bounding accumulated f32 rounding error and the approximation error of the polynomial pow/ln/exp kernels over all inputs needs numerical error analysis of runtime values; the static analysis here compares expressions as real functions (P04-P07) and gives no sound bound on rounding."),
 dict(id="P91", title="AArch64 NEON computes the same pictures",
  stmt="On AArch64 the NEON implementation stores the same values as the scalar one for every input.",
  over=["inputs", "configurations"], text="all inputs on aarch64",
  why="The tests run on x86-64.",
  files=["src/vector/neon.rs"], mech=[("NEON kernels", "src/vector/neon.rs")], observe=["destination planes after convert"],
  reason="No aarch64 standard library is installed and none can be fetched, so the NEON code cannot be type-checked or lowered to MIR here; nothing about it is claimed (a suspicious absolute-value comparison is noted in DESIGN.md)."),
]
exec(open(os.path.join(ROOT, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta_more.py")) else None
P.sort(key=lambda p: p["id"])

def line(id, title, stmt, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    return {"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": list(dict.fromkeys(files)), "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(line(p["id"], p["title"], p["stmt"] if "stmt" in p else p["statement"], p["over"], p["text"], p["why"], p["files"], p["mech"], p["observe"])) + "\n")
    for p in NOTAPP:
        f.write(json.dumps(line(p["id"], p["title"], p["stmt"], p["over"], p["text"], p["why"], p["files"], p["mech"], p["observe"])) + "\n")
for p in P:
    for g in p["files"]:
        assert os.path.exists("/repo/" + g), (p["id"], g)
m = {"version": 1, "setup_cmd": "./prepare.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"], "level": p.get("level") or "proof", "level_note": p["note"]} for p in P if p["technique"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOTAPP]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
