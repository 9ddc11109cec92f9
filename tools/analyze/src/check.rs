//! Property checks: which contexts are analysed for a property, which obligations decide it, and reporting.
use crate::conv::*;
use crate::ctx::*;
use crate::ir::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Progs {
    /// default features + multi-thread + resize
    pub base: Program,
    /// the same with the `unstable` feature (AVX-512)
    pub unstable: Program,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Backend {
    pub label: &'static str,
    pub unstable: bool,
    pub feats: &'static [&'static str],
}
pub const SCALAR: Backend = Backend { label: "scalar", unstable: false, feats: &[] };
pub const AVX2: Backend = Backend { label: "avx2", unstable: false, feats: &["avx2", "fma"] };
pub const AVX512: Backend = Backend { label: "avx512", unstable: true, feats: &["avx512f", "avx512bw"] };
pub const BACKENDS: [Backend; 3] = [SCALAR, AVX2, AVX512];

pub struct Outcome {
    pub sink: Sink,
    pub funcs: Vec<String>,
    pub steps: u64,
    pub accesses: u64,
    pub loops: u64,
}

type Body = Box<dyn Fn(&Progs) -> Result<Outcome, String> + Send + Sync>;
pub struct Job {
    pub label: String,
    pub run: Body,
}

pub fn outcome(an: &crate::exec::An, sink: Sink) -> Outcome {
    if std::env::var("PARTS").is_ok() && an.parts > 0 { eprintln!("parts {}", an.parts); }
    let mut funcs: Vec<String> = an.stats.funcs.iter().filter(|f| an.p.funcs[**f as usize].krate == an.p.crate_name).map(|f| format!("{} ({})", short_fn(an, *f), file_of(an, an.p.funcs[*f as usize].file))).collect();
    funcs.sort();
    funcs.dedup();
    Outcome { sink, funcs, steps: an.stats.steps, accesses: an.stats.accesses, loops: an.stats.loops }
}

pub fn is_rgb(f: &str) -> bool {
    f.contains("RGB") || f.contains("BGR")
}
pub const RGB709: Color = Color::rgb("SRGB", "BT709");
pub const YUV709: Color = Color::yuv("SRGB", "BT709", "BT709", false);
pub fn base_color(f: &str) -> Color {
    if is_rgb(f) {
        RGB709
    } else {
        YUV709
    }
}

pub fn conv_job(root: &'static str, src: &'static str, sc: Color, dst: &'static str, dc: Color, be: Backend, validity: Validity) -> Job {
    let label = format!("{root}: {src} {} -> {dst} {} [{}]", sc.show(), dc.show(), be.label);
    let l2 = label.clone();
    Job {
        label,
        run: Box::new(move |p: &Progs| {
            let c = Conv { src, dst, sc, dc };
            let mut r = run_conv(if be.unstable { &p.unstable } else { &p.base }, root, &c, be.feats)?;
            let s = check_conv(&mut r, &c, l2.clone(), validity, true);
            Ok(outcome(&r.an, s))
        }),
    }
}
fn base_job(src: &'static str, dst: &'static str, be: Backend) -> Job {
    conv_job("r_convert", src, base_color(src), dst, base_color(dst), be, Validity::Symbolic)
}

/// every reader and every writer, the direct paths, and some pairs of different subsampling
fn base_pairs() -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    for f in FORMATS {
        v.push((f, "RGBA"));
        v.push(("RGBA", f));
        v.push((f, f));
    }
    for (a, b) in [("I420", "I444"), ("I444", "I420"), ("YUYV", "NV12"), ("NV12", "I210"), ("I412", "YUYV"), ("I422", "I010"), ("BGR", "I012"), ("I212", "BGRA")] {
        v.push((a, b));
    }
    v.sort();
    v.dedup();
    v
}
fn pairs(thorough: bool) -> Vec<(&'static str, &'static str)> {
    if thorough {
        let mut v = vec![];
        for a in FORMATS {
            for b in FORMATS {
                v.push((a, b));
            }
        }
        v
    } else {
        base_pairs()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub classes: &'static [Class],
    pub jobs: fn(bool) -> Vec<Job>,
    pub rule: &'static str,
}

fn all_pairs_all_backends(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for (a, b) in pairs(t || be.label != "avx512") {
            v.push(base_job(a, b, be));
        }
        // through the transfer / primaries conversion
        for f in FORMATS {
            for g in ["RGBA", "I444", "I420"] {
                if !t && g != "RGBA" {
                    continue;
                }
                let c = |x: &str, t: &'static str, p: &'static str| if is_rgb(x) { Color::rgb(t, p) } else { Color::yuv(t, p, "BT709", false) };
                v.push(conv_job("r_convert", f, c(f, "SRGB", "BT709"), g, c(g, "Linear", "BT2020"), be, Validity::Symbolic));
                v.push(conv_job("r_convert", g, c(g, "Linear", "BT709"), f, c(f, "Gamma22", "BT709"), be, Validity::Symbolic));
            }
        }
    }
    v
}
const SPACES: [&str; 5] = ["BT601", "BT709", "BT2020", "ICtCpPQ", "ICtCpHLG"];
const TRANSFERS: [&str; 7] = ["Linear", "Gamma22", "Gamma28", "SRGB", "SDR", "BT2100PQ", "BT2100HLG"];
const PRIMARIES: [&str; 3] = ["ST240", "BT709", "BT2020"];
const YUV: [&str; 11] = ["I420", "I422", "I444", "I010", "I012", "I210", "I212", "I410", "I412", "NV12", "YUYV"];

fn matrix_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for f in YUV {
            for s in SPACES {
                // one 8-bit format per subsampling takes every space; the others one
                if !t && !(["I420", "I444"].contains(&f) || s == "BT709" || (s == "BT2020" && ["YUYV", "NV12"].contains(&f))) {
                    continue;
                }
                let tr = match s {
                    "ICtCpPQ" => "BT2100PQ",
                    "ICtCpHLG" => "BT2100HLG",
                    _ => "SRGB",
                };
                let (y, r) = (Color::yuv(tr, "BT2020", s, true), Color::rgb(tr, "BT2020"));
                v.push(conv_job("r_convert", f, y, "RGBA", r, be, Validity::Symbolic));
                v.push(conv_job("r_convert", "RGBA", r, f, y, be, Validity::Symbolic));
            }
        }
    }
    v
}
fn range_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for f in YUV {
            for full in [false, true] {
                let (y, r) = (Color::yuv("SRGB", "BT709", "BT709", full), RGB709);
                v.push(conv_job("r_convert", f, y, "RGBA", r, be, Validity::Symbolic));
                v.push(conv_job("r_convert", "RGBA", r, f, y, be, Validity::Symbolic));
            }
        }
        for (a, fa, b, fb) in [("I420", false, "I010", true), ("I010", true, "I420", false), ("I412", true, "I410", false), ("NV12", true, "NV12", false), ("YUYV", false, "YUYV", true)] {
            v.push(conv_job("r_convert", a, Color::yuv("SRGB", "BT709", "BT709", fa), b, Color::yuv("SRGB", "BT709", "BT709", fb), be, Validity::Symbolic));
        }
        if t {
            for f in FORMATS {
                for g in FORMATS {
                    if is_rgb(f) && is_rgb(g) {
                        continue;
                    }
                    let c = |x: &str, full| if is_rgb(x) { RGB709 } else { Color::yuv("SRGB", "BT709", "BT709", full) };
                    v.push(conv_job("r_convert", f, c(f, true), g, c(g, false), be, Validity::Symbolic));
                    v.push(conv_job("r_convert", f, c(f, false), g, c(g, true), be, Validity::Symbolic));
                }
            }
        }
    }
    v
}
fn transfer_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for a in TRANSFERS {
            for b in TRANSFERS {
                if a == b || (!t && be.label != "scalar" && a != "Linear" && b != "Linear") {
                    continue;
                }
                v.push(conv_job("r_convert", "RGBA", Color::rgb(a, "BT709"), "RGBA", Color::rgb(b, "BT709"), be, Validity::Symbolic));
            }
        }
        for f in FORMATS {
            // every reader and every writer around a change of transfer
            let c = |tr| if is_rgb(f) { Color::rgb(tr, "BT709") } else { Color::yuv(tr, "BT709", "BT709", true) };
            v.push(conv_job("r_convert", f, c("Linear"), "RGBA", Color::rgb("SRGB", "BT709"), be, Validity::Symbolic));
            v.push(conv_job("r_convert", "RGBA", Color::rgb("Linear", "BT709"), f, c("Gamma22"), be, Validity::Symbolic));
        }
        if t {
            for a in TRANSFERS {
                for s in ["ICtCpPQ", "ICtCpHLG"] {
                    let (y, r) = (Color::yuv(a, "BT2020", s, true), Color::rgb(a, "BT2020"));
                    v.push(conv_job("r_convert", "I444", y, "RGBA", r, be, Validity::Symbolic));
                    v.push(conv_job("r_convert", "RGBA", r, "I444", y, be, Validity::Symbolic));
                }
            }
        }
    }
    v
}
fn primaries_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for a in PRIMARIES {
            for b in PRIMARIES {
                if a != b {
                    v.push(conv_job("r_convert", "RGBA", Color::rgb("Linear", a), "RGBA", Color::rgb("Linear", b), be, Validity::Symbolic));
                    if t {
                        for tr in TRANSFERS {
                            v.push(conv_job("r_convert", "BGR", Color::rgb(tr, a), "RGB", Color::rgb(tr, b), be, Validity::Symbolic));
                        }
                    }
                }
            }
            // ICtCp goes through the primaries as well
            for (s, tr) in [("ICtCpPQ", "BT2100PQ"), ("ICtCpHLG", "BT2100HLG")] {
                let (y, r) = (Color::yuv(tr, a, s, true), Color::rgb(tr, a));
                for f in YUV {
                    if t || be.label != "avx512" || f == "I444" {
                        v.push(conv_job("r_convert", f, y, "RGBA", r, be, Validity::Symbolic));
                        v.push(conv_job("r_convert", "RGBA", r, f, y, be, Validity::Symbolic));
                    }
                }
            }
        }
        for f in FORMATS {
            // every reader and every writer around a change of primaries
            let c = |p| if is_rgb(f) { Color::rgb("Linear", p) } else { Color::yuv("Linear", p, "BT709", true) };
            v.push(conv_job("r_convert", f, c("BT709"), "RGBA", Color::rgb("Linear", "BT2020"), be, Validity::Symbolic));
            v.push(conv_job("r_convert", "RGBA", Color::rgb("Linear", "BT2020"), f, c("BT709"), be, Validity::Symbolic));
        }
    }
    v
}

const FORMATS_ALPHA: [&str; 2] = ["RGBA", "BGRA"];

fn alpha_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for a in FORMATS_ALPHA {
            for f in FORMATS {
                v.push(base_job(f, a, be));
            }
            for b in FORMATS_ALPHA {
                for (x, y) in [(Color::rgb("SRGB", "BT709"), Color::rgb("Linear", "BT709")), (Color::rgb("Linear", "BT709"), Color::rgb("BT2100PQ", "BT2020")), (Color::rgb("Linear", "BT2020"), Color::rgb("Linear", "BT709")), (Color::rgb("BT2100HLG", "ST240"), Color::rgb("Gamma22", "BT709"))] {
                    v.push(conv_job("r_convert", a, x, b, y, be, Validity::Symbolic));
                }
            }
            if t {
                for tr in TRANSFERS {
                    for f in FORMATS {
                        let sc = if is_rgb(f) { Color::rgb(tr, "BT2020") } else { Color::yuv(tr, "BT2020", "BT2020", false) };
                        v.push(conv_job("r_convert", f, sc, a, RGB709, be, Validity::Symbolic));
                    }
                }
            }
        }
    }
    v
}
fn identity_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for f in FORMATS {
            for root in ["r_convert"] {
                v.push(conv_job(root, f, base_color(f), f, base_color(f), be, Validity::Symbolic));
            }
            if t {
                for tr in TRANSFERS {
                    let c = if is_rgb(f) { Color::rgb(tr, "BT2020") } else { Color::yuv(tr, "ST240", "BT601", true) };
                    v.push(conv_job("r_convert", f, c, f, c, be, Validity::Symbolic));
                }
            }
        }
    }
    v
}
fn saturate_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for f in YUV {
            // every depth and both ranges on each side; RGB out of gamut and limited range headroom overshoot
            for full in [false, true] {
                let y = Color::yuv("SRGB", "BT709", "BT709", full);
                v.push(conv_job("r_convert", f, y, "RGBA", RGB709, be, Validity::Symbolic));
                v.push(conv_job("r_convert", "RGB", RGB709, f, y, be, Validity::Symbolic));
            }
            v.push(conv_job("r_convert", f, Color::yuv("SRGB", "BT709", "BT709", false), "I412", Color::yuv("SRGB", "BT709", "BT709", true), be, Validity::Symbolic));
            v.push(conv_job("r_convert", "I010", Color::yuv("SRGB", "BT709", "BT709", false), f, Color::yuv("SRGB", "BT709", "BT601", true), be, Validity::Symbolic));
        }
        for f in ["RGBA", "BGRA", "RGB", "BGR"] {
            v.push(conv_job("r_convert", "RGBA", Color::rgb("Linear", "BT2020"), f, Color::rgb("Linear", "BT709"), be, Validity::Symbolic));
            v.push(conv_job("r_convert", "I444", Color::yuv("Linear", "BT2020", "BT2020", false), f, Color::rgb("Linear", "ST240"), be, Validity::Symbolic));
        }
        for tr in TRANSFERS {
            if tr != "Linear" {
                v.push(conv_job("r_convert", "RGBA", Color::rgb(tr, "BT709"), "RGBA", Color::rgb("Linear", "BT709"), be, Validity::Symbolic));
            }
        }
        if t {
            for a in FORMATS {
                for b in FORMATS {
                    v.push(base_job(a, b, be));
                }
            }
        }
    }
    v
}
fn reject_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for root in ["r_convert"] {
        for be in BACKENDS {
            for (a, b) in pairs(t && root == "r_convert") {
                // the formats behave alike in every backend; the multi-thread entry point delegates to the other one
                if be.label != "scalar" && !t && !(a == "RGBA" || b == "RGBA") || root == "r_convert_mt" && be.label != "scalar" {
                    continue;
                }
                v.push(conv_job(root, a, base_color(a), b, base_color(b), be, Validity::Symbolic));
            }
        }
        // colour description that does not fit the format
        for f in YUV {
            v.push(conv_job(root, f, RGB709, "RGBA", RGB709, SCALAR, Validity::Never));
            v.push(conv_job(root, "RGBA", RGB709, f, RGB709, SCALAR, Validity::Never));
            v.push(conv_job(root, f, RGB709, "I444", YUV709, AVX2, Validity::Never));
        }
        // planes missing
        for f in FORMATS {
            for n in 0..nplanes(f) {
                v.push(planes_job(root, f, n, "RGBA", nplanes("RGBA")));
                v.push(planes_job(root, "RGBA", nplanes("RGBA"), f, n));
                v.push(planes_job(root, f, nplanes(f), f, n));
            }
        }
    }
    v
}
fn planes_job(root: &'static str, src: &'static str, ns: usize, dst: &'static str, nd: usize) -> Job {
    let label = format!("{root}: {src} with {ns} planes -> {dst} with {nd} planes");
    let l2 = label.clone();
    Job {
        label,
        run: Box::new(move |p: &Progs| {
            let c = Conv { src, dst, sc: base_color(src), dc: base_color(dst) };
            let mut r = run_conv_n(&p.base, root, &c, &[], ns, nd, 2)?;
            let s = check_conv(&mut r, &c, l2.clone(), Validity::Never, true);
            Ok(outcome(&r.an, s))
        }),
    }
}
fn feature_jobs(_: bool) -> Vec<Job> {
    let sets: [(bool, &'static str, &'static [&'static str]); 11] = [
        (false, "none", &[]),
        (false, "avx", &["avx"]),
        (false, "avx2", &["avx2"]),
        (false, "fma", &["fma"]),
        (false, "avx2+fma", &["avx2", "fma"]),
        (false, "avx512f+bw", &["avx512f", "avx512bw"]),
        (true, "none,unstable", &[]),
        (true, "avx2+fma,unstable", &["avx2", "fma"]),
        (true, "avx512f,unstable", &["avx512f"]),
        (true, "avx512bw,unstable", &["avx512bw"]),
        (true, "avx2,unstable", &["avx2"]),
    ];
    let mut v = vec![];
    for (unstable, label, feats) in sets {
        let be = Backend { label, unstable, feats };
        for f in FORMATS {
            v.push(base_job(f, "RGBA", be));
            v.push(base_job("RGBA", f, be));
            if f != "RGBA" {
                v.push(base_job(f, f, be));
            }
        }
        for (a, b) in [(RGB709, Color::rgb("Linear", "BT2020")), (Color::rgb("Linear", "BT709"), Color::rgb("BT2100PQ", "BT709")), (Color::rgb("BT2100HLG", "BT709"), Color::rgb("SDR", "BT709"))] {
            v.push(conv_job("r_convert", "RGBA", a, "RGBA", b, be, Validity::Symbolic));
        }
    }
    v
}
/// which colour conversion steps are taken: every combination of equal/different transfer, primaries and matrix
fn steps_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        let kinds = [("RGBA", "BGR"), ("RGB", "RGB"), ("I444", "RGBA"), ("RGBA", "I444"), ("I444", "I444"), ("I410", "I444")];
        for (f, g) in kinds {
            for (t1, t2) in [("Linear", "Linear"), ("Linear", "SRGB"), ("Gamma22", "Linear"), ("SRGB", "SRGB")] {
                for (p1, p2) in [("BT709", "BT709"), ("BT709", "BT2020")] {
                    for s2 in ["BT709", "BT2020"] {
                        if t1 == t2 && p1 == p2 && f == g && s2 == "BT709" || is_rgb(f) && is_rgb(g) && s2 == "BT709" {
                            continue;
                        }
                        // ranges of both sides differ: no clamping step in between can be skipped
                        let sc = if is_rgb(f) { Color::rgb(t1, p1) } else { Color::yuv(t1, p1, "BT709", true) };
                        let dc = if is_rgb(g) { Color::rgb(t2, p2) } else { Color::yuv(t2, p2, s2, true) };
                        if !t && be.label == "avx512" && t1 == "SRGB" {
                            continue;
                        }
                        v.push(conv_job("r_convert", f, sc, g, dc, be, Validity::Symbolic));
                    }
                }
            }
        }
    }
    v
}
/// `convert_multi_thread` with a given number of CPU cores
fn mt_job(src: &'static str, sc: Color, dst: &'static str, dc: Color, be: Backend, cores: usize) -> Job {
    let label = format!("r_convert_mt: {src} {} -> {dst} {} [{}, {cores} cores]", sc.show(), dc.show(), be.label);
    let l2 = label.clone();
    Job {
        label,
        run: Box::new(move |p: &Progs| {
            let c = Conv { src, dst, sc, dc };
            let mut r = run_conv_n(if be.unstable { &p.unstable } else { &p.base }, "r_convert_mt", &c, be.feats, nplanes(src), nplanes(dst), cores)?;
            let s = check_conv(&mut r, &c, l2.clone(), Validity::Symbolic, true);
            Ok(outcome(&r.an, s))
        }),
    }
}
/// how `convert_multi_thread` hands out the picture, for many core counts: the conversion of a
/// band is analysed as a copy of the band
fn split_job(fmt: &'static str, cores: usize) -> Job {
    let label = format!("r_convert_mt: bands of {fmt} [{cores} cores]");
    let l2 = label.clone();
    Job {
        label,
        run: Box::new(move |p: &Progs| {
            let sc = base_color(fmt);
            let dc = if is_rgb(fmt) { Color::rgb("Linear", "BT2020") } else { Color::yuv("Linear", "BT2020", "BT2020", true) };
            let c = Conv { src: fmt, dst: fmt, sc, dc };
            let mut r = crate::ctx::run_conv_red(&p.base, "r_convert_mt", &c, SCALAR.feats, nplanes(fmt), nplanes(fmt), cores, Some(("ezk_image::convert", "r_band")))?;
            let c = Conv { src: fmt, dst: fmt, sc, dc: sc };
            let s = check_conv(&mut r, &c, l2.clone(), Validity::Symbolic, true);
            Ok(outcome(&r.an, s))
        }),
    }
}
fn mt_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    let mut job = |a: &'static str, b: &'static str, be, n| v.push(mt_job(a, base_color(a), b, base_color(b), be, n));
    // the longest contexts first
    for (a, b) in [("I420", "NV12"), ("NV12", "I010"), ("RGB", "I420")] {
        job(a, b, SCALAR, 3);
    }
    if t {
        for (a, b) in base_pairs() {
            job(a, b, SCALAR, 3);
            job(a, b, AVX2, 2);
        }
        for (a, b) in [("I420", "I444"), ("RGB", "BGR")] {
            job(a, b, SCALAR, 4);
        }
    }
    for (a, b) in if t { pairs(true) } else { base_pairs() } {
        job(a, b, SCALAR, 2);
    }
    for n in [3, 4, 5, 6, 7, 8, 12, 16] {
        v.push(split_job("I420", n));
    }
    let mut job = |a: &'static str, b: &'static str, be, n| v.push(mt_job(a, base_color(a), b, base_color(b), be, n));
    for f in FORMATS {
        job(f, "BGR", SCALAR, 1);
        job("BGR", f, SCALAR, 1);
        job(f, f, SCALAR, 3);
    }
    for f in YUV {
        // planes missing, colour description of the wrong kind
        v.push(planes_job("r_convert_mt", f, nplanes(f) - 1, "RGBA", 1));
        v.push(planes_job("r_convert_mt", "RGBA", 1, f, nplanes(f) - 1));
    }
    v
}
fn geo_jobs(v: &mut Vec<Job>, g: crate::geom::Geo, fmt: &'static str) {
    for t in crate::geom::classes(fmt) {
        v.push(Job {
            label: crate::geom::describe(&g, fmt, t),
            run: Box::new(move |p: &Progs| {
                let (r, s) = crate::geom::run_geo(&p.base, &g, fmt, &base_color(fmt), t)?;
                Ok(outcome(&r.an, s))
            }),
        });
    }
}
fn crop_jobs(_: bool) -> Vec<Job> {
    use crate::geom::Geo;
    let mut v = vec![];
    for f in FORMATS {
        for root in ["r_list_crop", "r_list_crop_mut"] {
            // windows on the chroma grid
            let sub = crate::spec::layout(f).planes.iter().any(|p| p.xd > 1 || p.yd > 1);
            geo_jobs(&mut v, Geo::Crop { root, aligned: sub, nested: false }, f);
        }
        geo_jobs(&mut v, Geo::Crop { root: "r_list_crop2", aligned: true, nested: true }, f);
        geo_jobs(&mut v, Geo::Uncrop, f);
    }
    v
}
fn constructor_jobs(_: bool) -> Vec<Job> {
    use crate::geom::Geo;
    let mut v = vec![];
    for f in FORMATS {
        let n = nplanes(f);
        for ns in 0..=n + 1 {
            for root in ["r_list_buffer", "r_list_buffer_mut"] {
                geo_jobs(&mut v, Geo::Buffer { root, ns: Some(ns) }, f);
            }
            geo_jobs(&mut v, Geo::Planes { root: "r_list_planes", np: n, ns: Some(ns) }, f);
            geo_jobs(&mut v, Geo::Planes { root: "r_list_planes", np: ns, ns: Some(n) }, f);
            geo_jobs(&mut v, Geo::Planes { root: "r_list_planes_packed", np: ns, ns: None }, f);
        }
        geo_jobs(&mut v, Geo::Planes { root: "r_list_planes_mut", np: n, ns: Some(n) }, f);
        geo_jobs(&mut v, Geo::Planes { root: "r_list_planes_mut", np: n - 1, ns: Some(n) }, f);
        geo_jobs(&mut v, Geo::Buffer { root: "r_list_buffer_packed", ns: None }, f);
        for root in ["r_list_ref", "r_list_refmut", "r_list_refmut_mut"] {
            geo_jobs(&mut v, Geo::Fwd { root }, f);
        }
    }
    v
}
fn size_jobs(_: bool) -> Vec<Job> {
    use crate::geom::Geo;
    let mut v = vec![];
    for f in FORMATS {
        let n = nplanes(f);
        for root in ["r_list_blank", "r_list_blank_mut"] {
            geo_jobs(&mut v, Geo::Blank { root }, f);
        }
        for root in ["r_list_infer", "r_list_infer_mut"] {
            geo_jobs(&mut v, Geo::Infer { root, ns: None }, f);
            geo_jobs(&mut v, Geo::Infer { root, ns: Some(n) }, f);
        }
        geo_jobs(&mut v, Geo::Strides, f);
        geo_jobs(&mut v, Geo::Size, f);
        geo_jobs(&mut v, Geo::Bits, f);
        for np in 0..=n + 1 {
            geo_jobs(&mut v, Geo::Check { np }, f);
            geo_jobs(&mut v, Geo::CheckImage { np }, f);
        }
    }
    v
}
/// `copy`
fn copy_jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in BACKENDS {
        for f in FORMATS {
            v.push(conv_job("r_copy", f, base_color(f), f, base_color(f), be, Validity::Symbolic));
            if t {
                for tr in TRANSFERS {
                    let c = if is_rgb(f) { Color::rgb(tr, "BT2020") } else { Color::yuv(tr, "ST240", "BT601", true) };
                    v.push(conv_job("r_copy", f, c, f, c, be, Validity::Symbolic));
                }
            }
        }
    }
    for f in FORMATS {
        for n in 0..nplanes(f) {
            v.push(planes_job("r_copy", f, n, f, nplanes(f)));
            v.push(planes_job("r_copy", f, nplanes(f), f, n));
        }
    }
    v
}
/// development aid: every class over a small set of contexts
fn dev_jobs(_: bool) -> Vec<Job> {
    let mut v = vec![];
    for be in [SCALAR, AVX2] {
        for (a, b) in base_pairs() {
            v.push(base_job(a, b, be));
        }
    }
    v.extend(transfer_jobs(false));
    let n = v.len();
    v.extend(matrix_jobs(false).into_iter().chain(primaries_jobs(false)).enumerate().filter(|(i, _)| i % 5 == n % 5).map(|x| x.1));
    v
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "DEV", classes: &[Class::Memory, Class::Feature, Class::Panic, Class::Reject, Class::Source, Class::Value, Class::Alpha, Class::Identity, Class::Saturate, Class::Coverage, Class::Padding, Class::DstRead], jobs: dev_jobs, rule: "-" },
        Prop { id: "P08", classes: &[Class::Alpha], jobs: alpha_jobs, rule: "the alpha sample of each pixel is the source alpha, or full opacity where the source has none" },
        Prop { id: "P09", classes: &[Class::Identity, Class::Coverage], jobs: identity_jobs, rule: "every picture byte of the destination is the byte of the source at the same plane, row and column" },
        Prop { id: "P10", classes: &[Class::Saturate], jobs: saturate_jobs, rule: "for the whole range the stored expression can take, the stored code is that of the value clamped to 0..=2^bits-1" },
        Prop { id: "P11", classes: &[Class::Tasks, Class::Value, Class::Source, Class::Alpha, Class::Identity, Class::Coverage, Class::Padding, Class::Memory, Class::DstRead, Class::Reject, Class::Panic], jobs: mt_jobs, rule: "the bands handed to the tasks tile the picture, no two tasks write the same byte, and every obligation of the single-threaded conversion holds for what the tasks write" },
        Prop { id: "P13", classes: &[Class::Reject, Class::Panic, Class::Geometry, Class::Memory], jobs: constructor_jobs, rule: "a constructor accepts exactly the arguments that describe an image inside its memory, and the planes delivered are the bytes the arguments describe" },
        Prop { id: "P14", classes: &[Class::Reject, Class::Panic, Class::Geometry, Class::Memory], jobs: size_jobs, rule: "buffer_size, packed_strides, infer, blank and bounds_check agree with one layout per format" },
        Prop { id: "P15", classes: &[Class::Reject, Class::Panic, Class::Geometry, Class::Memory], jobs: crop_jobs, rule: "a window is accepted exactly when it lies in the picture, and its planes start at the window's first sample, keep the stride and end with its last row" },
        Prop { id: "P17", classes: &[Class::Identity, Class::Coverage, Class::Padding, Class::Memory, Class::DstRead, Class::Reject, Class::Panic], jobs: copy_jobs, rule: "copy stores every picture byte from the byte of the source at the same plane, row and column, and nothing else" },
        Prop { id: "P12", classes: &[Class::Reject, Class::Panic], jobs: reject_jobs, rule: "exits with Ok imply valid arguments, exits with Err imply invalid ones and come before any store; no panic is reachable unless a size computation overflows" },
        Prop { id: "P19", classes: &[Class::Feature], jobs: feature_jobs, rule: "every call of a function or intrinsic that needs a CPU feature is reached only when that feature was detected" },
        Prop { id: "P20", classes: &[Class::Value, Class::Source], jobs: steps_jobs, rule: "the real function computed contains exactly the colour steps by which the two colour descriptions differ" },
        Prop { id: "P21", classes: &[Class::DstRead], jobs: all_pairs_all_backends, rule: "no load reads a byte of a destination plane" },
        Prop { id: "P01", classes: &[Class::Memory], jobs: all_pairs_all_backends, rule: "every load and store reachable from the entry point lies inside the plane or object it addresses, for all sizes, strides and buffer lengths" },
        Prop { id: "P02", classes: &[Class::Coverage, Class::Padding], jobs: all_pairs_all_backends, rule: "the stores of every successful exit tile exactly rows 0..height and columns 0..row bytes of each destination plane" },
        Prop { id: "P03", classes: &[Class::Source], jobs: all_pairs_all_backends, rule: "the value stored for each destination sample depends on exactly the source samples the layout tables assign to it" },
        Prop { id: "P04", classes: &[Class::Value], jobs: matrix_jobs, rule: "the real function computed equals the one derived from Kr/Kb or BT.2100" },
        Prop { id: "P05", classes: &[Class::Value], jobs: range_jobs, rule: "the real function computed equals the specified range mapping and code scaling" },
        Prop { id: "P06", classes: &[Class::Value], jobs: transfer_jobs, rule: "the real function computed equals the published transfer characteristic" },
        Prop { id: "P07", classes: &[Class::Value], jobs: primaries_jobs, rule: "the real function computed equals the matrices derived from the chromaticities" },
    ]
}

pub fn run(dir: &str, id: &str, tier: &str, progs: Progs, t0: Instant, budget: Duration) -> i32 {
    let Some(prop) = props().into_iter().find(|p| p.id == id) else {
        println!("unknown property {id}");
        return 2;
    };
    let mut jobs = (prop.jobs)(tier == "thorough");
    if let Ok(o) = std::env::var("ONLY") {
        jobs.retain(|j| j.label.contains(&o));
    }
    let next = AtomicUsize::new(0);
    // once a violation has been seen the rest of the contexts is only looked at for a while
    let seen_bad = std::sync::atomic::AtomicBool::new(false);
    let results: Mutex<Vec<(usize, Result<Outcome, String>, f64)>> = Mutex::new(vec![]);
    let nw = std::env::var("WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|s| {
        for _ in 0..nw {
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let t = Instant::now();
                    let r = if t0.elapsed() > budget || t0.elapsed() > budget / 4 && seen_bad.load(Ordering::SeqCst) {
                        Err("not analysed: time budget exhausted".to_string())
                    } else {
                        // no single context takes all the time there is
                        crate::lp::DEADLINE.set(Some((t + budget * 2 / 5).min(t0 + budget * 7 / 6)));
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (jobs[i].run)(&progs))) {
                            Ok(r) => r,
                            Err(e) => Err(format!("analysis failed: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
                        }
                    };
                    if let Ok(o) = &r {
                        let undec = o.sink.f.iter().any(|f| f.class == Class::Undecided);
                        if !undec && o.sink.f.iter().any(|f| prop.classes.contains(&f.class)) {
                            seen_bad.store(true, Ordering::SeqCst);
                        }
                    }
                    if std::env::var("TIMES").is_ok() {
                        eprintln!("{:.1}s {}", t.elapsed().as_secs_f64(), jobs[i].label);
                    }
                    results.lock().unwrap().push((i, r, t.elapsed().as_secs_f64()));
                })
                .unwrap();
        }
    });
    let _ = std::panic::take_hook();
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);

    let mut obl = Obl::default();
    let mut funcs: FxHashMap<String, u64> = Default::default();
    let (mut steps, mut accesses, mut loops) = (0u64, 0u64, 0u64);
    let mut undecided: Vec<String> = vec![];
    let mut found: Vec<(String, Finding)> = vec![];
    let mut samples = vec![];
    let mut ctx_undecided = 0;
    let mut slow: Vec<(f64, String)> = vec![];
    for (i, r, dt) in &results {
        slow.push((*dt, jobs[*i].label.clone()));
        match r {
            Err(e) => {
                ctx_undecided += 1;
                undecided.push(format!("{}: {e}", jobs[*i].label))
            }
            Ok(o) => {
                obl.merge(&o.sink.obl);
                for f in &o.funcs {
                    *funcs.entry(f.clone()).or_default() += 1;
                }
                steps += o.steps;
                accesses += o.accesses;
                loops += o.loops;
                let mut n = String::new();
                // what was not understood is not a violation: after an unsupported construct nothing the context says is used,
                // and stores that could not be placed may be the ones that seem missing
                let lost = o.sink.f.iter().any(|f| f.class == Class::Undecided && f.text.contains("construct not understood"));
                let partial = o.sink.f.iter().any(|f| f.class == Class::Undecided);
                if partial {
                    ctx_undecided += 1;
                }
                for f in &o.sink.f {
                    if f.class == Class::Undecided {
                        undecided.push(f.text.clone());
                    }
                    if lost || partial && matches!(f.class, Class::Coverage | Class::Reject | Class::Tasks) {
                        continue;
                    }
                    if prop.classes.contains(&f.class) {
                        found.push((jobs[*i].label.clone(), f.clone()));
                    }
                }
                for c in prop.classes {
                    let (a, b) = o.sink.obl.n.get(c).copied().unwrap_or_default();
                    n.push_str(&format!(" {c:?} {b}/{a}"));
                }
                if samples.len() < 12 && i % (jobs.len() / 12 + 1) == 0 {
                    samples.push(format!("{}:{n}", jobs[*i].label));
                }
            }
        }
    }
    // known findings
    let mut known: Vec<(String, String)> = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{dir}/KNOWN_FINDINGS")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                if let Some(r) = r.strip_prefix(&format!("property={id} ")) {
                    if let Some((k, d)) = r.split_once(" :: ") {
                        known.push((k.trim().to_string(), d.trim().to_string()));
                    }
                }
            }
        }
    }
    let mut seen = FxHashSet::default();
    let mut known_hit: FxHashSet<String> = Default::default();
    let mut nviol = 0;
    let rdir = format!("{dir}/evidence/replay");
    let _ = std::fs::create_dir_all(&rdir);
    for (label, f) in &found {
        let key = format!("{:?}/{}", f.class, f.key);
        if let Some((k, d)) = known.iter().find(|k| k.0 == key) {
            if known_hit.insert(k.clone()) {
                println!("KNOWN-FINDING: property={id} {d}");
            }
            continue;
        }
        if !seen.insert(key.clone()) {
            continue;
        }
        nviol += 1;
        if nviol > 20 {
            continue;
        }
        let path = format!("{rdir}/{id}-{nviol}.txt");
        let body = format!("property {id}\ncontext  {label}\nkey      {key}\nrule     {}\n\n{}\n\nRe-run: {dir}/check.sh {id} {tier}\n", prop.rule, f.text);
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={id} replay={path}");
        println!("  {} | {}", key, f.text.chars().take(600).collect::<String>());
    }
    undecided.sort();
    undecided.dedup();
    for u in undecided.iter().take(10) {
        println!("UNDECIDED property={id} {}", u.chars().take(400).collect::<String>());
    }
    slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let (mut n, mut d) = (0, 0);
    let mut per = serde_json::Map::new();
    for c in prop.classes {
        let (a, b) = obl.n.get(c).copied().unwrap_or_default();
        n += a;
        d += b;
        per.insert(format!("{c:?}"), serde_json::json!({"obligations": a, "discharged": b}));
    }
    let mut fl: Vec<String> = funcs.iter().map(|(f, n)| format!("{f} x{n}")).collect();
    fl.sort();
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "proof",
        "coverage": {
            "obligations": n,
            "discharged": d,
            "checker_cmd": format!("./check.sh {id} {tier}"),
            "trusted_base": ["rustc nightly front end and MIR construction", "the abstract interpreter in tools/analyze (transfer functions, linear arithmetic)", "models of std, libm-style intrinsics, x86 vector intrinsics, rayon/fast_image_resize boundaries", "the specification tables in tools/analyze/src/spec.rs"],
            "rule": prop.rule,
            "contexts": jobs.len(),
            "contexts_undecided": ctx_undecided,
            "per_class": per,
            "abstract_steps": steps,
            "memory_accesses": accesses,
            "loops_accelerated": loops,
            "functions_analysed": fl.len(),
            "functions": fl,
            "samples": samples,
            "undecided": undecided.iter().take(50).collect::<Vec<_>>(),
            "slowest_contexts": slow.iter().take(5).map(|x| format!("{:.1}s {}", x.0, x.1)).collect::<Vec<_>>(),
            "known_findings_reported": known_hit.len(),
        },
        "assumptions": ["x86-64, little endian; aarch64/NEON code is not analysed", "arithmetic on f32 is compared as real arithmetic (rounding error is not bounded), NaN and infinities excluded"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let _ = std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap());
    println!("{id} {tier}: {} contexts, {d}/{n} obligations discharged, {} functions, {} undecided, {nviol} violations, {:.1}s", jobs.len(), fl.len(), undecided.len(), t0.elapsed().as_secs_f64());
    if nviol > 0 {
        1
    } else if ctx_undecided == jobs.len() {
        println!("no context of {id} could be decided");
        2
    } else {
        0
    }
}
