//! Obligations about the geometry of images: which constructor arguments are accepted and which bytes the
//! planes of an image, of a cropped image and of a newly allocated one consist of.
use crate::conv::*;
use crate::ctx::*;
use crate::exec::*;
use crate::ir::*;
use crate::spec::layout;
use crate::state::*;
use crate::term::*;

/// the root that is called, with the image format it is called for
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Geo {
    /// window at even coordinates (or any, for formats without subsampling)
    Crop { root: &'static str, aligned: bool, nested: bool },
    Uncrop,
    /// accessors through a reference
    Fwd { root: &'static str },
    /// one buffer, `ns` strides (None: packed)
    Buffer { root: &'static str, ns: Option<usize> },
    /// `np` buffers
    Planes { root: &'static str, np: usize, ns: Option<usize> },
    Blank { root: &'static str },
    Infer { root: &'static str, ns: Option<usize> },
    Strides,
    Size,
    Bits,
    Check { np: usize },
    CheckImage { np: usize },
}

/// what a plane has to look like when `guard` terms are all >= 0
struct WantPlane {
    obj: Obj,
    off: T,
    min: T,
    max: T,
    stride: Option<T>,
    guard: Vec<T>,
}
/// everything that is expected of an exit, in the terms of that exit's state
#[derive(Default)]
struct Want {
    /// terms >= 0 exactly when the arguments are valid
    valid: Vec<(T, String)>,
    /// a reason why no arguments are valid
    never: Option<String>,
    /// more that valid arguments satisfy, and others may
    valid_only: Vec<T>,
    nowrap: Vec<T>,
    planes: Vec<WantPlane>,
    w: Option<T>,
    h: Option<T>,
}

struct Args {
    vals: Vec<V>,
    /// parameter indices
    w: usize,
    h: usize,
    win: Vec<usize>,
    lens: Vec<Obj>,
    strides: Vec<usize>,
}

/// sizes are analysed in classes: an exact one, or everything from some size on
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sz {
    Is(i128),
    From(i128),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tall {
    w: Sz,
    h: Sz,
}
pub fn classes(fmt: &str) -> Vec<Tall> {
    let lay = layout(fmt);
    let xd = lay.planes.iter().map(|p| p.xd).max().unwrap_or(1);
    let yd = lay.planes.iter().map(|p| p.yd).max().unwrap_or(1);
    let pair = lay.planes.iter().any(|p| p.xd > 1 && p.group.len() > 1);
    let ex = |d: i128, even: bool| -> Vec<Sz> {
        let mut v = vec![Sz::From(2 * d)];
        v.extend((0..2 * d).rev().filter(|n| !even || n % 2 == 0).map(Sz::Is));
        v
    };
    let (ws, hs) = (ex(xd, pair), ex(yd, false));
    let mut v: Vec<Tall> = hs.iter().map(|h| Tall { w: ws[0], h: *h }).collect();
    v.extend(ws[1..].iter().map(|w| Tall { w: *w, h: hs[0] }));
    v
}

pub fn describe(g: &Geo, fmt: &str, t: Tall) -> String {
    let f = |x: Sz| match x {
        Sz::Is(n) => format!("{n}"),
        Sz::From(n) => format!(">= {n}"),
    };
    format!("{g:?} {fmt}, width {}, height {}", f(t.w), f(t.h))
}

fn slice(an: &mut An, st: &mut State, name: &str, n: u32, len: Option<T>) -> (V, Obj) {
    let len = len.unwrap_or_else(|| an.tm.sym(name, 0, i64::MAX as i128));
    let o = an.new_buf(st, len, BufKind::Param(n));
    let z = an.tm.int(0);
    let p = an.tm.ptr(o, z);
    (V::A(vec![Cell { off: 0, size: 8, v: p }, Cell { off: 8, size: 8, v: len }], 16), o)
}
/// a slice of usizes with the given contents
fn usizes(an: &mut An, st: &mut State, ts: &[T]) -> V {
    let o = an.new_mem(st, 8 * ts.len() as u64);
    for (i, t) in ts.iter().enumerate() {
        let off = an.tm.int(8 * i as i128);
        let _ = an.write_t(st, Addr { obj: o, off }, *t, 8);
    }
    let z = an.tm.int(0);
    let p = an.tm.ptr(o, z);
    let n = an.tm.int(ts.len() as i128);
    V::A(vec![Cell { off: 0, size: 8, v: p }, Cell { off: 8, size: 8, v: n }], 16)
}

pub fn run_geo<'p>(p: &'p Program, g: &Geo, fmt: &'static str, color: &Color, tall: Tall) -> Result<(Run<'p>, Sink), String> {
    let mut an = An::new(p);
    let mut st = State::new();
    let lay = layout(fmt);
    let sub = lay.planes.iter().any(|p| p.xd > 1 || p.yd > 1);
    let root = match g {
        Geo::Crop { root, .. } | Geo::Fwd { root } | Geo::Buffer { root, .. } | Geo::Planes { root, .. } | Geo::Blank { root } | Geo::Infer { root, .. } => root,
        Geo::Uncrop => "r_list_uncrop",
        Geo::Strides => "r_list_strides",
        Geo::Size => "r_buffer_size",
        Geo::Bits => "r_bits",
        Geo::Check { .. } => "r_check_planes",
        Geo::CheckImage { .. } => "r_check_image",
    };
    let f = an.root(root)?;
    let nparam = p.funcs[f as usize].argc as usize;
    let z = an.tm.int(0);
    // one plane holds pairs of pixels
    let pair = lay.planes.iter().any(|p| p.xd > 1 && p.group.len() > 1);
    let half = pair || matches!(g, Geo::Crop { aligned: true, .. });
    let mut dim = |an: &mut An, st: &mut State, name: &str, even: bool| -> usize {
        let mut t = an.tm.sym(name, 0, if even { i64::MAX as i128 } else { u64::MAX as i128 });
        if even {
            t = an.tm.mulc(t, 2);
        }
        an.add_param(st, t)
    };
    // the picture; widths of formats that group pixels horizontally in one plane are even
    let size = |an: &mut An, st: &mut State, name: &str, z: Sz, even: bool| -> usize {
        let t = match z {
            Sz::Is(n) => an.tm.int(n),
            Sz::From(n) => {
                let mut t = an.tm.sym(name, 0, if even { (u64::MAX / 2) as i128 - n } else { u64::MAX as i128 - n });
                if even {
                    t = an.tm.mulc(t, 2);
                }
                an.tm.addc(t, n)
            }
        };
        an.add_param(st, t)
    };
    let w = size(&mut an, &mut st, "w", tall.w, pair);
    let h = size(&mut an, &mut st, "h", tall.h, false);
    let mut a = Args { vals: vec![], w, h, win: vec![], lens: vec![], strides: vec![] };
    let fv = an.mk_format(fmt)?;
    let cv = an.mk_color(color)?;
    let s8 = |st: &State, i: usize| V::S(st.params[i], 8);
    let mut image = false;
    let add_strides = |an: &mut An, st: &mut State, a: &mut Args, ns: Option<usize>| -> V {
        let n = ns.unwrap_or(0);
        let mut ts = vec![];
        for i in 0..n {
            let t = an.tm.sym(&format!("stride{i}"), 0, u64::MAX as i128);
            a.strides.push(an.add_param(st, t));
            ts.push(t);
        }
        usizes(an, st, &ts)
    };
    match g {
        Geo::Crop { .. } | Geo::Uncrop | Geo::Fwd { .. } | Geo::CheckImage { .. } => {
            let n = if let Geo::CheckImage { np } = g { *np } else { nplanes(fmt) };
            let (i, v) = an.add_image(&mut st, "img", fmt, color, w, h, n, true)?;
            a.vals.push(v);
            a.lens = an.imgs[i].planes.iter().map(|p| p.0).collect();
            a.strides = an.imgs[i].planes.iter().map(|p| p.1).collect();
            image = true;
            let names: &[&str] = match g {
                Geo::Crop { nested: true, .. } => &["x", "y", "x2", "y2", "cw", "ch", "cw2", "ch2"],
                Geo::Crop { .. } | Geo::Uncrop => &["x", "y", "cw", "ch"],
                _ => &[],
            };
            for n in names {
                let i = dim(&mut an, &mut st, n, half);
                a.win.push(i);
                a.vals.push(s8(&st, i));
            }
        }
        Geo::Buffer { ns, .. } => {
            let (b, o) = slice(&mut an, &mut st, "buffer.len", 0, None);
            a.lens.push(o);
            let s = add_strides(&mut an, &mut st, &mut a, *ns);
            a.vals.extend([fv.clone(), b]);
            if ns.is_some() {
                a.vals.push(s);
            }
            a.vals.extend([s8(&st, w), s8(&st, h), cv.clone()]);
        }
        Geo::Planes { root, np, ns } => {
            let mut fat = vec![];
            for i in 0..*np {
                let (b, o) = slice(&mut an, &mut st, &format!("plane{i}.len"), i as u32, None);
                a.lens.push(o);
                let V::A(c, _) = b else { unreachable!() };
                fat.push(c);
            }
            let s = add_strides(&mut an, &mut st, &mut a, *ns);
            a.vals.push(fv.clone());
            if root.ends_with("_mut") {
                let e = an.tm.int(0);
                let (empty, _) = slice(&mut an, &mut st, "empty", 9, Some(e));
                let V::A(ec, _) = empty else { unreachable!() };
                let mut cells = vec![];
                for i in 0..4 {
                    for c in fat.get(i).unwrap_or(&ec) {
                        cells.push(Cell { off: c.off + 16 * i as u64, ..c.clone() });
                    }
                }
                a.vals.push(V::A(cells, 64));
                let n = an.tm.int(*np as i128);
                a.vals.push(V::S(n, 8));
            } else {
                let o = an.new_mem(&mut st, 16 * *np as u64);
                for (i, c) in fat.iter().enumerate() {
                    for c in c {
                        let off = an.tm.int((16 * i as u64 + c.off) as i128);
                        let _ = an.write_t(&mut st, Addr { obj: o, off }, c.v, 8);
                    }
                }
                let ptr = an.tm.ptr(o, z);
                let n = an.tm.int(*np as i128);
                a.vals.push(V::A(vec![Cell { off: 0, size: 8, v: ptr }, Cell { off: 8, size: 8, v: n }], 16));
            }
            if ns.is_some() {
                a.vals.push(s);
            }
            a.vals.extend([s8(&st, w), s8(&st, h), cv.clone()]);
        }
        Geo::Blank { .. } => a.vals.extend([fv.clone(), s8(&st, w), s8(&st, h), cv.clone()]),
        Geo::Infer { ns, .. } => {
            let (b, o) = slice(&mut an, &mut st, "buffer.len", 0, None);
            a.lens.push(o);
            let s = add_strides(&mut an, &mut st, &mut a, *ns);
            let packed = an.tm.int(ns.is_none() as i128);
            a.vals.extend([fv.clone(), b, s, V::S(packed, 1), s8(&st, w), s8(&st, h)]);
        }
        Geo::Strides => a.vals.extend([fv.clone(), s8(&st, w)]),
        Geo::Size => a.vals.extend([fv.clone(), s8(&st, w), s8(&st, h)]),
        Geo::Bits => a.vals.push(fv.clone()),
        Geo::Check { np } => {
            // (&[u8], usize) pairs
            let sl = p.funcs[f as usize].locals[2].ty;
            let tup = match an.pointee(sl).map(|t| &p.tys[t as usize].kind) {
                Some(TyKind::Slice { elem }) => *elem,
                _ => return Err("argument type of r_check_planes".into()),
            };
            let fs = an.fields(tup);
            let sz = an.size_of(tup);
            let o = an.new_mem(&mut st, sz * *np as u64);
            for i in 0..*np {
                let (b, bo) = slice(&mut an, &mut st, &format!("plane{i}.len"), i as u32, None);
                a.lens.push(bo);
                let t = an.tm.sym(&format!("stride{i}"), 0, u64::MAX as i128);
                a.strides.push(an.add_param(&mut st, t));
                let V::A(c, _) = b else { unreachable!() };
                for c in c {
                    let off = an.tm.int((sz * i as u64 + fs[0].0 + c.off) as i128);
                    let _ = an.write_t(&mut st, Addr { obj: o, off }, c.v, 8);
                }
                let off = an.tm.int((sz * i as u64 + fs[1].0) as i128);
                let _ = an.write_t(&mut st, Addr { obj: o, off }, t, 8);
            }
            let ptr = an.tm.ptr(o, z);
            let n = an.tm.int(*np as i128);
            a.vals.extend([fv.clone(), V::A(vec![Cell { off: 0, size: 8, v: ptr }, Cell { off: 8, size: 8, v: n }], 16), s8(&st, w), s8(&st, h)]);
        }
    }
    let _ = (sub, image);
    // the output argument
    let mut out = None;
    if a.vals.len() + 1 == nparam {
        let ty = p.funcs[f as usize].locals[nparam].ty;
        let lt = an.pointee(ty).ok_or("output argument")?;
        let o = an.new_mem(&mut st, an.size_of(lt));
        let ptr = an.tm.ptr(o, z);
        a.vals.push(V::S(ptr, 8));
        out = Some((o, lt));
    }
    if a.vals.len() != nparam {
        return Err(format!("{root} takes {nparam} arguments"));
    }
    let rty = p.funcs[f as usize].locals[0].ty;
    let rsz = an.size_of(rty);
    let res = an.new_mem(&mut st, rsz);
    an.trace = std::env::var("TRACE").is_ok();
    let vals = std::mem::take(&mut a.vals);
    let outs = an.call(st, f, vals, Addr { obj: res, off: z });
    let mut r = Run { an, outs, res, rty, nsrc: 1 };
    let sink = check_geo(&mut r, g, fmt, color, &a, out, tall)?;
    Ok((r, sink))
}

/// what is expected, in the terms of state `st`
fn want(an: &mut An, st: &State, g: &Geo, fmt: &str, a: &Args) -> Want {
    let lay = layout(fmt);
    let mut x = Want::default();
    let (w, h) = (st.params[a.w], st.params[a.h]);
    let np = lay.planes.len();
    let len_of = |an: &mut An, i: usize| -> T {
        match a.lens.get(i).and_then(|o| an.obj(st, *o)).as_deref() {
            Some(ObjK::Buf { len, .. }) => *len,
            _ => an.tm.int(0),
        }
    };
    // rows and bytes of a row of each plane, for a picture of the given size
    let row_bytes = |an: &mut An, i: usize, w: T| -> T {
        let p = &lay.planes[i];
        let gb = lay.gbytes(i);
        // packed 4:2:2 stores two bytes per pixel, whatever the width
        if gb % p.xd == 0 && p.group.iter().any(|s| s.1 > 0) {
            return an.tm.mulc(w, gb / p.xd);
        }
        let gr = an.tm.divc(w, p.xd);
        an.tm.mulc(gr, gb)
    };
    let rows = |an: &mut An, i: usize, h: T| -> T { an.tm.divc(h, lay.planes[i].yd) };
    let one = an.tm.int(1);
    let z = an.tm.int(0);
    let max = an.tm.int(u64::MAX as i128);
    let imax = an.tm.int(i64::MAX as i128);
    x.w = Some(w);
    x.h = Some(h);
    let (mut rb, mut rw) = (vec![], vec![]);
    for i in 0..np {
        rb.push(row_bytes(an, i, w));
        rw.push(rows(an, i, h));
    }
    // sizes that fit the address space
    for i in 0..np {
        let n = lay.planes[i].group.len() as i128 * lay.bytes as i128;
        let m = an.tm.mulc(w, n);
        x.nowrap.push(an.tm.sub(max, m));
    }
    let stride = |an: &An, i: usize| -> T {
        let _ = an;
        a.strides.get(i).map(|s| st.params[*s]).unwrap_or(rb[i])
    };
    // images whose planes are separate
    let separate = |an: &mut An, x: &mut Want| {
        if a.lens.len() < np {
            x.never = Some("a plane is missing".into());
            return;
        }
        for i in 0..np {
            let s = stride(an, i);
            x.valid.push((an.tm.sub(s, rb[i]), format!("stride of plane {i}")));
            if an.tm.as_int(rw[i]) == Some(0) {
                continue;
            }
            // (rows - 1) * stride + row bytes
            let n = an.tm.mul(rw[i], s);
            let n = an.tm.sub(n, s);
            let n = an.tm.add(n, rb[i]);
            let l = len_of(an, i);
            x.valid.push((an.tm.sub(l, n), format!("size of plane {i}")));
            x.nowrap.push(an.tm.sub(max, n));
        }
    };
    // images whose planes follow one another in one buffer
    let joined = |an: &mut An, x: &mut Want, len: T| -> Vec<T> {
        let mut off = z;
        let mut offs = vec![];
        for i in 0..np {
            let s = stride(an, i);
            x.valid.push((an.tm.sub(s, rb[i]), format!("stride of plane {i}")));
            let n = an.tm.mul(rw[i], s);
            x.nowrap.push(an.tm.sub(max, n));
            let n1 = an.tm.sub(n, s);
            let n1 = an.tm.add(n1, rb[i]);
            let end = an.tm.add(off, n1);
            if an.tm.as_int(rw[i]) != Some(0) {
                let d = an.tm.sub(len, end);
                // a plane without bytes may lie past the end
                if an.tm.as_int(rb[i]) == Some(0) {
                    x.valid_only.push(d);
                } else {
                    x.valid.push((d, format!("size of plane {i}")));
                }
            }
            offs.push(off);
            off = an.tm.add(off, n);
            x.nowrap.push(an.tm.sub(max, off));
        }
        offs
    };
    let nonempty = |an: &mut An, x: &mut Want| {
        x.valid.push((an.tm.addc(w, -1), "width".into()));
        x.valid.push((an.tm.addc(h, -1), "height".into()));
    };
    let plane = |an: &mut An, obj: Obj, off: T, rows: T, s: T, rb: T, st_: Option<T>| -> WantPlane {
        let max = an.tm.mul(rows, s);
        let min = an.tm.sub(max, s);
        let min = an.tm.add(min, rb);
        let g1 = an.tm.sub(rows, one);
        let g2 = an.tm.sub(rb, one);
        WantPlane { obj, off, min, max, stride: st_, guard: vec![g1, g2] }
    };
    match g {
        Geo::Crop { nested, .. } => {
            separate(an, &mut x);
            let q: Vec<T> = a.win.iter().map(|i| st.params[*i]).collect();
            let (wx, wy, ww, wh) = if *nested {
                // the outer window lies in the picture, the inner one in the outer one
                let (cx, cy) = (an.tm.add(q[0], q[4]), an.tm.add(q[1], q[5]));
                x.valid.push((an.tm.sub(w, cx), "outer window".into()));
                x.valid.push((an.tm.sub(h, cy), "outer window".into()));
                let (ix, iy) = (an.tm.add(q[2], q[6]), an.tm.add(q[3], q[7]));
                x.valid.push((an.tm.sub(q[4], ix), "inner window".into()));
                x.valid.push((an.tm.sub(q[5], iy), "inner window".into()));
                x.nowrap.push(an.tm.addc(q[4], -1));
                x.nowrap.push(an.tm.addc(q[5], -1));
                (an.tm.add(q[0], q[2]), an.tm.add(q[1], q[3]), q[6], q[7])
            } else {
                let (cx, cy) = (an.tm.add(q[0], q[2]), an.tm.add(q[1], q[3]));
                x.valid.push((an.tm.sub(w, cx), "window".into()));
                x.valid.push((an.tm.sub(h, cy), "window".into()));
                (q[0], q[1], q[2], q[3])
            };
            x.w = Some(ww);
            x.h = Some(wh);
            // empty windows are of no use; offsets may overflow at the end of the last row
            x.nowrap.push(an.tm.addc(ww, -1));
            x.nowrap.push(an.tm.addc(wh, -1));
            if x.never.is_none() {
                for i in 0..np {
                    let s = stride(an, i);
                    let (xo, yo) = (row_bytes(an, i, wx), rows(an, i, wy));
                    let o = an.tm.mul(yo, s);
                    let off = an.tm.add(o, xo);
                    let (r, b) = (rows(an, i, wh), row_bytes(an, i, ww));
                    let wp = plane(an, a.lens[i], off, r, s, b, Some(s));
                    x.planes.push(wp);
                }
            }
        }
        Geo::Uncrop => {
            separate(an, &mut x);
            let q: Vec<T> = a.win.iter().map(|i| st.params[*i]).collect();
            let (cx, cy) = (an.tm.add(q[0], q[2]), an.tm.add(q[1], q[3]));
            x.valid.push((an.tm.sub(w, cx), "window".into()));
            x.valid.push((an.tm.sub(h, cy), "window".into()));
            for i in 0..np {
                let (s, l) = (stride(an, i), len_of(an, i));
                x.planes.push(WantPlane { obj: a.lens[i], off: z, min: l, max: l, stride: Some(s), guard: vec![] });
            }
        }
        Geo::Fwd { .. } => {
            for i in 0..np {
                let (s, l) = (stride(an, i), len_of(an, i));
                x.planes.push(WantPlane { obj: a.lens[i], off: z, min: l, max: l, stride: Some(s), guard: vec![] });
            }
        }
        Geo::Buffer { ns, .. } => {
            nonempty(an, &mut x);
            if ns.map(|n| n < np).unwrap_or(false) {
                x.never = Some("a stride is missing".into());
                let mut off = z;
                for i in 0..ns.unwrap_or(0) {
                    let s = stride(an, i);
                    let n = an.tm.mul(rw[i], s);
                    x.nowrap.push(an.tm.sub(max, n));
                    off = an.tm.add(off, n);
                    x.nowrap.push(an.tm.sub(max, off));
                }
            } else {
                let l = len_of(an, 0);
                let offs = joined(an, &mut x, l);
                for i in 0..np {
                    let s = stride(an, i);
                    let wp = plane(an, a.lens[0], offs[i], rw[i], s, rb[i], Some(s));
                    x.planes.push(wp);
                }
            }
        }
        Geo::Planes { ns, .. } => {
            nonempty(an, &mut x);
            if ns.map(|n| n < np).unwrap_or(false) {
                x.never = Some("a stride is missing".into());
            } else {
                separate(an, &mut x);
            }
            if x.never.is_none() {
                for i in 0..np {
                    let (s, l) = (stride(an, i), len_of(an, i));
                    x.planes.push(WantPlane { obj: a.lens[i], off: z, min: l, max: l, stride: Some(s), guard: vec![] });
                }
            }
        }
        Geo::Blank { .. } | Geo::Size | Geo::Infer { .. } => {
            let mut off = z;
            for i in 0..np {
                let s = stride(an, i);
                let n = an.tm.mul(rw[i], s);
                x.nowrap.push(an.tm.sub(imax, n));
                // the object is found out from the result
                let obj = a.lens.first().copied().unwrap_or(NOOBJ);
                let mut max = n;
                if matches!(g, Geo::Infer { .. }) && i + 1 == np {
                    // the last plane may extend to the end of the buffer
                    let l = len_of(an, 0);
                    max = an.tm.sub(l, off);
                }
                x.planes.push(WantPlane { obj, off, min: n, max, stride: if matches!(g, Geo::Blank { .. }) { Some(s) } else { None }, guard: vec![] });
                off = an.tm.add(off, n);
                x.nowrap.push(an.tm.sub(imax, off));
            }
            if let Geo::Infer { ns, .. } = g {
                let l = len_of(an, 0);
                let fits = an.tm.sub(l, off);
                for p in x.planes.iter_mut() {
                    p.guard.push(fits);
                }
                // documented to panic if the buffer is too small
                let l = len_of(an, 0);
                x.nowrap.push(an.tm.sub(l, off));
                if ns.map(|n| n != np).unwrap_or(false) {
                    x.never = Some("wrong number of strides".into());
                }
            }
        }
        Geo::Strides | Geo::Bits => {}
        Geo::Check { .. } | Geo::CheckImage { .. } => separate(an, &mut x),
    }
    x
}

fn check_geo(run: &mut Run, g: &Geo, fmt: &str, color: &Color, a: &Args, out: Option<(Obj, TyId)>, tall: Tall) -> Result<Sink, String> {
    let mut sink = Sink::new(describe(g, fmt, tall));
    common_events(&mut run.an, &mut sink);
    let outs = run.outs.clone();
    let like = outs.first().cloned().unwrap_or(State::new());
    let an = &mut run.an;
    let lay = layout(fmt);
    // panics
    let evs: Vec<Event> = an.events.iter().filter(|e| e.kind == EvKind::Panic).cloned().collect();
    for e in &evs {
        let st = ev_state(an, e, &like);
        let x = want(an, &st, g, fmt, a);
        if matches!(g, Geo::Infer { .. }) && x.never.is_some() {
            continue;
        }
        let f = feasible(an, &st, &x.nowrap, &[]);
        let (k, l) = where_(an, &e.stack);
        let p = path_(an, &e.stack);
        sink.check(!f, Class::Panic, || (format!("{k}:{}", ev_kind(&e.msg)), format!("panic \"{}\" can be reached at {l} via {p}", e.msg.chars().take(200).collect::<String>())));
    }
    let place = format!("{g:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
    let z = an.tm.int(0);
    let mut nok = 0;
    if outs.is_empty() {
        let st = State::new();
        let x = if st.params.is_empty() { None } else { Some(want(an, &st, g, fmt, a)) };
        let _ = x;
        if !(matches!(g, Geo::Infer { ns: Some(n), .. } if *n != lay.planes.len())) {
            sink.bad(Class::Undecided, "no outcome".into(), "no outcome was derived".into());
        }
        return Ok(sink);
    }
    for s in &outs {
        let mut s = s.clone();
        let x = want(an, &s, g, fmt, a);
        // plain results
        match g {
            Geo::Size => {
                let r = an.read(&mut s, Addr { obj: run.res, off: z }, 8, &Kind::Int(64, false))?;
                let mut t = z;
                for p in &x.planes {
                    t = an.tm.add(t, p.max);
                }
                let ok = same(an, &s, r, t);
                let (a, b) = (an.tm.show(r), an.tm.show(t));
                sink.check(ok, Class::Geometry, || (place.clone(), format!("buffer_size of {fmt} is {a}, not {b}")));
                continue;
            }
            Geo::Bits => {
                let r = an.read(&mut s, Addr { obj: run.res, off: z }, 8, &Kind::Int(64, false))?;
                let ok = an.tm.as_int(r) == Some(lay.bits as i128);
                let a = an.tm.show(r);
                sink.check(ok, Class::Geometry, || (place.clone(), format!("bits_per_component of {fmt} is {a}, not {}", lay.bits)));
                continue;
            }
            Geo::Strides => {
                let (o, _) = out.ok_or("output")?;
                let off = an.tm.int(32);
                let n = an.read(&mut s, Addr { obj: o, off }, 8, &Kind::Int(64, false))?;
                let n = an.tm.as_int(n);
                let np = lay.planes.len();
                sink.check(n == Some(np as i128), Class::Geometry, || (place.clone(), format!("packed_strides of {fmt} yields {n:?} strides, not {np}")));
                if n == Some(np as i128) {
                    let w = s.params[a.w];
                    for i in 0..np {
                        let off = an.tm.int(8 * i as i128);
                        let t = an.read(&mut s, Addr { obj: o, off }, 8, &Kind::Int(64, false))?;
                        let p = &lay.planes[i];
                        let e = if p.group.iter().any(|q| q.1 > 0) {
                            an.tm.mulc(w, lay.gbytes(i) / p.xd)
                        } else {
                            let d = an.tm.divc(w, p.xd);
                            an.tm.mulc(d, lay.gbytes(i))
                        };
                        let ok = same(an, &s, t, e);
                        let (a, b) = (an.tm.show(t), an.tm.show(e));
                        sink.check(ok, Class::Geometry, || (place.clone(), format!("packed stride {i} of {fmt} is {a}, not {b}")));
                    }
                }
                continue;
            }
            _ => {}
        }
        let ok = if matches!(g, Geo::Blank { .. }) {
            true
        } else {
            let r = an.read(&mut s, Addr { obj: run.res, off: z }, 1, &Kind::Bool)?;
            match an.tm.as_int(r) {
                Some(v) => v != 0,
                None => {
                    sink.bad(Class::Undecided, "outcome".into(), "accepted or refused is not determined".into());
                    continue;
                }
            }
        };
        let cond: Vec<String> = s.conds.iter().map(|c| an.tm.show(*c)).collect();
        let cond = cond.join(", ");
        if !ok {
            if x.never.is_some() {
                sink.ok(Class::Reject);
                continue;
            }
            // refused implies invalid
            let valid: Vec<T> = x.valid.iter().map(|v| v.0).chain(x.valid_only.iter().copied()).collect();
            let f = feasible(an, &s, &valid, &[]);
            sink.check(!f, Class::Reject, || (format!("{place}:refused"), format!("{fmt}: valid arguments may be refused (when {cond})")));
            continue;
        }
        nok += 1;
        if let Some(r) = &x.never {
            if !matches!(g, Geo::Infer { .. }) {
                sink.bad(Class::Reject, format!("{place}:accepted"), format!("{fmt}: accepted although {r}"));
            }
            continue;
        }
        // accepted implies valid
        for (t, what) in &x.valid {
            let ok = gprove(an, &s, *t);
            sink.check(ok, Class::Reject, || (format!("{place}:{what}"), format!("{fmt}: accepted although the {what} may be invalid (when {cond})")));
        }
        let Some((o, lt)) = out else { continue };
        let at = |an: &mut An, s: &mut State, off: i128, k: &Kind| -> Result<T, String> {
            let off = an.tm.int(off);
            an.read(s, Addr { obj: o, off }, 8, k)
        };
        let int = Kind::Int(64, false);
        // the listing
        let fs = an.fields(lt);
        let n = at(an, &mut s, fs[1].0 as i128, &int)?;
        let n = an.tm.as_int(n);
        let np = lay.planes.len();
        let enough = match (g, n) {
            (Geo::Infer { .. } | Geo::Blank { .. }, Some(n)) => n == np as i128,
            (_, Some(n)) => n >= np as i128,
            _ => false,
        };
        sink.check(enough, Class::Geometry, || (format!("{place}:planes"), format!("{fmt}: {n:?} planes are delivered, {np} expected")));
        if !enough {
            continue;
        }
        if !matches!(g, Geo::Infer { .. }) {
            for (i, e, what) in [(2, x.w, "width"), (3, x.h, "height")] {
                let t = at(an, &mut s, fs[i].0 as i128, &int)?;
                let ok = same(an, &s, t, e.unwrap());
                let (a, b) = (an.tm.show(t), an.tm.show(e.unwrap()));
                sink.check(ok, Class::Geometry, || (format!("{place}:{what}"), format!("{fmt}: {what} is {a}, not {b}")));
            }
            let fv = an.mk_format(fmt)?;
            let cv = an.mk_color(color)?;
            for (i, e, what) in [(4, fv, "format"), (5, cv, "color")] {
                let off = an.tm.int(fs[i].0 as i128);
                let sz = an.size_of(fs[i].1);
                let c = an.read_cells(&mut s, Addr { obj: o, off }, sz)?;
                let V::A(e, _) = e else { continue };
                let ok = e.iter().all(|x| c.iter().any(|y| y.off == x.off && y.size == x.size && y.v == x.v));
                sink.check(ok, Class::Geometry, || (format!("{place}:{what}"), format!("{fmt}: {what} is not the one given")));
            }
        }
        let mut blank = None;
        for (i, p) in x.planes.iter().enumerate() {
            let mut s2 = s.clone();
            let mut void = false;
            for q in &p.guard {
                let c = an.tm.ge0(*q);
                void |= !an.assume(&mut s2, c);
            }
            if void {
                sink.ok(Class::Geometry);
                continue;
            }
            let b = fs[0].0 as i128 + 24 * i as i128;
            let ptr = at(an, &mut s2, b, &Kind::Ptr)?;
            let len = at(an, &mut s2, b + 8, &int)?;
            let stride = at(an, &mut s2, b + 16, &int)?;
            // what was assumed may have renamed the terms
            let x2 = want(an, &s2, g, fmt, a);
            let p = &x2.planes[i];
            let pa = an.addr_of(ptr);
            if matches!(g, Geo::Blank { .. }) {
                // one allocation, all zero, exactly as long as the planes
                let nm = an.tm.neg(p.max);
                if gprove(an, &s2, nm) {
                    continue;
                }
                let first = *blank.get_or_insert(pa.obj);
                sink.check(pa.obj == first, Class::Geometry, || (format!("{place}:buffer"), format!("{fmt}: plane {i} lies in another buffer")));
                if pa.obj == NOOBJ {
                    sink.bad(Class::Undecided, format!("{place}:buffer"), format!("{fmt}: buffer of plane {i} is not known"));
                    continue;
                }
            } else {
                let is_empty = { let n = an.tm.neg(p.max); gprove(an, &s2, n) };
                let ok = pa.obj == p.obj || is_empty;
                sink.check(ok, Class::Geometry, || (format!("{place}:buffer"), format!("{fmt}: plane {i} lies in the wrong memory")));
                if !ok || is_empty {
                    continue;
                }
            }
            let ok = same(an, &s2, pa.off, p.off);
            let (t, e) = (an.tm.show(pa.off), an.tm.show(p.off));
            sink.check(ok, Class::Geometry, || (format!("{place}:offset"), format!("{fmt}: plane {i} starts at byte {t}, not {e}")));
            let (d1, d2) = (an.tm.sub(len, p.min), an.tm.sub(p.max, len));
            let ok = gprove(an, &s2, d1) && gprove(an, &s2, d2);
            let (t, e, e2) = (an.tm.show(len), an.tm.show(p.min), an.tm.show(p.max));
            sink.check(ok, Class::Geometry, || (format!("{place}:length"), format!("{fmt}: plane {i} has {t} bytes, expected {e} to {e2}")));
            if let Some(e) = p.stride {
                let ok = same(an, &s2, stride, e);
                let (t, e) = (an.tm.show(stride), an.tm.show(e));
                sink.check(ok, Class::Geometry, || (format!("{place}:stride"), format!("{fmt}: plane {i} has stride {t}, not {e}")));
            }
        }
        if let (Geo::Blank { .. }, Some(b)) = (g, blank) {
            match an.obj(&s, b).as_deref() {
                Some(ObjK::Buf { len, kind }) => {
                    let mut t = z;
                    for p in &x.planes {
                        t = an.tm.add(t, p.max);
                    }
                    let ok = same(an, &s, *len, t) && *kind == (BufKind::Heap { zeroed: true });
                    let (a, b) = (an.tm.show(*len), an.tm.show(t));
                    sink.check(ok, Class::Geometry, || (format!("{place}:allocation"), format!("{fmt}: the buffer has {a} bytes and not {b} zero bytes")));
                }
                _ => {}
            }
        }
    }
    let x = want(an, &outs[0], g, fmt, a);
    if nok == 0 && x.never.is_none() && matches!(tall, Tall { w: Sz::From(_), h: Sz::From(_) }) && !matches!(g, Geo::Size | Geo::Bits | Geo::Strides) {
        sink.bad(Class::Reject, format!("{place}:never"), format!("{fmt}: no arguments are accepted"));
    }
    Ok(sink)
}

fn same(an: &mut An, s: &State, a: T, b: T) -> bool {
    if a == b {
        return true;
    }
    let d = an.tm.sub(a, b);
    let n = an.tm.neg(d);
    if gprove(an, s, d) && gprove(an, s, n) {
        return true;
    }
    let d = resolve(an, s, d);
    let n = an.tm.neg(d);
    if gprove(an, s, d) && gprove(an, s, n) {
        return true;
    }
    if has_minmax(an, d) {
        let s = halved(an, s);
        let d = resolve(an, &s, d);
        let n = an.tm.neg(d);
        return gprove(an, &s, d) && gprove(an, &s, n);
    }
    false
}
fn has_minmax(an: &An, t: T) -> bool {
    matches!(an.tm.n(t), N::IOp { k: IK::Min | IK::Max, .. }) || an.tm.children(t).into_iter().any(|c| has_minmax(an, c))
}
/// consequences of the facts that products need: 2*a + h >= 0 as a + h/2 >= 0, and that with a positive number in it at its least
fn halved(an: &mut An, s: &State) -> State {
    let mut s = s.clone();
    for f in s.facts.clone() {
        let v = an.tm.poly(f);
        let odd: Vec<(Mono, i128)> = v.iter().filter(|x| x.1 % 2 != 0).copied().collect();
        let [(h, 1)] = odd[..] else { continue };
        if h[0] == 0 || h[1] != 0 || v.iter().any(|x| x.0[1] != 0) {
            continue;
        }
        let rest: Vec<(Mono, i128)> = v.iter().filter(|x| x.0 != h).map(|x| (x.0, x.1 / 2)).collect();
        let a = an.tm.mk_poly(rest.clone());
        let hh = an.tm.divc(h[0], 2);
        let g = an.tm.add(a, hh);
        s.facts.push(g);
    }
    // sums in which a variable cancels
    let lin = |an: &An, f: T| an.tm.poly(f).iter().all(|x| x.0[1] == 0 && (x.0[0] == 0 || x.1.abs() == 1));
    let base: Vec<T> = s.facts.iter().copied().filter(|f| lin(an, *f)).collect();
    for f in &base {
        for g in &base {
            let (vf, vg) = (an.tm.poly(*f), an.tm.poly(*g));
            if vf.iter().any(|x| x.0[0] != 0 && vg.iter().any(|y| y.0 == x.0 && y.1 == -x.1)) {
                let h = an.tm.add(*f, *g);
                if an.tm.poly(h).len() <= 5 && lin(an, h) && !s.facts.contains(&h) {
                    s.facts.push(h);
                }
            }
        }
    }
    // numbers that are at least 1, at their least
    for f in s.facts.clone() {
        if !lin(an, f) {
            continue;
        }
        for (m, k) in an.tm.poly(f) {
            if m[0] == 0 || k >= 0 {
                continue;
            }
            let one = an.tm.addc(m[0], -1);
            if an.prove(&s, one) {
                let g = an.tm.add(f, one);
                if !s.facts.contains(&g) && an.tm.as_int(g).is_none() {
                    s.facts.push(g);
                }
            }
        }
    }
    s
}
/// minima and maxima that the facts decide, innermost first
fn resolve(an: &mut An, s: &State, t: T) -> T {
    let mut t = t;
    let mut tried: rustc_hash::FxHashSet<T> = Default::default();
    loop {
        let mut found = vec![];
        let mut seen: rustc_hash::FxHashSet<T> = Default::default();
        let mut todo = vec![t];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let N::IOp { k: IK::Min | IK::Max, a, .. } = an.tm.n(x) {
                if a.len() == 2 && !tried.contains(&x) {
                    found.push(x);
                }
            }
            todo.extend(an.tm.children(x));
        }
        found.sort_unstable();
        let Some(x) = found.first().copied() else { return t };
        tried.insert(x);
        let N::IOp { k, a, .. } = an.tm.n(x).clone() else { return t };
        let (lo, hi) = if k == IK::Min { (a[0], a[1]) } else { (a[1], a[0]) };
        let (d, n) = (an.tm.sub(hi, lo), an.tm.sub(lo, hi));
        let r = if gprove(an, s, d) {
            a[0]
        } else if gprove(an, s, n) {
            a[1]
        } else {
            continue;
        };
        t = an.tm.rewrite(t, x, r, &mut Default::default());
    }
}
fn gprove(an: &mut An, s: &State, t: T) -> bool {
    let mut r = an.prove(s, t) || an.prove_deep(&s.facts, t, 4);
    if !r {
        // a minimum is large enough when both arguments are
        let m = an.tm.poly(t).into_iter().find_map(|(m, k)| match an.tm.n(m[0]) {
            N::IOp { k: IK::Min, a, .. } if m[0] != 0 && m[1] == 0 && k > 0 && a.len() == 2 => Some((m[0], a[0], a[1])),
            _ => None,
        });
        if let Some((m, a, b)) = m {
            let (x, y) = (an.tm.rewrite(t, m, a, &mut Default::default()), an.tm.rewrite(t, m, b, &mut Default::default()));
            r = gprove(an, s, x) && gprove(an, s, y);
        }
    }
    if !r && std::env::var("WHY").is_ok() {
        eprintln!("NOT {} >= 0", an.tm.show(t));
        for f in &s.facts {
            eprintln!("    {} >= 0", an.tm.show(*f));
        }
    }
    r
}
