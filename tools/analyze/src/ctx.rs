//! Analysis contexts: an entry point, images described by their format and colour, and the CPU features assumed.
use crate::exec::*;
use crate::ir::*;
use crate::model::Img;
use crate::state::*;
use crate::term::*;

pub const FORMATS: [&str; 15] = ["I420", "I422", "I444", "I010", "I012", "I210", "I212", "I410", "I412", "NV12", "YUYV", "RGBA", "BGRA", "RGB", "BGR"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Color {
    pub transfer: &'static str,
    pub primaries: &'static str,
    /// (space, full range); None for RGB
    pub yuv: Option<(&'static str, bool)>,
}
impl Color {
    pub const fn rgb(transfer: &'static str, primaries: &'static str) -> Color {
        Color { transfer, primaries, yuv: None }
    }
    pub const fn yuv(transfer: &'static str, primaries: &'static str, space: &'static str, full: bool) -> Color {
        Color { transfer, primaries, yuv: Some((space, full)) }
    }
    pub fn show(&self) -> String {
        match self.yuv {
            None => format!("RGB/{}/{}", self.transfer, self.primaries),
            Some((s, f)) => format!("YUV/{}/{}/{}/{}", self.transfer, self.primaries, s, if f { "full" } else { "limited" }),
        }
    }
}

pub fn find_ty(p: &Program, name: &str) -> Result<TyId, String> {
    for (i, t) in p.tys.iter().enumerate() {
        let def = match &t.kind {
            TyKind::Struct { def, .. } | TyKind::Enum { def, .. } => def,
            _ => continue,
        };
        if def.rsplit("::").next() == Some(name) && def.starts_with(&p.crate_name) {
            return Ok(i as TyId);
        }
    }
    Err(format!("type {name} not found in the analysed crate"))
}

impl<'p> An<'p> {
    pub fn unit_variant(&mut self, ty: TyId, name: &str) -> Result<Cells, String> {
        let v = self.variant(ty, name).ok_or_else(|| format!("variant {name} of {} not found", self.p.tys[ty as usize].name))?;
        Ok(An::cells_of(&self.mk_enum(ty, v, &[])))
    }
    pub fn mk_color(&mut self, c: &Color) -> Result<V, String> {
        let p = self.p;
        let ct = find_ty(p, "ColorTransfer")?;
        let cp = find_ty(p, "ColorPrimaries")?;
        let ci = find_ty(p, "ColorInfo")?;
        let (vn, sn) = if c.yuv.is_some() { ("YUV", "YuvColorInfo") } else { ("RGB", "RgbColorInfo") };
        let sty = find_ty(p, sn)?;
        let mut vals = vec![];
        let fields = self.fields(sty);
        for (_, ft) in &fields {
            if *ft == ct {
                vals.push(self.unit_variant(ct, c.transfer)?);
            } else if *ft == cp {
                vals.push(self.unit_variant(cp, c.primaries)?);
            } else if let (Some((_, full)), TyKind::Bool) = (c.yuv, &p.tys[*ft as usize].kind) {
                let t = self.tm.int(full as i128);
                vals.push(vec![Cell { off: 0, size: 1, v: t }]);
            } else if let (Some((s, _)), Ok(cs)) = (c.yuv, find_ty(p, "ColorSpace")) {
                if *ft != cs {
                    return Err(format!("field of {sn}"));
                }
                vals.push(self.unit_variant(cs, s)?);
            } else {
                return Err(format!("field of {sn}"));
            }
        }
        let sc = self.mk_struct(sty, &vals);
        let v = self.variant(ci, vn).ok_or("variant of ColorInfo")?;
        Ok(self.mk_enum(ci, v, &[sc]))
    }
    pub fn mk_format(&mut self, f: &str) -> Result<V, String> {
        let t = find_ty(self.p, "PixelFormat")?;
        let c = self.unit_variant(t, f)?;
        Ok(V::A(c, self.size_of(t)))
    }
    pub fn add_param(&mut self, st: &mut State, t: T) -> usize {
        st.params.push(t);
        st.params.len() - 1
    }
    /// a caller-provided image with `n` planes; returns its index and the argument for `&dyn Image…`
    pub fn add_image(&mut self, st: &mut State, tag: &str, fmt: &str, color: &Color, w: usize, h: usize, n: usize, mutable: bool) -> Result<(usize, V), String> {
        let id = self.imgs.len();
        let mut planes = vec![];
        for i in 0..n {
            let len = self.tm.sym(&format!("{tag}.len{i}"), 0, i64::MAX as i128);
            let stride = self.tm.sym(&format!("{tag}.stride{i}"), 0, u64::MAX as i128);
            let o = self.new_buf(st, len, BufKind::Plane { img: id as u32, plane: i as u32 });
            let s = self.add_param(st, stride);
            planes.push((o, s));
        }
        let fmt = self.mk_format(fmt)?;
        let color = self.mk_color(color)?;
        self.imgs.push(Img { fmt, color, w, h, planes, mutable });
        let vt = self.tm.foreign(id as u32);
        let data = self.new_mem(st, 1);
        let z = self.tm.int(0);
        let ptr = self.tm.ptr(data, z);
        Ok((id, V::A(vec![Cell { off: 0, size: 8, v: ptr }, Cell { off: 8, size: 8, v: vt }], 16)))
    }
    pub fn root(&self, name: &str) -> Result<u32, String> {
        self.p.roots.iter().find(|r| r.0.rsplit("::").next() == Some(name)).map(|r| r.1).ok_or_else(|| format!("entry point {name} not found"))
    }
}

/// conversion of one image into another
pub struct Conv {
    pub src: &'static str,
    pub dst: &'static str,
    pub sc: Color,
    pub dc: Color,
}

pub struct Run<'p> {
    pub an: An<'p>,
    pub outs: Vec<State>,
    pub res: Obj,
    pub rty: TyId,
    pub nsrc: usize,
}

pub fn nplanes(f: &str) -> usize {
    match f {
        "NV12" => 2,
        "YUYV" | "RGBA" | "BGRA" | "RGB" | "BGR" => 1,
        _ => 3,
    }
}

/// a CPU that reports these features also reports the ones they imply; x86-64 always has sse and sse2
pub fn close_features(f: &[&str]) -> rustc_hash::FxHashSet<String> {
    let mut out: rustc_hash::FxHashSet<String> = ["sse", "sse2", "fxsr", "x87"].iter().map(|s| s.to_string()).collect();
    let mut work: Vec<&str> = f.iter().copied().filter(|x| *x != "none").collect();
    while let Some(x) = work.pop() {
        if !out.insert(x.to_string()) {
            continue;
        }
        let implied: &[&str] = match x {
            "avx512bw" | "avx512vl" | "avx512dq" | "avx512cd" => &["avx512f"],
            "avx512f" => &["avx2", "fma", "f16c"],
            "avx2" | "fma" | "f16c" => &["avx"],
            "avx" => &["sse4.2"],
            "sse4.2" => &["sse4.1"],
            "sse4.1" => &["ssse3"],
            "ssse3" => &["sse3"],
            _ => &[],
        };
        work.extend(implied);
    }
    out
}

pub fn run_conv<'p>(p: &'p Program, root: &str, c: &Conv, features: &[&str]) -> Result<Run<'p>, String> {
    run_conv_n(p, root, c, features, nplanes(c.src), nplanes(c.dst), 2)
}
/// with chosen numbers of planes and CPU cores
pub fn run_conv_n<'p>(p: &'p Program, root: &str, c: &Conv, features: &[&str], ns: usize, nd: usize, cores: usize) -> Result<Run<'p>, String> {
    run_conv_red(p, root, c, features, ns, nd, cores, None)
}
/// ... where calls of the crate's function `red.0` are analysed as calls of the entry point `red.1`
pub fn run_conv_red<'p>(p: &'p Program, root: &str, c: &Conv, features: &[&str], ns: usize, nd: usize, cores: usize, red: Option<(&str, &str)>) -> Result<Run<'p>, String> {
    let mut an = An::new(p);
    if let Some((a, b)) = red {
        let i = p.funcs.iter().position(|f| f.name == a).ok_or_else(|| format!("function {a} not found"))?;
        an.redirect = Some((i as u32, an.root(b)?));
    }
    an.features = close_features(features);
    an.threads = cores as _;
    let mut st = State::new();
    let f = an.root(root)?;
    let w = an.tm.sym("w", 0, u64::MAX as i128);
    let h = an.tm.sym("h", 0, u64::MAX as i128);
    let w2 = an.tm.sym("dst.w", 0, u64::MAX as i128);
    let h2 = an.tm.sym("dst.h", 0, u64::MAX as i128);
    let (w, h, w2, h2) = (an.add_param(&mut st, w), an.add_param(&mut st, h), an.add_param(&mut st, w2), an.add_param(&mut st, h2));
    let (_, a) = an.add_image(&mut st, "src", c.src, &c.sc, w, h, ns, false)?;
    let (_, b) = an.add_image(&mut st, "dst", c.dst, &c.dc, w2, h2, nd, true)?;
    let rty = p.funcs[f as usize].locals[0].ty;
    let rsz = an.size_of(rty);
    let res = an.new_mem(&mut st, rsz);
    let z = an.tm.int(0);
    an.trace = std::env::var("TRACE").is_ok();
    let outs = an.call(st, f, vec![a, b], Addr { obj: res, off: z });
    Ok(Run { an, outs, res, rty, nsrc: 1 })
}

pub fn show_entry(an: &An, e: &Entry, ind: usize, out: &mut String) {
    let pad = " ".repeat(ind);
    match e {
        Entry::Store { obj, off, size, val, site } => out.push_str(&format!("{pad}store @{obj}[{}] {size} = {}   ({}:{})\n", an.tm.show(*off), an.tm.show_d(*val, 30), an.p.files[site.file as usize], site.line)),
        Entry::Copy { obj, off, len, sobj, soff, .. } => out.push_str(&format!("{pad}copy @{obj}[{}] <- @{sobj}[{}] len {}\n", an.tm.show(*off), an.tm.show(*soff), an.tm.show(*len))),
        Entry::Fill { obj, off, len, val, .. } => out.push_str(&format!("{pad}fill @{obj}[{}] len {} = {}\n", an.tm.show(*off), an.tm.show(*len), an.tm.show(*val))),
        Entry::Loop { k, count, body } => {
            out.push_str(&format!("{pad}for {}#{k} in 0..{}\n", an.tm.show(*k), an.tm.show(*count)));
            for b in body.iter() {
                show_entry(an, b, ind + 2, out);
            }
        }
        Entry::Task { id, body } => {
            out.push_str(&format!("{pad}task {}\n", an.tm.show(*id)));
            for b in body.iter() {
                show_entry(an, b, ind + 2, out);
            }
        }
        Entry::Ext { name, args, .. } => out.push_str(&format!("{pad}ext {name} {:?}\n", args.iter().map(|a| an.tm.show(*a)).collect::<Vec<_>>())),
    }
}

pub fn dump(r: &mut Run) {
    let a = Addr { obj: r.res, off: r.an.tm.int(0) };
    for (i, s) in r.outs.clone().iter_mut().enumerate() {
        let d = r.an.discriminant(s, a, r.rty);
        println!("exit {i}: discr {:?}", d.map(|d| r.an.tm.show(d)));
        println!("   params {:?}", s.params.iter().map(|x| r.an.tm.show(*x)).collect::<Vec<_>>());
        for c in &s.conds {
            println!("   cond {}", r.an.tm.show(*c));
        }
        let mut o = String::new();
        for e in &s.log {
            show_entry(&r.an, e, 4, &mut o);
        }
        print!("{o}");
    }
    println!("stats {:?} funcs {}", (r.an.stats.steps, r.an.stats.calls, r.an.stats.accesses, r.an.stats.asserts, r.an.stats.loops), r.an.stats.funcs.len());
    println!("terms {}", r.an.tm.nodes.len());
    for e in &r.an.events {
        println!("EVENT {:?} {}", e.kind, e.msg);
        for (f, fi, l) in e.stack.iter().rev().take(6) {
            println!("      {} {}:{}", r.an.p.funcs[*f as usize].name.chars().take(120).collect::<String>(), r.an.p.files[*fi as usize], l);
        }
        for c in e.facts.iter().rev().take(3) {
            println!("      fact {}", r.an.tm.show_d(*c, 20));
        }
        for c in &e.conds {
            println!("      if {}", r.an.tm.show(*c));
        }
    }
}
