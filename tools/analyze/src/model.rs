//! Models of everything the interpreter does not descend into: caller-provided images, the allocator, CPU
//! feature detection, thread pools, and numeric kernels treated as uninterpreted functions.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

/// a caller-provided image: every observation goes through these
#[derive(Clone, Debug)]
pub struct Img {
    pub fmt: V,
    pub color: V,
    /// indices into `State.params`
    pub w: usize,
    pub h: usize,
    /// plane buffer and the index of its stride in `State.params`
    pub planes: Vec<(Obj, usize)>,
    pub mutable: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook {
    None,
    Feature,
    NumCpus,
    ParIter,
    ParZip,
    ParTry,
    ParEach,
    Scope,
    Spawn,
    FirResize,
    FirNew,
    PixelSize,
    Pow,
    Ln,
    Nop,
}

pub const ITER0: u32 = 1000;
type R = Result<Vec<State>, (State, Vec<V>)>;

pub fn hooks(p: &Program) -> Vec<Hook> {
    p.funcs
        .iter()
        .map(|f| {
            let base = f.name.split("::<").next().unwrap_or("");
            let last = |s: &str| {
                // last path segment, generic arguments removed
                let mut depth = 0i32;
                let mut cut = s.len();
                let b = s.as_bytes();
                let mut i = b.len();
                while i > 0 {
                    i -= 1;
                    match b[i] {
                        b'>' if i > 0 && b[i - 1] != b'-' => depth += 1,
                        b'<' => depth -= 1,
                        b':' if depth == 0 && i > 0 && b[i - 1] == b':' => {
                            let seg = &s[i + 1..cut];
                            if seg.starts_with('<') {
                                cut = i - 1;
                                i -= 1;
                                continue;
                            }
                            return seg.to_string();
                        }
                        _ => {}
                    }
                }
                s[..cut].to_string()
            };
            let seg = last(&f.name);
            match f.krate.as_str() {
                "std_detect" if f.name.contains("__is_feature_detected::") => Hook::Feature,
                "num_cpus" => Hook::NumCpus,
                "rayon" => match seg.as_str() {
                    "into_par_iter" | "par_iter" => Hook::ParIter,
                    "zip" => Hook::ParZip,
                    "try_for_each" => Hook::ParTry,
                    "for_each" => Hook::ParEach,
                    _ => Hook::None,
                },
                "rayon_core" => match seg.as_str() {
                    "scope" | "in_place_scope" => Hook::Scope,
                    "spawn" => Hook::Spawn,
                    "current_num_threads" => Hook::NumCpus,
                    _ => Hook::None,
                },
                "fast_image_resize" => {
                    if base.ends_with("Resizer::resize") {
                        Hook::FirResize
                    } else if base.ends_with("Resizer::new") {
                        Hook::FirNew
                    } else if base.ends_with("PixelType::size") {
                        Hook::PixelSize
                    } else {
                        Hook::None
                    }
                }
                _ => {
                    if f.krate == p.crate_name && f.name.contains("Vector") && f.kind == FuncKind::Item {
                        if f.name.ends_with("::vpow") {
                            return Hook::Pow;
                        }
                        if f.name.ends_with("::vln") {
                            return Hook::Ln;
                        }
                    }
                    Hook::None
                }
            }
        })
        .collect()
}

impl<'p> An<'p> {
    pub fn give(&mut self, mut st: State, dest: Addr, v: V) -> R {
        if dest.obj != NOOBJ && An::vsize(&v) > 0 {
            if let Err(e) = self.write_v(&mut st, dest, &v) {
                self.event(&st, EvKind::Unsupported, e);
                return Ok(vec![]);
            }
        }
        Ok(vec![st])
    }
    pub fn give_t(&mut self, st: State, dest: Addr, t: T, size: u64) -> R {
        self.give(st, dest, V::S(t, size))
    }
    pub fn unsupported(&mut self, st: State, msg: String) -> R {
        self.event(&st, EvKind::Unsupported, msg);
        Ok(vec![])
    }
    pub fn fields(&self, ty: TyId) -> Vec<(u64, TyId)> {
        match &self.p.tys[ty as usize].kind {
            TyKind::Struct { fields, .. } | TyKind::Tuple { fields } | TyKind::Closure { fields, .. } => fields.clone(),
            _ => vec![],
        }
    }
    pub fn pointee(&self, ty: TyId) -> Option<TyId> {
        match &self.p.tys[ty as usize].kind {
            TyKind::Ptr { pointee, .. } => Some(*pointee),
            _ => None,
        }
    }
    pub fn variants(&self, ty: TyId) -> &[Variant] {
        match &self.p.tys[ty as usize].kind {
            TyKind::Enum { variants, .. } => variants,
            _ => &[],
        }
    }
    pub fn variant(&self, ty: TyId, name: &str) -> Option<u32> {
        self.variants(ty).iter().position(|v| v.name == name).map(|i| i as u32)
    }
    /// build an enum value from (field index, cells)
    pub fn mk_enum(&mut self, ty: TyId, variant: u32, vals: &[Cells]) -> V {
        let fields = self.variants(ty)[variant as usize].fields.clone();
        let mut cells: Cells = vec![];
        for ((off, _), v) in fields.iter().zip(vals) {
            for c in v {
                cells.push(Cell { off: off + c.off, size: c.size, v: c.v });
            }
        }
        cells.sort_by_key(|c| c.off);
        self.set_tag(&mut cells, ty, variant);
        V::A(cells, self.size_of(ty))
    }
    pub fn mk_struct(&mut self, ty: TyId, vals: &[Cells]) -> Cells {
        let fields = self.fields(ty);
        let mut cells: Cells = vec![];
        for ((off, _), v) in fields.iter().zip(vals) {
            for c in v {
                cells.push(Cell { off: off + c.off, size: c.size, v: c.v });
            }
        }
        cells.sort_by_key(|c| c.off);
        cells
    }
    pub fn arg_t(&mut self, v: &V, k: Kind) -> T {
        self.v_t(v, &k)
    }
    pub fn usz(&mut self, v: &V) -> T {
        self.v_t(v, &Kind::Int(64, false))
    }

    pub fn model(&mut self, st: State, fid: u32, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        match &f.kind {
            FuncKind::Virtual(i) => return self.virt(st, fid, *i, args, dest),
            FuncKind::Intrinsic(n) => return self.intrinsic(st, fid, n, args, dest),
            FuncKind::Llvm(n) => return self.llvm(st, fid, n, args, dest),
            FuncKind::Foreign(_) => return self.foreign_fn(st, fid, args, dest),
            _ => {}
        }
        let h = self.hooks[fid as usize];
        if h == Hook::None {
            return Err((st, args));
        }
        match h {
            Hook::None => unreachable!(),
            Hook::Nop => Ok(vec![st]),
            Hook::Feature => {
                let name = f.name.rsplit("::").next().unwrap_or("").to_string();
                let on = self.features.contains(&name);
                self.detected.insert(name);
                let t = self.tm.int(on as i128);
                self.give_t(st, dest, t, 1)
            }
            Hook::NumCpus => {
                let t = self.tm.int(self.threads);
                self.give_t(st, dest, t, 8)
            }
            Hook::Pow | Hook::Ln => {
                if self.no_summaries {
                    return Err((st, args));
                }
                let n = An::vsize(&args[0]) / 4;
                let mut cells = vec![];
                for i in 0..n {
                    let mut a = vec![];
                    for v in &args {
                        let c = An::cells_of(v);
                        let c = &c;
                        a.push(cells_read(&mut self.tm, c, 4 * i, 4, &Kind::Float(32)));
                    }
                    let r = if a.contains(&Terms::UNDEF) { Terms::UNDEF } else { self.tm.fop(if h == Hook::Pow { FK::Pow } else { FK::Ln }, a) };
                    cells.push(Cell { off: 4 * i, size: 4, v: r });
                }
                self.summarised += 1;
                let v = if n == 1 { V::S(cells[0].v, 4) } else { V::A(cells, 4 * n) };
                self.give(st, dest, v)
            }
            Hook::ParIter => {
                let Some(rt) = f.ret else { return self.unsupported(st, "rayon".into()) };
                let sz = self.size_of(rt);
                let c = An::cells_of(&args[0]);
                self.give(st, dest, V::A(c, sz))
            }
            Hook::ParZip => {
                let Some(rt) = f.ret else { return self.unsupported(st, "rayon".into()) };
                let a = An::cells_of(&args[0]);
                let b = An::cells_of(&args[1]);
                let cells = self.mk_struct(rt, &[a, b]);
                let sz = self.size_of(rt);
                self.give(st, dest, V::A(cells, sz))
            }
            Hook::ParTry | Hook::ParEach => self.par_each(st, fid, args, dest, h == Hook::ParTry),
            Hook::Scope => {
                let Some(cf) = self.closure_fn(fid) else { return self.unsupported(st, "scope closure".into()) };
                let mut st = st;
                let o = self.new_mem(&mut st, 64);
                let z = self.tm.int(0);
                let sp = self.tm.ptr(o, z);
                let c = args[0].clone();
                Ok(self.call(st, cf, vec![c, V::S(sp, 8)], dest))
            }
            Hook::Spawn => {
                let Some(cf) = self.closure_fn(fid) else { return self.unsupported(st, "spawn closure".into()) };
                let mut st = st;
                let base = std::mem::take(&mut st.log);
                let sp = self.v_t(&args[0], &Kind::Ptr);
                let z = self.tm.int(0);
                let id = self.ntasks;
                self.ntasks += 1;
                let id = self.tm.int(id as i128);
                let c = args[1].clone();
                let outs = self.call(st, cf, vec![c, V::S(sp, 8)], Addr { obj: NOOBJ, off: z });
                Ok(outs
                    .into_iter()
                    .map(|mut s| {
                        let body = std::mem::replace(&mut s.log, base.clone());
                        s.log.push(Rc::new(Entry::Task { id, body: Rc::new(body) }));
                        s
                    })
                    .collect())
            }
            Hook::FirNew => {
                let sz = f.ret.map(|r| self.size_of(r)).unwrap_or(0);
                self.give(st, dest, V::A(vec![], sz))
            }
            Hook::PixelSize => {
                // by value or by reference
                let mut st = st;
                let mut ty = f.sig.first().copied().unwrap_or(0);
                let mut v = args[0].clone();
                if let Some(pt) = self.pointee(ty) {
                    ty = pt;
                    let a = self.v_t(&v, &Kind::Ptr);
                    let a = self.addr_of(a);
                    v = match self.read_v(&mut st, a, ty) {
                        Ok(v) => v,
                        Err(e) => return self.unsupported(st, e),
                    };
                }
                let c = An::cells_of(&v);
                let esz = self.size_of(ty);
                let t = cells_read(&mut self.tm, &c, 0, esz, &Kind::Int(8, false));
                let Some(d) = self.tm.as_int(t) else { return self.unsupported(st, "pixel type is not constant".into()) };
                let name = self.variants(ty).iter().find(|x| x.discr as i128 == d).map(|x| x.name.clone()).unwrap_or_default();
                let (b, n) = match name.split_once('x') {
                    Some((b, n)) => (b.to_string(), n.parse::<i128>().unwrap_or(0)),
                    None => (name.clone(), 1),
                };
                let sz = match b.as_str() {
                    "U8" => 1,
                    "U16" => 2,
                    "I32" | "F32" => 4,
                    _ => return self.unsupported(st, format!("pixel type {name}")),
                };
                let t = self.tm.int(sz * n);
                self.give_t(st, dest, t, 8)
            }
            Hook::FirResize => self.fir_resize(st, fid, args, dest),
        }
    }

    // ---------------------------------------------------------------- closures and parallel iterators
    /// the closure among the generic arguments of a boundary function
    fn closure_fn(&mut self, fid: u32) -> Option<u32> {
        let p = self.p;
        for a in &p.funcs[fid as usize].ty_args {
            if let GArg::Ty(t) = a {
                if matches!(p.tys[*t as usize].kind, TyKind::Closure { .. } | TyKind::FnDef(_)) {
                    if let TyKind::FnDef(Some(f)) = p.tys[*t as usize].kind {
                        return Some(f);
                    }
                    let mut best = None;
                    for (i, f) in p.funcs.iter().enumerate() {
                        if f.kind != FuncKind::Item || f.locals.len() < 2 || f.argc < 1 || !f.has_body {
                            continue;
                        }
                        let lt = f.locals[1].ty;
                        if (lt == *t || self.pointee(lt) == Some(*t)) && f.name.trim_end_matches('>').contains("{closure#") && f.krate == p.crate_name {
                            best = Some(i as u32);
                        }
                    }
                    return best;
                }
            }
        }
        None
    }
    /// (data pointer, length) of a Vec value with the given type
    pub fn vec_parts(&mut self, ty: TyId, cells: &Cells) -> Option<(T, T)> {
        let fs = self.fields(ty);
        let name = self.p.tys[ty as usize].name.clone();
        if name.starts_with("rayon::vec::IntoIter") && fs.len() == 1 {
            let sz = self.size_of(fs[0].1);
            let c = cells_slice(&mut self.tm, cells, fs[0].0, sz);
            return self.vec_parts(fs[0].1, &c);
        }
        if fs.len() != 2 {
            return None;
        }
        let len = cells_read(&mut self.tm, cells, fs[1].0, 8, &Kind::Int(64, false));
        // the pointer lies within the buffer field
        let bsz = self.size_of(fs[0].1);
        let mut ptr = None;
        for o in (0..bsz).step_by(8) {
            let t = cells_read(&mut self.tm, cells, fs[0].0 + o, 8, &Kind::Ptr);
            if matches!(self.tm.n(t), N::Ptr(..)) {
                ptr = Some(t);
            }
        }
        let z = self.tm.int(8);
        Some((ptr.unwrap_or(z), len))
    }
    fn par_items(&mut self, st: &mut State, ty: TyId, cells: &Cells, item: TyId) -> Result<Vec<Cells>, String> {
        let name = self.p.tys[ty as usize].name.clone();
        if name.contains("rayon::iter::zip::Zip<") && name.starts_with("rayon::iter::zip::Zip<") {
            let fs = self.fields(ty);
            let ifs = self.fields(item);
            if fs.len() != 2 || ifs.len() != 2 {
                return Err("parallel zip".into());
            }
            let (s0, s1) = (self.size_of(fs[0].1), self.size_of(fs[1].1));
            let c0 = cells_slice(&mut self.tm, cells, fs[0].0, s0);
            let c1 = cells_slice(&mut self.tm, cells, fs[1].0, s1);
            let a = self.par_items(st, fs[0].1, &c0, ifs[0].1)?;
            let b = self.par_items(st, fs[1].1, &c1, ifs[1].1)?;
            return Ok(a.into_iter().zip(b).map(|(x, y)| self.mk_struct(item, &[x, y])).collect());
        }
        let (ptr, len) = self.vec_parts(ty, cells).ok_or("parallel iterator over something else than vectors")?;
        let n = self.tm.as_int(len).ok_or("parallel iterator of unknown length")?;
        let sz = self.size_of(item);
        let mut out = vec![];
        for i in 0..n {
            let q = self.ptr_add(ptr, i * sz as i128);
            let a = self.addr_of(q);
            out.push(self.read_cells(st, a, sz)?);
        }
        Ok(out)
    }
    fn par_each(&mut self, st: State, fid: u32, args: Vec<V>, dest: Addr, tries: bool) -> R {
        let p = self.p;
        let Some(cf) = self.closure_fn(fid) else { return self.unsupported(st, "parallel closure".into()) };
        let pty = p.funcs[fid as usize].sig[0];
        // the closure's argument type
        let c = &p.funcs[cf as usize];
        let item = c.locals[2].ty;
        let by_ref = self.pointee(c.locals[1].ty).is_some() && !matches!(p.tys[c.locals[1].ty as usize].kind, TyKind::Closure { .. });
        let mut st = st;
        let cells = An::cells_of(&args[0]);
        let items = match self.par_items(&mut st, pty, &cells, item) {
            Ok(i) => i,
            Err(e) => return self.unsupported(st, e),
        };
        let z = self.tm.int(0);
        let self_arg = if by_ref {
            let sz = An::vsize(&args[1]);
            let o = self.new_mem(&mut st, sz.max(1));
            let _ = self.write_v(&mut st, Addr { obj: o, off: z }, &args[1]);
            let t = self.tm.ptr(o, z);
            V::S(t, 8)
        } else {
            args[1].clone()
        };
        let rty = c.locals[0].ty;
        let rsz = self.size_of(rty);
        let isz = self.size_of(item);
        self.par_runs.push(items.len());
        // (state, first error)
        let mut cur: Vec<(State, Option<V>)> = vec![(st, None)];
        let mut ok_val: Option<V> = None;
        for (i, it) in items.into_iter().enumerate() {
            let mut nextv = vec![];
            for (mut s, err) in cur {
                let base = std::mem::take(&mut s.log);
                let ro = self.new_mem(&mut s, rsz.max(1));
                let outs = self.call(s, cf, vec![self_arg.clone(), V::A(it.clone(), isz)], Addr { obj: ro, off: z });
                for mut o in outs {
                    let body = std::mem::replace(&mut o.log, base.clone());
                    let id = self.tm.int(i as i128);
                    o.log.push(Rc::new(Entry::Task { id, body: Rc::new(body) }));
                    let mut e2 = err.clone();
                    if tries {
                        let a = Addr { obj: ro, off: z };
                        let d = match self.discriminant(&mut o, a, rty) {
                            Ok(d) => d,
                            Err(e) => return self.unsupported(o, e),
                        };
                        let v = match self.read_v(&mut o, a, rty) {
                            Ok(d) => d,
                            Err(e) => return self.unsupported(o, e),
                        };
                        match self.tm.as_int(d) {
                            Some(0) => ok_val = Some(v),
                            Some(_) => {
                                if e2.is_none() {
                                    e2 = Some(v)
                                }
                            }
                            None => return self.unsupported(o, "parallel task result".into()),
                        }
                    }
                    o.objs.remove(&ro);
                    nextv.push((o, e2));
                }
            }
            // merge states with the same outcome
            let (oks, errs): (Vec<_>, Vec<_>) = nextv.into_iter().partition(|x| x.1.is_none());
            let oks = self.join_all(oks.into_iter().map(|x| x.0).collect());
            cur = oks.into_iter().map(|s| (s, None)).chain(errs).collect();
            if cur.len() > 64 {
                return self.unsupported(cur.pop().unwrap().0, "too many abstract states after parallel tasks".into());
            }
        }
        let mut out = vec![];
        for (s, e) in cur {
            let v = match (e, &ok_val) {
                (Some(v), _) => v,
                (None, Some(v)) => v.clone(),
                (None, None) => {
                    if tries {
                        let k = self.variant(rty, "Ok").unwrap_or(0);
                        self.mk_enum(rty, k, &[])
                    } else {
                        V::A(vec![], 0)
                    }
                }
            };
            out.extend(self.give(s, dest, v).unwrap_or_default());
        }
        Ok(out)
    }

    fn fir_resize(&mut self, st: State, fid: u32, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let mut st = st;
        let mut rec = vec![];
        let me = self.v_t(&args[0], &Kind::Ptr);
        rec.push(me);
        for i in 1..=2 {
            let Some(t) = self.pointee(f.sig[i]) else { return self.unsupported(st, "resize".into()) };
            let a = self.v_t(&args[i], &Kind::Ptr);
            let a = self.addr_of(a);
            // fields in declaration order; slices contribute pointer and length
            for (off, ft) in self.fields(t) {
                let sz = self.size_of(ft);
                let mut o = 0;
                while o < sz {
                    let n = if sz >= 8 { 8 } else { sz };
                    let fa = Addr { obj: a.obj, off: self.tm.addc(a.off, (off + o) as i128) };
                    let k = if matches!(self.p.tys[ft as usize].kind, TyKind::Ptr { .. }) && o == 0 { Kind::Ptr } else { Kind::Int(n as u16 * 8, false) };
                    match self.read(&mut st, fa, n, &k) {
                        Ok(t) => rec.push(t),
                        Err(e) => return self.unsupported(st, e),
                    }
                    o += n;
                }
            }
        }
        let site = self.site(&st);
        st.log.push(Rc::new(Entry::Ext { name: "fir::resize".into(), args: rec, site }));
        let rty = f.ret.unwrap();
        let k = self.variant(rty, "Ok").unwrap_or(0);
        let v = self.mk_enum(rty, k, &[]);
        self.give(st, dest, v)
    }

    // ---------------------------------------------------------------- trait objects
    fn virt(&mut self, mut st: State, fid: u32, idx: u32, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let c = An::cells_of(&args[0]);
        let data = cells_read(&mut self.tm, &c, 0, 8, &Kind::Ptr);
        let vt = cells_read(&mut self.tm, &c, 8, 8, &Kind::Raw);
        match *self.tm.n(vt) {
            N::VT(a) => {
                let GAllocKind::VTable { mem, .. } = &p.allocs[a as usize].kind else {
                    return self.unsupported(st, "vtable".into());
                };
                let Some((_, fa)) = mem.relocs.iter().find(|r| r.0 == 8 * idx as u64) else {
                    return self.unsupported(st, format!("vtable slot {idx} of {}", f.name));
                };
                let GAllocKind::Func(g) = p.allocs[*fa as usize].kind else {
                    return self.unsupported(st, "vtable slot".into());
                };
                let mut a2 = args;
                a2[0] = V::S(data, 8);
                Ok(self.call(st, g, a2, dest))
            }
            N::Foreign(id) if id < ITER0 => {
                let img = self.imgs[id as usize].clone();
                let m = f.name.rsplit("::").next().unwrap_or("");
                match m {
                    "width" => {
                        let t = st.params[img.w];
                        self.give_t(st, dest, t, 8)
                    }
                    "height" => {
                        let t = st.params[img.h];
                        self.give_t(st, dest, t, 8)
                    }
                    "format" => self.give(st, dest, img.fmt),
                    "color" => self.give(st, dest, img.color),
                    "planes" | "planes_mut" => {
                        let o = self.new_mem(&mut st, 8);
                        let z = self.tm.int(0);
                        let _ = self.write_t(&mut st, Addr { obj: o, off: z }, z, 8);
                        let ptr = self.tm.ptr(o, z);
                        let vt = self.tm.foreign(ITER0 + id);
                        self.give(st, dest, V::A(vec![Cell { off: 0, size: 8, v: ptr }, Cell { off: 8, size: 8, v: vt }], 16))
                    }
                    _ => self.unsupported(st, format!("method {m} of a caller-provided image")),
                }
            }
            N::Foreign(id) => {
                let img = self.imgs[(id - ITER0) as usize].clone();
                let m = f.name.split("::<").next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
                let m = if f.name.ends_with("::next") { "next".to_string() } else if f.name.ends_with("::size_hint") { "size_hint".to_string() } else { m };
                let a = self.addr_of(data);
                let i = match self.read(&mut st, a, 8, &Kind::Int(64, false)) {
                    Ok(i) => i,
                    Err(e) => return self.unsupported(st, e),
                };
                let Some(i) = self.tm.as_int(i) else { return self.unsupported(st, "plane iterator position".into()) };
                let Some(rty) = f.ret else { return self.unsupported(st, "plane iterator".into()) };
                match m.as_str() {
                    "next" => {
                        if (i as usize) < img.planes.len() {
                            let (o, s) = img.planes[i as usize];
                            let n = self.tm.int(i + 1);
                            let _ = self.write_t(&mut st, a, n, 8);
                            let some = self.variant(rty, "Some").unwrap_or(1);
                            let tup = self.variants(rty)[some as usize].fields[0].1;
                            let z = self.tm.int(0);
                            let ptr = self.tm.ptr(o, z);
                            let len = match self.obj(&st, o).as_deref() {
                                Some(ObjK::Buf { len, .. }) => *len,
                                _ => z,
                            };
                            let slice = vec![Cell { off: 0, size: 8, v: ptr }, Cell { off: 8, size: 8, v: len }];
                            let stride = vec![Cell { off: 0, size: 8, v: st.params[s] }];
                            let tc = self.mk_struct(tup, &[slice, stride]);
                            let v = self.mk_enum(rty, some, &[tc]);
                            self.give(st, dest, v)
                        } else {
                            let none = self.variant(rty, "None").unwrap_or(0);
                            let v = self.mk_enum(rty, none, &[]);
                            self.give(st, dest, v)
                        }
                    }
                    "size_hint" => {
                        let n = (img.planes.len() as i128 - i).max(0);
                        let n = self.tm.int(n);
                        let fs = self.fields(rty);
                        let some = self.variant(fs[1].1, "Some").unwrap_or(1);
                        let oc = self.mk_enum(fs[1].1, some, &[vec![Cell { off: 0, size: 8, v: n }]]);
                        let c = self.mk_struct(rty, &[vec![Cell { off: 0, size: 8, v: n }], An::cells_of(&oc)]);
                        let sz = self.size_of(rty);
                        self.give(st, dest, V::A(c, sz))
                    }
                    _ => self.unsupported(st, format!("iterator method {m} on the planes of a caller-provided image")),
                }
            }
            _ => self.unsupported(st, format!("virtual call of {} on an unknown object", f.name)),
        }
    }

    // ---------------------------------------------------------------- foreign functions
    fn foreign_fn(&mut self, mut st: State, fid: u32, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let name = p.funcs[fid as usize].name.clone();
        let last = name.rsplit("::").next().unwrap_or("");
        let f1 = |an: &mut Self, v: &V| an.v_t(v, &Kind::Float(32));
        match last {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = self.usz(&args[0]);
                let zeroed = last == "__rust_alloc_zeroed";
                let z = self.tm.int(0);
                let o = match self.tm.as_int(n) {
                    Some(n) if n <= 1 << 16 => {
                        let o = self.new_mem(&mut st, n as u64);
                        if zeroed {
                            for i in 0..(n as u64) {
                                let off = self.tm.int(i as i128);
                                let _ = self.write_t(&mut st, Addr { obj: o, off }, z, 1);
                            }
                        }
                        o
                    }
                    _ => self.new_buf(&mut st, n, BufKind::Heap { zeroed }),
                };
                let ptr = self.tm.ptr(o, z);
                self.give_t(st, dest, ptr, 8)
            }
            "__rust_dealloc" | "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => Ok(vec![st]),
            "__rust_realloc" => {
                let ptr = self.v_t(&args[0], &Kind::Ptr);
                let old = self.usz(&args[1]);
                let new = self.usz(&args[3]);
                let (Some(old), Some(new)) = (self.tm.as_int(old), self.tm.as_int(new)) else {
                    return self.unsupported(st, "reallocation of symbolic size".into());
                };
                let a = self.addr_of(ptr);
                let z = self.tm.int(0);
                let o = self.new_mem(&mut st, new as u64);
                let c = match self.read_cells(&mut st, a, old.min(new) as u64) {
                    Ok(c) => c,
                    Err(e) => return self.unsupported(st, e),
                };
                let _ = self.write_v(&mut st, Addr { obj: o, off: z }, &V::A(c, old.min(new) as u64));
                let ptr = self.tm.ptr(o, z);
                self.give_t(st, dest, ptr, 8)
            }
            "powf" => {
                let (a, b) = (f1(self, &args[0]), f1(self, &args[1]));
                let t = self.tm.fop(FK::Pow, vec![a, b]);
                self.give_t(st, dest, t, 4)
            }
            "logf" => {
                let a = f1(self, &args[0]);
                let t = self.tm.fop(FK::Ln, vec![a]);
                self.give_t(st, dest, t, 4)
            }
            "expf" => {
                let a = f1(self, &args[0]);
                let t = self.tm.fop(FK::Exp, vec![a]);
                self.give_t(st, dest, t, 4)
            }
            "sqrtf" => {
                let a = f1(self, &args[0]);
                let t = self.tm.fop(FK::Sqrt, vec![a]);
                self.give_t(st, dest, t, 4)
            }
            "fmodf" => {
                let (a, b) = (f1(self, &args[0]), f1(self, &args[1]));
                let t = self.tm.fop(FK::Rem, vec![a, b]);
                self.give_t(st, dest, t, 4)
            }
            _ => {
                // float functions of one argument: an opaque value
                let ret4 = p.funcs[fid as usize].ret.map(|r| matches!(p.tys[r as usize].kind, TyKind::Float(_))).unwrap_or(false);
                if ret4 {
                    let t = self.tm.funk();
                    let sz = self.size_of(p.funcs[fid as usize].ret.unwrap());
                    return self.give_t(st, dest, t, sz);
                }
                self.unsupported(st, format!("foreign function {name}"))
            }
        }
    }
}
