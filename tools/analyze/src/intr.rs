//! Compiler intrinsics and x86 vector instructions, lane by lane.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

type R = Result<Vec<State>, (State, Vec<V>)>;

impl<'p> An<'p> {
    /// (element type, lanes) of a vector or array type
    pub fn lanes_of(&self, ty: TyId) -> Option<(TyId, u64)> {
        match &self.p.tys[ty as usize].kind {
            TyKind::Struct { simd: Some((e, n)), .. } => Some((*e, *n)),
            TyKind::Array { elem, len } => Some((*elem, *len)),
            // single-field wrapper (e.g. SimdAlign)
            TyKind::Struct { fields, .. } if fields.len() == 1 => self.lanes_of(fields[0].1),
            _ => None,
        }
    }
    pub fn lanes(&mut self, v: &V, ty: TyId) -> Option<Vec<T>> {
        let (e, n) = self.lanes_of(ty)?;
        let k = kind_of(self.p, e);
        let sz = self.size_of(e);
        let c = An::cells_of(v);
        Some((0..n).map(|i| cells_read(&mut self.tm, &c, i * sz, sz, &k)).collect())
    }
    pub fn from_lanes(&self, l: &[T], esz: u64) -> V {
        V::A(l.iter().enumerate().filter(|x| *x.1 != Terms::UNDEF).map(|(i, t)| Cell { off: i as u64 * esz, size: esz, v: *t }).collect(), l.len() as u64 * esz)
    }
    fn elem_int(&self, e: TyId) -> Option<(u16, bool)> {
        match self.p.tys[e as usize].kind {
            TyKind::Int { bits, signed } => Some((bits, signed)),
            TyKind::Bool => Some((8, false)),
            TyKind::Ptr { .. } => Some((64, false)),
            _ => None,
        }
    }
    /// sign bit of a mask lane
    fn neg_lane(&mut self, m: T, bits: u16, signed: bool) -> T {
        let m = if signed { m } else { self.tm.wrap(m, bits, true) };
        let n = self.tm.neg(m);
        let n = self.tm.addc(n, -1);
        self.tm.ge0(n)
    }
    fn bit(&mut self, m: T, i: u32) -> T {
        let s = self.tm.divc(m, 1i128 << i);
        let two = self.tm.int(2);
        let r = self.tm.modulo(s, two);
        self.tm.eq_nonzero(r)
    }
    fn mask_bits(&mut self, bits: &[T]) -> T {
        let mut acc = self.tm.int(0);
        for (i, b) in bits.iter().enumerate() {
            let x = self.tm.mulc(*b, 1i128 << i);
            acc = self.tm.add(acc, x);
        }
        acc
    }
    fn sat(&mut self, a: T, lo: i128, hi: i128) -> T {
        if a == Terms::UNDEF {
            return a;
        }
        let (l, h) = self.tm.range(a);
        if l >= lo && h <= hi {
            return a;
        }
        if let Some(c) = self.tm.as_int(a) {
            return self.tm.int(c.clamp(lo, hi));
        }
        if let N::Cvt { f, rnd, lo: l0, hi: h0, indef: false } = *self.tm.n(a) {
            // clamping a saturating conversion
            let (l, h) = (l0.max(lo), h0.min(hi));
            if l <= h {
                return self.tm.cvt(f, rnd, l, h, false);
            }
        }
        if let N::IOp { k: IK::Sat, a: x, lo: l0, hi: h0 } = self.tm.n(a).clone() {
            let (l, h) = (l0.max(lo), h0.min(hi));
            if l <= h {
                return self.sat(x[0], l, h);
            }
        }
        self.tm.iop(IK::Sat, vec![a], lo.max(l), hi.min(h))
    }
    fn imm(&mut self, v: &V) -> i128 {
        let c = An::cells_of(v);
        let n = An::vsize(v);
        let t = cells_read(&mut self.tm, &c, 0, n, &Kind::Int(8 * n as u16, false));
        self.tm.as_int(t).unwrap_or(-1)
    }
    fn cmp_imm(&mut self, imm: i128, a: T, b: T) -> Option<T> {
        if a == Terms::UNDEF || b == Terms::UNDEF {
            return Some(Terms::UNDEF);
        }
        let tm = &mut self.tm;
        Some(match imm & 15 {
            0 | 8 => tm.fcmp(FC::Eq, a, b),
            1 => tm.fcmp(FC::Lt, a, b),
            2 => tm.fcmp(FC::Le, a, b),
            4 | 12 => {
                let c = tm.fcmp(FC::Eq, a, b);
                tm.not(c)
            }
            5 => {
                let c = tm.fcmp(FC::Lt, a, b);
                tm.not(c)
            }
            6 => {
                let c = tm.fcmp(FC::Le, a, b);
                tm.not(c)
            }
            9 => {
                let c = tm.fcmp(FC::Le, b, a);
                tm.not(c)
            }
            10 => {
                let c = tm.fcmp(FC::Lt, b, a);
                tm.not(c)
            }
            13 => tm.fcmp(FC::Le, b, a),
            14 => tm.fcmp(FC::Lt, b, a),
            11 => tm.int(0),
            15 => tm.int(1),
            _ => return None,
        })
    }
    fn lane2(&mut self, a: T, b: T, f: &mut dyn FnMut(&mut Self, T, T) -> T) -> T {
        if a == Terms::UNDEF || b == Terms::UNDEF {
            Terms::UNDEF
        } else {
            f(self, a, b)
        }
    }

    pub fn intrinsic(&mut self, mut st: State, fid: u32, name: &str, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let rty = f.ret;
        let rsz = rty.map(|r| self.size_of(r)).unwrap_or(0);
        let targ = f.ty_args.iter().find_map(|a| if let GArg::Ty(t) = a { Some(*t) } else { None });
        let unit = |st: State| -> R { Ok(vec![st]) };
        let i_args = |an: &mut Self, i: usize| -> T {
            let k = f.sig.get(i).map(|t| kind_of(p, *t)).unwrap_or(Kind::Raw);
            an.v_t(&args[i], &k)
        };
        match name {
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "assume_noalias" | "prefetch_read_data" => return unit(st),
            "assume" => {
                let c = i_args(self, 0);
                if c != Terms::UNDEF && !self.assume(&mut st, c) {
                    return Ok(vec![]);
                }
                return unit(st);
            }
            "black_box" | "likely" | "unlikely" | "const_allocate" => {
                return self.give(st, dest, args[0].clone());
            }
            "is_val_statically_known" | "ub_checks" | "overflow_checks" | "contract_checks" => {
                let z = self.tm.int(0);
                return self.give_t(st, dest, z, 1);
            }
            "unreachable" => {
                if f.krate == p.crate_name {
                    self.event(&st, EvKind::Unreachable, "unreachable code is reachable".into());
                }
                return Ok(vec![]);
            }
            "abort" => {
                self.event(&st, EvKind::Panic, "abort".into());
                return Ok(vec![]);
            }
            "size_of" | "min_align_of" | "align_of" | "pref_align_of" => {
                let Some(t) = targ else { return Err((st, args)) };
                let v = if name == "size_of" { self.size_of(t) } else { p.tys[t as usize].align };
                let v = self.tm.int(v as i128);
                return self.give_t(st, dest, v, 8);
            }
            "needs_drop" => {
                let v = self.tm.int(1);
                return self.give_t(st, dest, v, 1);
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let Some(t) = targ else { return Err((st, args)) };
                let ty = &p.tys[t as usize];
                let sz = name == "size_of_val";
                let v = match (&ty.kind, ty.size) {
                    (_, Some(s)) => self.tm.int(if sz { s as i128 } else { ty.align as i128 }),
                    (TyKind::Slice { elem }, _) => {
                        if sz {
                            let c = An::cells_of(&args[0]);
                            let n = cells_read(&mut self.tm, &c, 8, 8, &Kind::Int(64, false));
                            let e = self.size_of(*elem);
                            self.tm.mulc(n, e as i128)
                        } else {
                            self.tm.int(ty.align as i128)
                        }
                    }
                    (TyKind::Str, _) if sz => {
                        let c = An::cells_of(&args[0]);
                        cells_read(&mut self.tm, &c, 8, 8, &Kind::Int(64, false))
                    }
                    (TyKind::Dyn, _) => {
                        let c = An::cells_of(&args[0]);
                        let vt = cells_read(&mut self.tm, &c, 8, 8, &Kind::Raw);
                        let mut r = None;
                        if let N::VT(a) = self.tm.n(vt) {
                            if let GAllocKind::VTable { mem, .. } = &p.allocs[*a as usize].kind {
                                let o = if sz { 8 } else { 16 };
                                let mut v = 0u64;
                                for k in 0..8 {
                                    v |= (mem.bytes[o + k].unwrap_or(0) as u64) << (8 * k);
                                }
                                r = Some(v);
                            }
                        }
                        match r {
                            Some(v) => self.tm.int(v as i128),
                            None => self.tm.unk("size", 1, 1 << 20),
                        }
                    }
                    _ => self.tm.int(if sz { 0 } else { ty.align as i128 }),
                };
                return self.give_t(st, dest, v, 8);
            }
            "arith_offset" | "offset" => {
                let Some(t) = targ else { return Err((st, args)) };
                // `offset` is generic over the pointer type
                let t = if name == "offset" { self.pointee(t).unwrap_or(t) } else { t };
                let ptr = self.v_t(&args[0], &Kind::Ptr);
                let n = i_args(self, 1);
                let sz = self.size_of(t);
                let o = self.tm.mulc(n, sz as i128);
                let r = self.ptr_addt(ptr, o);
                return self.give_t(st, dest, r, 8);
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let Some(t) = targ else { return Err((st, args)) };
                let (a, b) = (self.v_t(&args[0], &Kind::Ptr), self.v_t(&args[1], &Kind::Ptr));
                let sz = self.size_of(t).max(1);
                let d = match (self.tm.n(a).clone(), self.tm.n(b).clone()) {
                    (N::Ptr(o, x), N::Ptr(q, y)) if o == q => Some(self.tm.sub(x, y)),
                    _ if self.tm.is_intlike(a) && self.tm.is_intlike(b) => Some(self.tm.sub(a, b)),
                    _ => None,
                };
                let Some(d) = d else { return self.unsupported(st, "distance between pointers into different objects".into()) };
                let r = self.tm.divc(d, sz as i128);
                return self.give_t(st, dest, r, 8);
            }
            "ptr_guaranteed_cmp" => {
                let t = self.tm.int(2);
                return self.give_t(st, dest, t, 1);
            }
            "write_bytes" | "volatile_set_memory" => {
                let Some(t) = targ else { return Err((st, args)) };
                let ptr = self.v_t(&args[0], &Kind::Ptr);
                let v = self.v_t(&args[1], &Kind::Int(8, false));
                let n = self.usz(&args[2]);
                let sz = self.size_of(t);
                let n = self.tm.mulc(n, sz as i128);
                if self.tm.as_int(n) == Some(0) {
                    return unit(st);
                }
                let a = self.addr_of(ptr);
                match self.obj(&st, a.obj).as_deref() {
                    Some(ObjK::Buf { len, .. }) => {
                        let len = *len;
                        self.check_buf(&st, a, len, n, "fill");
                        let site = self.site(&st);
                        st.log.push(Rc::new(Entry::Fill { obj: a.obj, off: a.off, len: n, val: v, site }));
                        return unit(st);
                    }
                    Some(ObjK::Mem { .. }) => {
                        let Some(c) = self.tm.as_int(n) else { return self.unsupported(st, "fill of symbolic length in local memory".into()) };
                        let cells: Cells = (0..c as u64).map(|i| Cell { off: i, size: 1, v }).collect();
                        if let Err(e) = self.write_v(&mut st, a, &V::A(cells, c as u64)) {
                            return self.unsupported(st, e);
                        }
                        return unit(st);
                    }
                    None => {
                        self.event(&st, EvKind::Oob, "fill through an invalid pointer".into());
                        return Ok(vec![]);
                    }
                }
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => {
                let Some(t) = targ else { return Err((st, args)) };
                let (s, d) = (self.v_t(&args[0], &Kind::Ptr), self.v_t(&args[1], &Kind::Ptr));
                let n = self.usz(&args[2]);
                let sz = self.size_of(t);
                let n = self.tm.mulc(n, sz as i128);
                if let Err(e) = self.copy_bytes(&mut st, d, s, n) {
                    return self.unsupported(st, e);
                }
                return unit(st);
            }
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
                let Some(t) = targ else { return Err((st, args)) };
                let s = self.v_t(&args[0], &Kind::Ptr);
                let a = self.addr_of(s);
                return match self.read_v(&mut st, a, t) {
                    Ok(v) => self.give(st, dest, v),
                    Err(e) => self.unsupported(st, e),
                };
            }
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" => {
                let s = self.v_t(&args[0], &Kind::Ptr);
                let a = self.addr_of(s);
                let v = args[1].clone();
                return match self.write_v(&mut st, a, &v) {
                    Ok(()) => unit(st),
                    Err(e) => self.unsupported(st, e),
                };
            }
            "transmute" | "transmute_unchecked" => {
                let c = An::cells_of(&args[0]);
                let Some(r) = rty else { return Err((st, args)) };
                let k = kind_of(p, r);
                if k != Kind::Raw {
                    let t = cells_read(&mut self.tm, &c, 0, rsz, &k);
                    return self.give_t(st, dest, t, rsz);
                }
                return self.give(st, dest, V::A(c, rsz));
            }
            "select_unpredictable" => {
                let c = i_args(self, 0);
                let vals: Vec<T> = args[1..3].iter().flat_map(|v| An::cells_of(v)).map(|c| c.v).collect();
                let n1 = An::cells_of(&args[1]).len();
                let (y, n) = self.fork_with(st, c, &vals);
                let mut out = vec![];
                for (s, v, from) in [(y, &args[1], 0), (n, &args[2], n1)] {
                    if let Some((s, k)) = s {
                        let mut cells = An::cells_of(v);
                        for (c, t) in cells.iter_mut().zip(&k[from..]) {
                            c.v = *t;
                        }
                        let v = match v {
                            V::S(_, n) if cells.len() == 1 => V::S(cells[0].v, *n),
                            v => V::A(cells, An::vsize(v)),
                        };
                        out.extend(self.give(s, dest, v).unwrap_or_default());
                    }
                }
                return Ok(self.join_all(out));
            }
            "discriminant_value" => {
                let Some(t) = targ else { return Err((st, args)) };
                let s = self.v_t(&args[0], &Kind::Ptr);
                let a = self.addr_of(s);
                return match self.discriminant(&mut st, a, t) {
                    Ok(v) => self.give_t(st, dest, v, rsz),
                    Err(e) => self.unsupported(st, e),
                };
            }
            "raw_eq" | "compare_bytes" => {
                let (x, y) = (self.v_t(&args[0], &Kind::Ptr), self.v_t(&args[1], &Kind::Ptr));
                let n = if name == "raw_eq" {
                    let Some(t) = targ else { return Err((st, args)) };
                    Some(self.size_of(t) as i128)
                } else {
                    let n = self.usz(&args[2]);
                    self.tm.as_int(n)
                };
                let Some(n) = n else { return self.unsupported(st, "comparison of symbolic length".into()) };
                let (ax, ay) = (self.addr_of(x), self.addr_of(y));
                let mut all = self.tm.int(1);
                for i in 0..n {
                    let xa = Addr { obj: ax.obj, off: self.tm.addc(ax.off, i) };
                    let ya = Addr { obj: ay.obj, off: self.tm.addc(ay.off, i) };
                    let k = Kind::Int(8, false);
                    match (self.read(&mut st, xa, 1, &k), self.read(&mut st, ya, 1, &k)) {
                        (Ok(a), Ok(b)) => {
                            let e = self.tm.eq(a, b);
                            all = self.tm.and(all, e);
                        }
                        (Err(e), _) | (_, Err(e)) => return self.unsupported(st, e),
                    }
                }
                if name == "raw_eq" {
                    return self.give_t(st, dest, all, 1);
                }
                let r = match self.tm.as_int(all) {
                    Some(1) => self.tm.int(0),
                    _ => self.tm.unk("order", -1, 1),
                };
                return self.give_t(st, dest, r, 4);
            }
            _ => {}
        }
        // scalar integer arithmetic
        let ity = f.sig.first().copied().and_then(|t| self.elem_int(t).map(|x| (t, x)));
        if let Some((ty, (bits, signed))) = ity {
            let sz = self.size_of(ty);
            let bk = |n: &str| -> Option<Bin> {
                Some(match n {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "div" => Bin::Div,
                    "rem" => Bin::Rem,
                    "shl" => Bin::Shl,
                    "shr" => Bin::Shr,
                    _ => return None,
                })
            };
            let (lo, hi) = int_range(bits, signed);
            if let Some(k) = name.strip_prefix("wrapping_").and_then(bk) {
                let (a, b) = (i_args(self, 0), i_args(self, 1));
                return match self.bin(&mut st, k, a, b, ty) {
                    Ok(t) => self.give_t(st, dest, t, sz),
                    Err(e) => self.unsupported(st, e),
                };
            }
            if let Some(k) = name.strip_prefix("unchecked_").and_then(bk) {
                let k = match k {
                    Bin::Add => Bin::AddUnchecked,
                    Bin::Sub => Bin::SubUnchecked,
                    Bin::Mul => Bin::MulUnchecked,
                    k => k,
                };
                let (a, b) = (i_args(self, 0), i_args(self, 1));
                return match self.bin(&mut st, k, a, b, ty) {
                    Ok(t) => self.give_t(st, dest, t, sz),
                    Err(e) => self.unsupported(st, e),
                };
            }
            if let Some(k) = name.strip_suffix("_with_overflow").and_then(bk) {
                let (a, b) = (i_args(self, 0), i_args(self, 1));
                let Some(r) = rty else { return Err((st, args)) };
                let fo = self.fields(r);
                return match self.checked(&mut st, k, a, b, bits, signed) {
                    Ok((v, o)) => {
                        let mut c = vec![Cell { off: fo[0].0, size: sz, v }, Cell { off: fo[1].0, size: 1, v: o }];
                        c.sort_by_key(|c| c.off);
                        self.give(st, dest, V::A(c, rsz))
                    }
                    Err(e) => self.unsupported(st, e),
                };
            }
            match name {
                "saturating_add" | "saturating_sub" => {
                    let (a, b) = (i_args(self, 0), i_args(self, 1));
                    if a == Terms::UNDEF || b == Terms::UNDEF {
                        return self.give_t(st, dest, Terms::UNDEF, sz);
                    }
                    let r = if name == "saturating_add" { self.tm.add(a, b) } else { self.tm.sub(a, b) };
                    if self.fits(&st, r, bits, signed) {
                        return self.give_t(st, dest, r, sz);
                    }
                    if self.tm.is_data(r) {
                        let r = self.sat(r, lo, hi);
                        return self.give_t(st, dest, r, sz);
                    }
                    // split on the saturation
                    let l = self.tm.addc(r, -lo);
                    let l = self.tm.ge0(l);
                    let mut out = vec![];
                    let (inl, below) = self.fork_with(st, l, &[r]);
                    if let Some((s, _)) = below {
                        let t = self.tm.int(lo);
                        out.extend(self.give_t(s, dest, t, sz).unwrap_or_default());
                    }
                    if let Some((s, k)) = inl {
                        let r = k[0];
                        let h = self.tm.neg(r);
                        let h = self.tm.addc(h, hi);
                        let h = self.tm.ge0(h);
                        let (ok, above) = self.fork_with(s, h, &[r]);
                        if let Some((s, k)) = ok {
                            out.extend(self.give_t(s, dest, k[0], sz).unwrap_or_default());
                        }
                        if let Some((s, _)) = above {
                            let t = self.tm.int(hi);
                            out.extend(self.give_t(s, dest, t, sz).unwrap_or_default());
                        }
                    }
                    return Ok(out);
                }
                "exact_div" => {
                    let (a, b) = (i_args(self, 0), i_args(self, 1));
                    return match self.bin(&mut st, Bin::Div, a, b, ty) {
                        Ok(t) => self.give_t(st, dest, t, sz),
                        Err(e) => self.unsupported(st, e),
                    };
                }
                "integer_min" | "integer_max" => {
                    let (a, b) = (i_args(self, 0), i_args(self, 1));
                    if a == Terms::UNDEF || b == Terms::UNDEF {
                        return self.give_t(st, dest, Terms::UNDEF, sz);
                    }
                    let c = self.tm.ge(b, a);
                    let (x, y) = if name == "integer_min" { (a, b) } else { (b, a) };
                    if self.tm.is_data(c) {
                        let (l, h) = (self.tm.range(a), self.tm.range(b));
                        let r = match (self.tm.as_int(a), self.tm.as_int(b)) {
                            _ if h.0 >= l.1 => x,
                            _ if l.0 >= h.1 => y,
                            (_, Some(k)) => if name == "integer_min" { self.sat(a, l.0, k) } else { self.sat(a, k, l.1) },
                            (Some(k), _) => if name == "integer_min" { self.sat(b, h.0, k) } else { self.sat(b, k, h.1) },
                            _ => self.tm.sel(c, x, y),
                        };
                        return self.give_t(st, dest, r, sz);
                    }
                    let (yes, no) = self.fork_with(st, c, &[x, y]);
                    let mut out = vec![];
                    for (s, i) in [(yes, 0), (no, 1)] {
                        if let Some((s, k)) = s {
                            out.extend(self.give_t(s, dest, k[i], sz).unwrap_or_default());
                        }
                    }
                    return Ok(out);
                }
                "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "ctlz_nonzero" | "cttz_nonzero" => {
                    let a = i_args(self, 0);
                    let r = match self.tm.as_int(a) {
                        Some(c) => {
                            let u = if c < 0 { (c + (1i128 << bits)) as u128 } else { c as u128 };
                            let v: u128 = match name {
                                "ctpop" => u.count_ones() as u128,
                                "ctlz" | "ctlz_nonzero" => (u.leading_zeros() - (128 - bits as u32)) as u128,
                                "cttz" | "cttz_nonzero" => u.trailing_zeros().min(bits as u32) as u128,
                                "bswap" => u.swap_bytes() >> (128 - bits as u32),
                                _ => u.reverse_bits() >> (128 - bits as u32),
                            };
                            let v = self.tm.int(v as i128);
                            match rty.and_then(|r| self.elem_int(r)) {
                                Some((b, s)) => self.tm.wrap(v, b, s),
                                None => v,
                            }
                        }
                        None if a == Terms::UNDEF => a,
                        None if name == "bswap" => {
                            let u = self.tm.wrap(a, bits, false);
                            let n = bits as u64 / 8;
                            let mut acc = self.tm.int(0);
                            for i in 0..n {
                                let b = part(&mut self.tm, &Cell { off: 0, size: n, v: u }, i, 1);
                                let b = self.tm.mulc(b, 1i128 << (8 * (n - 1 - i)));
                                acc = self.tm.add(acc, b);
                            }
                            self.tm.wrap(acc, bits, signed)
                        }
                        None if name == "ctpop" => self.tm.iop(IK::Ctpop, vec![a], 0, bits as i128),
                        None => {
                            let (l, h) = if name.starts_with("ct") { (0, bits as i128) } else { (lo, hi) };
                            self.tm.iop(IK::Other(name.bytes().map(|b| b as u32).sum()), vec![a], l, h)
                        }
                    };
                    return self.give_t(st, dest, r, rsz);
                }
                "rotate_left" | "rotate_right" => {
                    let (a, b) = (i_args(self, 0), self.v_t(&args[1], &Kind::Int(32, false)));
                    if let Some(n) = self.tm.as_int(b) {
                        let n = n.rem_euclid(bits as i128);
                        let n = if name == "rotate_left" { n } else { (bits as i128 - n) % bits as i128 };
                        let u = self.tm.wrap(a, bits, false);
                        let m = self.tm.mulc(u, 1i128 << n);
                        let modu = self.tm.int(1i128 << bits);
                        let l = self.tm.modulo(m, modu);
                        let h = self.tm.divc(m, 1i128 << bits);
                        let r = self.tm.add(l, h);
                        let r = self.tm.wrap(r, bits, signed);
                        return self.give_t(st, dest, r, sz);
                    }
                    let r = self.tm.iop(IK::Other(77), vec![a, b], lo, hi);
                    return self.give_t(st, dest, r, sz);
                }
                _ => {}
            }
        }
        // floating point
        let fty = f.sig.first().map(|t| p.tys[*t as usize].kind.clone());
        if let Some(TyKind::Float(bits)) = fty {
            let nm = name.strip_suffix("f32").unwrap_or(name).trim_end_matches('_');
            let nm = nm.strip_suffix("_f64").unwrap_or(nm);
            let mut a: Vec<T> = vec![];
            for v in &args {
                a.push(self.v_t(v, &Kind::Float(32)));
            }
            if bits == 32 && rsz == 4 {
                let k = match nm {
                    "sqrt" => Some(FK::Sqrt),
                    "pow" | "powf" => Some(FK::Pow),
                    "log" => Some(FK::Ln),
                    "exp" => Some(FK::Exp),
                    "floor" => Some(FK::Floor),
                    "ceil" => Some(FK::Ceil),
                    "trunc" => Some(FK::TruncF),
                    "round" => Some(FK::Round),
                    "rint" | "nearbyint" | "round_ties_even" => Some(FK::RoundEven),
                    "fabs" => Some(FK::Abs),
                    "fma" | "fmuladd" => Some(FK::Fma),
                    "minnum" | "minimum" | "minimum_number_nsz" => Some(FK::Min),
                    "maxnum" | "maximum" | "maximum_number_nsz" => Some(FK::Max),
                    "fadd_fast" | "fadd_algebraic" => Some(FK::Add),
                    "fsub_fast" | "fsub_algebraic" => Some(FK::Sub),
                    "fmul_fast" | "fmul_algebraic" => Some(FK::Mul),
                    "fdiv_fast" | "fdiv_algebraic" => Some(FK::Div),
                    _ => None,
                };
                if let Some(k) = k {
                    let t = if a.contains(&Terms::UNDEF) { Terms::UNDEF } else { self.tm.fop(k, a) };
                    return self.give_t(st, dest, t, 4);
                }
                match nm {
                    "powi" | "copysign" | "sin" | "cos" | "exp2" | "log2" | "log10" => {
                        let t = self.tm.funk();
                        return self.give_t(st, dest, t, 4);
                    }
                    _ => {}
                }
            }
            if name == "float_to_int_unchecked" {
                if let Some((b, s)) = rty.and_then(|r| self.elem_int(r)) {
                    let (lo, hi) = int_range(b, s);
                    let t = self.tm.cvt(a[0], Rnd::Trunc, lo, hi, true);
                    return self.give_t(st, dest, t, rsz);
                }
            }
            if bits != 32 {
                if let Some(TyKind::Float(_)) = rty.map(|r| &p.tys[r as usize].kind) {
                    let t = self.tm.funk();
                    return self.give_t(st, dest, t, rsz);
                }
            }
        }
        if let Some(s) = name.strip_prefix("simd_") {
            return self.simd(st, fid, s, args, dest);
        }
        Err((st, args))
    }

    fn simd(&mut self, mut st: State, fid: u32, name: &str, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let Some(rty) = f.ret else { return Err((st, args)) };
        let rl = self.lanes_of(rty);
        let (rk, resz) = match rl {
            Some((e, _)) => (kind_of(p, e), self.size_of(e)),
            None => (Kind::Raw, 1),
        };
        let al = f.sig.first().and_then(|t| self.lanes_of(*t));
        let ak = al.map(|(e, _)| kind_of(p, e)).unwrap_or(Kind::Raw);
        let is_f = matches!(ak, Kind::Float(32));
        macro_rules! lanes {
            ($i:expr) => {{
                let v = args[$i].clone();
                match self.lanes(&v, f.sig[$i]) {
                    Some(l) => l,
                    None => return self.unsupported(st, format!("simd_{name}")),
                }
            }};
        }
        macro_rules! done {
            ($l:expr) => {{
                let l: Vec<T> = $l;
                let v = self.from_lanes(&l, resz);
                return self.give(st, dest, v);
            }};
        }
        match name {
            "splat" => {
                let v = self.v_t(&args[0], &rk);
                let n = rl.unwrap().1;
                done!(vec![v; n as usize])
            }
            "extract" | "extract_dyn" => {
                let l = lanes!(0);
                let i = self.imm(&args[1]);
                if i < 0 || i as usize >= l.len() {
                    return self.unsupported(st, "simd_extract index".into());
                }
                let sz = self.size_of(rty);
                return self.give_t(st, dest, l[i as usize], sz);
            }
            "insert" | "insert_dyn" => {
                let mut l = lanes!(0);
                let i = self.imm(&args[1]);
                if i < 0 || i as usize >= l.len() {
                    return self.unsupported(st, "simd_insert index".into());
                }
                l[i as usize] = self.v_t(&args[2], &rk);
                done!(l)
            }
            "shuffle" => {
                let a = lanes!(0);
                let b = lanes!(1);
                let ic = An::cells_of(&args[2]);
                let n = rl.unwrap().1;
                let mut out = vec![];
                for i in 0..n {
                    let t = cells_read(&mut self.tm, &ic, 4 * i, 4, &Kind::Int(32, false));
                    match self.tm.as_int(t) {
                        Some(k) if (k as usize) < a.len() => out.push(a[k as usize]),
                        Some(k) if (k as usize) < a.len() + b.len() => out.push(b[k as usize - a.len()]),
                        _ => return self.unsupported(st, "shuffle index".into()),
                    }
                }
                done!(out)
            }
            "cast" | "as" => {
                let a = lanes!(0);
                let mut out = vec![];
                for x in a {
                    out.push(if x == Terms::UNDEF {
                        x
                    } else {
                        match (&ak, &rk) {
                            (Kind::Float(32), Kind::Float(32)) => x,
                            (Kind::Float(32), Kind::Int(b, s)) => {
                                let (lo, hi) = int_range(*b, *s);
                                self.tm.cvt(x, Rnd::Trunc, lo, hi, name == "cast")
                            }
                            (Kind::Int(..), Kind::Float(32)) => self.tm.itof(x),
                            (Kind::Int(..), Kind::Int(b, s)) => self.tm.wrap(x, *b, *s),
                            (_, Kind::Float(_)) => self.tm.funk(),
                            _ => return self.unsupported(st, "simd_cast".into()),
                        }
                    });
                }
                done!(out)
            }
            "select" => {
                let m = lanes!(0);
                let (a, b) = (lanes!(1), lanes!(2));
                let (bits, signed) = match ak {
                    Kind::Int(b, s) => (b, s),
                    _ => return self.unsupported(st, "simd_select mask".into()),
                };
                let mut out = vec![];
                for i in 0..a.len() {
                    if m[i] == Terms::UNDEF {
                        out.push(m[i]);
                        continue;
                    }
                    let c = self.neg_lane(m[i], bits, signed);
                    out.push(self.tm.sel(c, a[i], b[i]));
                }
                done!(out)
            }
            "select_bitmask" => {
                let m = {
                    let v = args[0].clone();
                    let c = An::cells_of(&v);
                    let n = An::vsize(&v);
                    cells_read(&mut self.tm, &c, 0, n, &Kind::Int(8 * n as u16, false))
                };
                let (a, b) = (lanes!(1), lanes!(2));
                let mut out = vec![];
                for i in 0..a.len() {
                    let c = self.bit(m, i as u32);
                    out.push(self.tm.sel(c, a[i], b[i]));
                }
                done!(out)
            }
            "bitmask" => {
                let m = lanes!(0);
                let (bits, signed) = match ak {
                    Kind::Int(b, s) => (b, s),
                    _ => return self.unsupported(st, "simd_bitmask".into()),
                };
                let mut v = vec![];
                for x in m {
                    v.push(self.neg_lane(x, bits, signed));
                }
                let t = self.mask_bits(&v);
                let sz = self.size_of(rty);
                return self.give_t(st, dest, t, sz);
            }
            "fma" | "relaxed_fma" => {
                let (a, b, c) = (lanes!(0), lanes!(1), lanes!(2));
                let mut out = vec![];
                for i in 0..a.len() {
                    out.push(if [a[i], b[i], c[i]].contains(&Terms::UNDEF) { Terms::UNDEF } else { self.tm.fop(FK::Fma, vec![a[i], b[i], c[i]]) });
                }
                done!(out)
            }
            "fsqrt" | "floor" | "ceil" | "trunc" | "round" | "round_ties_even" | "fabs" | "neg" | "flog" | "fexp" => {
                let a = lanes!(0);
                let k = match name {
                    "fsqrt" => FK::Sqrt,
                    "floor" => FK::Floor,
                    "ceil" => FK::Ceil,
                    "trunc" => FK::TruncF,
                    "round" => FK::Round,
                    "round_ties_even" => FK::RoundEven,
                    "fabs" => FK::Abs,
                    "flog" => FK::Ln,
                    "fexp" => FK::Exp,
                    _ => FK::Neg,
                };
                let mut out = vec![];
                for x in a {
                    out.push(if x == Terms::UNDEF {
                        x
                    } else if is_f {
                        self.tm.fop(k, vec![x])
                    } else {
                        let Kind::Int(b, s) = ak else { return self.unsupported(st, "simd_neg".into()) };
                        let n = self.tm.neg(x);
                        self.tm.wrap(n, b, s)
                    });
                }
                done!(out)
            }
            "lt" | "le" | "gt" | "ge" | "eq" | "ne" => {
                let (a, b) = (lanes!(0), lanes!(1));
                let Kind::Int(bits, signed) = rk else { return self.unsupported(st, "simd comparison".into()) };
                let ones = self.tm.int(if signed { -1 } else { (1i128 << bits) - 1 });
                let z = self.tm.int(0);
                let mut out = vec![];
                for i in 0..a.len() {
                    if a[i] == Terms::UNDEF || b[i] == Terms::UNDEF {
                        out.push(Terms::UNDEF);
                        continue;
                    }
                    let c = if is_f {
                        match name {
                            "lt" => self.tm.fcmp(FC::Lt, a[i], b[i]),
                            "le" => self.tm.fcmp(FC::Le, a[i], b[i]),
                            "gt" => self.tm.fcmp(FC::Lt, b[i], a[i]),
                            "ge" => self.tm.fcmp(FC::Le, b[i], a[i]),
                            _ => self.tm.fcmp(FC::Eq, a[i], b[i]),
                        }
                    } else {
                        match name {
                            "lt" => self.tm.gt(b[i], a[i]),
                            "le" => self.tm.ge(b[i], a[i]),
                            "gt" => self.tm.gt(a[i], b[i]),
                            "ge" => self.tm.ge(a[i], b[i]),
                            _ => self.tm.eq(a[i], b[i]),
                        }
                    };
                    let c = if name == "ne" { self.tm.not(c) } else { c };
                    out.push(self.tm.sel(c, ones, z));
                }
                done!(out)
            }
            "fmin" | "fmax" | "minimum_number_nsz" | "maximum_number_nsz" => {
                let (a, b) = (lanes!(0), lanes!(1));
                let k = if name.contains("min") { FK::Min } else { FK::Max };
                let mut out = vec![];
                for i in 0..a.len() {
                    out.push(self.lane2(a[i], b[i], &mut |an, x, y| an.tm.fop(k, vec![x, y])));
                }
                done!(out)
            }
            "saturating_add" | "saturating_sub" => {
                let (a, b) = (lanes!(0), lanes!(1));
                let Kind::Int(bits, signed) = rk else { return self.unsupported(st, "simd saturation".into()) };
                let (lo, hi) = int_range(bits, signed);
                let mut out = vec![];
                for i in 0..a.len() {
                    out.push(self.lane2(a[i], b[i], &mut |an, x, y| {
                        let r = if name == "saturating_add" { an.tm.add(x, y) } else { an.tm.sub(x, y) };
                        an.sat(r, lo, hi)
                    }));
                }
                done!(out)
            }
            "add" | "sub" | "mul" | "div" | "rem" | "and" | "or" | "xor" | "shl" | "shr" => {
                let (a, b) = (lanes!(0), lanes!(1));
                let (e, _) = rl.unwrap();
                let k = match name {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "div" => Bin::Div,
                    "rem" => Bin::Rem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    _ => Bin::Shr,
                };
                let mut out = vec![];
                for i in 0..a.len() {
                    match self.bin(&mut st, k, a[i], b[i], e) {
                        Ok(t) => out.push(t),
                        Err(e) => return self.unsupported(st, e),
                    }
                }
                done!(out)
            }
            _ => self.unsupported(st, format!("simd_{name}")),
        }
    }

    pub fn llvm(&mut self, st: State, fid: u32, name: &str, args: Vec<V>, dest: Addr) -> R {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let Some(rty) = f.ret else { return Err((st, args)) };
        let n = name.strip_prefix("llvm.x86.").unwrap_or(name);
        let resz = self.lanes_of(rty).map(|(e, _)| self.size_of(e)).unwrap_or(1);
        let mut vs: Vec<Vec<T>> = vec![];
        for (i, a) in args.iter().enumerate() {
            let t = f.sig.get(i).copied();
            vs.push(t.and_then(|t| self.lanes(a, t)).unwrap_or_default());
        }
        macro_rules! done {
            ($l:expr) => {{
                let l: Vec<T> = $l;
                let v = self.from_lanes(&l, resz);
                return self.give(st, dest, v);
            }};
        }
        let fop2 = |an: &mut Self, k: FK, a: &[T], b: &[T]| -> Vec<T> {
            (0..a.len())
                .map(|i| an.lane2(a[i], b[i], &mut |an, x, y| an.tm.fop(k, vec![x, y])))
                .collect()
        };
        match n {
            "avx.cmp.ps.256" | "sse.cmp.ps" => {
                let imm = self.imm(&args[2]);
                let ones = self.tm.int(u32::MAX as i128);
                let z = self.tm.int(0);
                let mut out = vec![];
                for i in 0..vs[0].len() {
                    let Some(c) = self.cmp_imm(imm, vs[0][i], vs[1][i]) else { return self.unsupported(st, format!("{name} {imm}")) };
                    let s = self.tm.sel(c, ones, z);
                    out.push(self.tm.frombits(s));
                }
                done!(out)
            }
            "avx512.mask.cmp.ps.512" => {
                let imm = self.imm(&args[2]);
                let m = self.usz_any(&args[3]);
                let mut bits = vec![];
                for i in 0..vs[0].len() {
                    let Some(c) = self.cmp_imm(imm, vs[0][i], vs[1][i]) else { return self.unsupported(st, format!("{name} {imm}")) };
                    let b = self.bit(m, i as u32);
                    bits.push(self.tm.and(c, b));
                }
                let t = self.mask_bits(&bits);
                let sz = self.size_of(rty);
                let signed = matches!(p.tys[rty as usize].kind, TyKind::Int { signed: true, .. });
                let t = self.tm.wrap(t, 8 * sz as u16, signed);
                self.give_t(st, dest, t, sz)
            }
            "avx.cvt.ps2dq.256" | "avx.cvtt.ps2dq.256" | "sse2.cvtps2dq" | "sse2.cvttps2dq" => {
                let rnd = if n.contains("cvtt") { Rnd::Trunc } else { Rnd::Near };
                let out = vs[0].iter().map(|x| if *x == Terms::UNDEF { *x } else { self.tm.cvt(*x, rnd, i32::MIN as i128, i32::MAX as i128, true) }).collect();
                done!(out)
            }
            "avx512.mask.cvtps2dq.512" | "avx512.mask.cvttps2dq.512" => {
                let rnd = if n.contains("cvtt") {
                    Rnd::Trunc
                } else {
                    match self.imm(&args[3]) {
                        4 | 8 => Rnd::Near,
                        11 | 3 => Rnd::Trunc,
                        _ => return self.unsupported(st, format!("rounding mode of {name}")),
                    }
                };
                let m = self.usz_any(&args[2]);
                let mut out = vec![];
                for i in 0..vs[0].len() {
                    let x = vs[0][i];
                    let b = self.bit(m, i as u32);
                    let v = if x == Terms::UNDEF { x } else { self.tm.cvt(x, rnd, i32::MIN as i128, i32::MAX as i128, true) };
                    let s = vs[1][i];
                    out.push(self.tm.sel(b, v, s));
                }
                done!(out)
            }
            "avx512.mask.rndscale.ps.512" => {
                let imm = self.imm(&args[1]);
                let k = match imm {
                    0 | 8 => FK::RoundEven,
                    1 | 9 => FK::Floor,
                    2 | 10 => FK::Ceil,
                    3 | 11 => FK::TruncF,
                    _ => return self.unsupported(st, format!("{name} {imm}")),
                };
                let m = self.usz_any(&args[3]);
                let mut out = vec![];
                for i in 0..vs[0].len() {
                    let x = vs[0][i];
                    let b = self.bit(m, i as u32);
                    let v = if x == Terms::UNDEF { x } else { self.tm.fop(k, vec![x]) };
                    let s = vs[2][i];
                    out.push(self.tm.sel(b, v, s));
                }
                done!(out)
            }
            "avx.round.ps.256" | "sse41.round.ps" => {
                let imm = self.imm(&args[1]);
                let k = match imm & 7 {
                    0 => FK::RoundEven,
                    1 => FK::Floor,
                    2 => FK::Ceil,
                    3 => FK::TruncF,
                    _ => return self.unsupported(st, format!("{name} {imm}")),
                };
                let out = vs[0].iter().map(|x| if *x == Terms::UNDEF { *x } else { self.tm.fop(k, vec![*x]) }).collect();
                done!(out)
            }
            "avx.max.ps.256" | "avx512.max.ps.512" | "sse.max.ps" => {
                let out = fop2(self, FK::Max, &vs[0], &vs[1]);
                done!(out)
            }
            "avx.min.ps.256" | "avx512.min.ps.512" | "sse.min.ps" => {
                let out = fop2(self, FK::Min, &vs[0], &vs[1]);
                done!(out)
            }
            "avx2.packusdw" | "avx2.packuswb" | "avx512.packusdw.512" | "avx512.packuswb.512" | "sse41.packusdw" | "sse2.packuswb.128" | "avx2.packssdw" | "avx2.packsswb" => {
                let unsigned = n.contains("packus");
                let to8 = n.contains("wb");
                let (lo, hi) = int_range(if to8 { 8 } else { 16 }, !unsigned);
                let per = if to8 { 8 } else { 4 };
                let mut out = vec![];
                for g in 0..vs[0].len() / per {
                    for s in 0..2 {
                        for i in 0..per {
                            let x = vs[s][g * per + i];
                            let y = self.sat(x, lo, hi);
                            out.push(y);
                        }
                    }
                }
                // lanes of the result type may be signed
                let rs = self.lanes_of(rty).and_then(|(e, _)| self.elem_int_pub(e));
                if let Some((b, s)) = rs {
                    for x in out.iter_mut() {
                        if *x != Terms::UNDEF {
                            *x = self.tm.wrap(*x, b, s);
                        }
                    }
                }
                done!(out)
            }
            "avx2.permd" | "avx2.permps" | "avx512.permvar.sf.512" | "avx512.permvar.si.512" => {
                let k = vs[0].len() as i128;
                let mut out = vec![];
                for i in 0..vs[1].len() {
                    let Some(j) = self.tm.as_int(vs[1][i]) else { return self.unsupported(st, format!("index of {name}")) };
                    out.push(vs[0][j.rem_euclid(k) as usize]);
                }
                done!(out)
            }
            "avx512.vpermi2var.ps.512" | "avx512.vpermi2var.d.512" => {
                let k = vs[0].len() as i128;
                let mut out = vec![];
                for i in 0..vs[1].len() {
                    let Some(j) = self.tm.as_int(vs[1][i]) else { return self.unsupported(st, format!("index of {name}")) };
                    let j = j.rem_euclid(2 * k);
                    out.push(if j < k { vs[0][j as usize] } else { vs[2][(j - k) as usize] });
                }
                done!(out)
            }
            "avx2.pshuf.b" | "avx512.pshuf.b.512" | "ssse3.pshuf.b.128" => {
                let z = self.tm.int(0);
                let mut out = vec![];
                for i in 0..vs[1].len() {
                    let Some(j) = self.tm.as_int(vs[1][i]) else { return self.unsupported(st, format!("index of {name}")) };
                    let j = j.rem_euclid(256);
                    out.push(if j >= 128 { z } else { vs[0][(i / 16) * 16 + (j as usize & 15)] });
                }
                done!(out)
            }
            "avx512.mask.expand.ps.512" => {
                let m = self.usz_any(&args[2]);
                let mut out = vec![];
                let mut k = 0;
                for i in 0..vs[0].len() {
                    let b = self.bit(m, i as u32);
                    match self.tm.as_int(b) {
                        Some(0) => out.push(vs[1][i]),
                        Some(_) => {
                            out.push(vs[0][k]);
                            k += 1;
                        }
                        None => return self.unsupported(st, format!("mask of {name}")),
                    }
                }
                done!(out)
            }
            "sse.ldmxcsr" | "sse.stmxcsr" => self.unsupported(st, name.into()),
            _ => self.unsupported(st, format!("vector instruction {name}")),
        }
    }
    fn usz_any(&mut self, v: &V) -> T {
        let c = An::cells_of(v);
        let n = An::vsize(v);
        cells_read(&mut self.tm, &c, 0, n, &Kind::Int(8 * n as u16, false))
    }
    fn elem_int_pub(&self, e: TyId) -> Option<(u16, bool)> {
        self.elem_int(e)
    }
}
