//! Hash-consed abstract values: integer polynomials over atoms, boolean conditions, floating point
//! expressions, pointers.  Two program points that hold the same node hold the same value.
use rustc_hash::{FxHashMap, FxHashSet};

pub type T = u32;
/// sorted list of atom ids (0 = empty slot), highest first
pub type Mono = [T; 4];
pub const ONE: Mono = [0; 4];

#[derive(Clone, PartialEq, Eq, Hash, Debug, Copy, PartialOrd, Ord)]
pub enum FC {
    Lt,
    Le,
    Eq,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Copy, PartialOrd, Ord)]
pub enum FK {
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Fma,
    Min,
    Max,
    Sqrt,
    Floor,
    Ceil,
    TruncF,
    Round,
    RoundEven,
    Pow,
    Ln,
    Exp,
    Abs,
    Rem,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Copy, PartialOrd, Ord)]
pub enum IK {
    And,
    Or,
    Xor,
    Shl,
    Shr,
    /// reduction modulo 2^bits into the type's range
    Wrap { bits: u16, signed: bool },
    Min,
    Max,
    Rem,
    Ctpop,
    /// clamp into the range of the node
    Sat,
    /// address of an object
    Addr(u32),
    Other(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Copy, PartialOrd, Ord)]
pub enum Rnd {
    /// toward zero
    Trunc,
    /// to nearest even
    Near,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Undef,
    Poly(Box<[(Mono, i128)]>),
    /// symbolic parameter or unknown
    Sym(u32),
    /// floor(a / b), a >= 0, b > 0
    Div(T, T),
    /// byte of an image plane
    Byte { obj: u32, off: T },
    FBits(T),
    /// float to integer, saturating to lo..=hi; `indef`: x86 semantics (out of range gives i32::MIN)
    Cvt { f: T, rnd: Rnd, lo: i128, hi: i128, indef: bool },
    IOp { k: IK, a: Box<[T]>, lo: i128, hi: i128 },
    Sel(T, T, T),
    Ge(T),
    Eq(T),
    FCmp(FC, T, T),
    Not(T),
    And(T, T),
    Or(T, T),
    // floats
    F(u32),
    FOp(FK, Box<[T]>),
    IToF(T),
    FromBits(T),
    FUnk(u32),
    // pointers
    Ptr(u32, T),
    VT(u32),
    Fn(u32),
    Foreign(u32),
}

#[derive(Clone, Debug)]
pub struct SymInfo {
    pub name: String,
    pub lo: i128,
    pub hi: i128,
    pub unknown: bool,
}

pub struct Terms {
    bound_vars: Vec<T>,
    pub nodes: Vec<N>,
    map: FxHashMap<N, T>,
    range: Vec<(i128, i128)>,
    /// depends on image data or floating point values
    data: Vec<bool>,
    pub syms: Vec<SymInfo>,
    pub nfunk: u32,
    consts: FxHashMap<i128, T>,
    pub overflowed: bool,
    not_memo: FxHashMap<T, T>,
    pobjs: FxHashMap<T, std::rc::Rc<[u32]>>,
}

pub const BIG: i128 = 1 << 100;

fn clampb(x: i128) -> i128 {
    x.clamp(-BIG, BIG)
}
fn mulb(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) {
        Some(x) => clampb(x),
        None => {
            if (a > 0) == (b > 0) {
                BIG
            } else {
                -BIG
            }
        }
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut v: Vec<T> = a.iter().chain(b.iter()).copied().filter(|x| *x != 0).collect();
    if v.len() > 4 {
        return None;
    }
    v.sort_unstable_by(|x, y| y.cmp(x));
    let mut m = ONE;
    m[..v.len()].copy_from_slice(&v);
    Some(m)
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms { bound_vars: vec![], nodes: vec![], map: Default::default(), range: vec![], data: vec![], syms: vec![], nfunk: 0, consts: Default::default(), overflowed: false, not_memo: Default::default(), pobjs: Default::default() };
        t.push(N::Undef, (-BIG, BIG), false);
        t
    }
    fn push(&mut self, n: N, r: (i128, i128), d: bool) -> T {
        if let Some(&x) = self.map.get(&n) {
            return x;
        }
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.map.insert(n, id);
        self.range.push(r);
        self.data.push(d);
        id
    }
    #[inline]
    pub fn n(&self, t: T) -> &N {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn range(&self, t: T) -> (i128, i128) {
        self.range[t as usize]
    }
    #[inline]
    pub fn is_data(&self, t: T) -> bool {
        self.data[t as usize]
    }
    pub const UNDEF: T = 0;

    pub fn int(&mut self, v: i128) -> T {
        if let Some(&t) = self.consts.get(&v) {
            return t;
        }
        let n = if v == 0 { N::Poly(Box::new([])) } else { N::Poly(Box::new([(ONE, v)])) };
        let t = self.push(n, (clampb(v), clampb(v)), false);
        self.consts.insert(v, t);
        t
    }
    #[inline]
    pub fn as_int(&self, t: T) -> Option<i128> {
        match &self.nodes[t as usize] {
            N::Poly(p) => match p.len() {
                0 => Some(0),
                1 if p[0].0 == ONE => Some(p[0].1),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn sym(&mut self, name: &str, lo: i128, hi: i128) -> T {
        let id = self.syms.len() as u32;
        self.syms.push(SymInfo { name: name.into(), lo, hi, unknown: false });
        self.push(N::Sym(id), (lo, hi), false)
    }
    pub fn bound_var(&mut self, depth: usize) -> T {
        while self.bound_vars.len() <= depth {
            let t = self.sym("i", 0, (1i128 << 64) - 1);
            self.bound_vars.push(t);
        }
        self.bound_vars[depth]
    }
    pub fn unk(&mut self, name: &str, lo: i128, hi: i128) -> T {
        let t = self.sym(name, lo, hi);
        self.syms.last_mut().unwrap().unknown = true;
        t
    }
    pub fn funk(&mut self) -> T {
        self.nfunk += 1;
        let n = self.nfunk;
        self.push(N::FUnk(n), (-BIG, BIG), true)
    }
    pub fn is_intlike(&self, t: T) -> bool {
        matches!(
            self.n(t),
            N::Poly(_) | N::Sym(_) | N::Div(..) | N::Byte { .. } | N::FBits(_) | N::Cvt { .. } | N::IOp { .. } | N::Ge(_) | N::Eq(_) | N::FCmp(..) | N::Not(_) | N::And(..) | N::Or(..)
        ) || matches!(self.n(t), N::Sel(_, a, b) if self.is_intlike(*a) && self.is_intlike(*b))
    }
    pub fn is_float(&self, t: T) -> bool {
        matches!(self.n(t), N::F(_) | N::FOp(..) | N::IToF(_) | N::FromBits(_) | N::FUnk(_)) || matches!(self.n(t), N::Sel(_, a, b) if self.is_float(*a) && self.is_float(*b))
    }

    // ---------------------------------------------------------------- polynomials
    pub fn poly(&self, t: T) -> Vec<(Mono, i128)> {
        match self.n(t) {
            N::Poly(p) => p.to_vec(),
            _ => vec![([t, 0, 0, 0], 1)],
        }
    }
    pub fn mk_poly(&mut self, mut v: Vec<(Mono, i128)>) -> T {
        v.sort_unstable_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<(Mono, i128)> = Vec::with_capacity(v.len());
        for (m, c) in v {
            if let Some(l) = out.last_mut() {
                if l.0 == m {
                    match l.1.checked_add(c) {
                        Some(x) => l.1 = x,
                        None => {
                            self.overflowed = true;
                            return self.unk("overflow", -BIG, BIG);
                        }
                    }
                    continue;
                }
            }
            out.push((m, c));
        }
        out.retain(|x| x.1 != 0);
        if out.is_empty() {
            return self.int(0);
        }
        if out.len() == 1 {
            if out[0].0 == ONE {
                return self.int(out[0].1);
            }
            if out[0].1 == 1 && out[0].0[1] == 0 {
                return out[0].0[0];
            }
        }
        let n = N::Poly(out.into_boxed_slice());
        if let Some(&x) = self.map.get(&n) {
            return x;
        }
        let (r, d) = match &n {
            N::Poly(p) => {
                let (mut lo, mut hi) = (0i128, 0i128);
                let mut d = false;
                for (m, c) in p.iter() {
                    let (a, b) = self.mono_range(m);
                    for x in m {
                        if *x != 0 {
                            d |= self.is_data(*x);
                        }
                    }
                    let (x, y) = (mulb(a, *c), mulb(b, *c));
                    lo = clampb(lo + x.min(y));
                    hi = clampb(hi + x.max(y));
                }
                let pv = p.to_vec();
                if let Some((l2, h2)) = self.residue_range(&pv) {
                    lo = lo.max(l2);
                    hi = hi.min(h2);
                }
                ((lo, hi), d)
            }
            _ => unreachable!(),
        };
        self.push(n, r, d)
    }
    /// tighter range of polynomials that contain q*(a - d*floor(a/d))
    fn residue_range(&mut self, p: &[(Mono, i128)]) -> Option<(i128, i128)> {
        for (m, c) in p {
            if m[0] == 0 || m[1] != 0 {
                continue;
            }
            if let N::Div(a, d) = *self.n(m[0]) {
                let Some(dc) = self.as_int(d) else { continue };
                if c % dc != 0 {
                    continue;
                }
                let q = -c / dc;
                // remove q*a - q*d*floor(a/d)
                let mut rest: Vec<(Mono, i128)> = p.iter().filter(|x| x.0 != *m).copied().collect();
                let pa = self.poly(a);
                // worthwhile only when it cancels the leading part
                let hits = pa.iter().filter(|(m2, c2)| rest.iter().any(|(m3, c3)| m3 == m2 && *c3 == q * c2)).count();
                if hits == 0 {
                    continue;
                }
                rest.extend(pa.into_iter().map(|(m, c)| (m, -q * c)));
                let r = self.mk_poly(rest);
                let (l, h) = self.range(r);
                let (x, y) = (0, q * (dc - 1));
                return Some((clampb(l + x.min(y)), clampb(h + x.max(y))));
            }
        }
        None
    }
    pub fn mono_range(&self, m: &Mono) -> (i128, i128) {
        let (mut lo, mut hi) = (1i128, 1i128);
        for x in m {
            if *x == 0 {
                break;
            }
            let (a, b) = self.range(*x);
            let c = [mulb(lo, a), mulb(lo, b), mulb(hi, a), mulb(hi, b)];
            lo = *c.iter().min().unwrap();
            hi = *c.iter().max().unwrap();
        }
        (lo, hi)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
            return self.int(x + y);
        }
        let mut v = self.poly(a);
        v.extend(self.poly(b));
        self.mk_poly(v)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.int(0);
        }
        if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
            return self.int(x - y);
        }
        let mut v = self.poly(a);
        v.extend(self.poly(b).into_iter().map(|(m, c)| (m, -c)));
        self.mk_poly(v)
    }
    pub fn addc(&mut self, a: T, c: i128) -> T {
        let c = self.int(c);
        self.add(a, c)
    }
    pub fn mulc(&mut self, a: T, c: i128) -> T {
        let c = self.int(c);
        self.mul(a, c)
    }
    pub fn neg(&mut self, a: T) -> T {
        self.mulc(a, -1)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
            if let Some(z) = x.checked_mul(y) {
                return self.int(z);
            }
        }
        let pa = self.poly(a);
        let pb = self.poly(b);
        let mut v = Vec::with_capacity(pa.len() * pb.len());
        for (m, c) in &pa {
            for (n, d) in &pb {
                match (mono_mul(m, n), c.checked_mul(*d)) {
                    (Some(mn), Some(cd)) => v.push((mn, cd)),
                    _ => {
                        self.overflowed = true;
                        return self.unk("degree", -BIG, BIG);
                    }
                }
            }
        }
        self.mk_poly(v)
    }
    /// floor(a / d); the caller guarantees a >= 0 (or wants floor semantics) and d > 0
    pub fn div(&mut self, a: T, d: T) -> T {
        if let Some(dc) = self.as_int(d) {
            if dc <= 0 {
                return self.unk("div", -BIG, BIG);
            }
            return self.divc(a, dc);
        }
        if let Some(0) = self.as_int(a) {
            return self.int(0);
        }
        // exact polynomial quotient by a monomial
        let pd = self.poly(d);
        if pd.len() == 1 {
            let (dm, dc) = pd[0];
            let pa = self.poly(a);
            let mut q = vec![];
            let mut ok = true;
            for (m, c) in &pa {
                match mono_quot(m, &dm) {
                    Some(r) if c % dc == 0 => q.push((r, c / dc)),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return self.mk_poly(q);
            }
        }
        let (al, ah) = self.range(a);
        let (dl, _) = self.range(d);
        let hi = if al >= 0 { ah / dl.max(1) } else { BIG };
        self.push(N::Div(a, d), (if al >= 0 { 0 } else { -BIG }, hi), self.is_data(a) || self.is_data(d))
    }
    pub fn divc(&mut self, a: T, d: i128) -> T {
        if d == 1 {
            return a;
        }
        if let Some(x) = self.as_int(a) {
            return self.int(x.div_euclid(d));
        }
        let p = self.poly(a);
        let mut q = vec![];
        let mut r = vec![];
        for (m, c) in p {
            let qc = c.div_euclid(d);
            let rc = c.rem_euclid(d);
            if qc != 0 {
                q.push((m, qc));
            }
            if rc != 0 {
                r.push((m, rc));
            }
        }
        // prefer a negative residue when it keeps the remainder in range (e.g. 4x-1 with x unknown)
        let rt = self.mk_poly(r.clone());
        let (lo, hi) = self.range(rt);
        if lo >= 0 && hi < d {
            return self.mk_poly(q);
        }
        // gcd reduction
        let mut g = d;
        let mut c0 = 0;
        for (m, c) in &r {
            if *m == ONE {
                c0 = *c;
            } else {
                g = gcd(g, *c);
            }
        }
        if g > 1 {
            let mut r2: Vec<(Mono, i128)> = r.iter().filter(|x| x.0 != ONE).map(|(m, c)| (*m, c / g)).collect();
            r2.push((ONE, c0.div_euclid(g)));
            let rt = self.mk_poly(r2);
            let inner = self.divc(rt, d / g);
            let qt = self.mk_poly(q);
            return self.add(qt, inner);
        }
        // nested: floor(floor(x/e)/d) = floor(x/(e*d))
        if let N::Div(x, e) = self.n(rt).clone() {
            if let Some(ec) = self.as_int(e) {
                let inner = self.divc(x, ec * d);
                let qt = self.mk_poly(q);
                return self.add(qt, inner);
            }
        }
        let dt = self.int(d);
        let inner = self.push(N::Div(rt, dt), (lo.div_euclid(d), hi.div_euclid(d)), self.is_data(rt));
        let qt = self.mk_poly(q);
        self.add(qt, inner)
    }
    pub fn modulo(&mut self, a: T, d: T) -> T {
        // the lowest bit of a disjunction is set when either lowest bit is
        if self.as_int(d) == Some(2) {
            if let N::IOp { k: IK::Or, a: v, .. } = self.n(a).clone() {
                if v.len() == 2 {
                    let (p, q) = (self.modulo(v[0], d), self.modulo(v[1], d));
                    return self.minmax(true, p, q, 0);
                }
            }
        }
        let q = self.div(a, d);
        let qd = self.mul(q, d);
        self.sub(a, qd)
    }

    pub fn iop(&mut self, k: IK, a: Vec<T>, lo: i128, hi: i128) -> T {
        let d = a.iter().any(|x| self.is_data(*x));
        self.push(N::IOp { k, a: a.into_boxed_slice(), lo, hi }, (lo, hi), d)
    }
    /// minimum or maximum of two integers, known to be at least `floor`
    pub fn minmax(&mut self, max: bool, a: T, b: T, floor: i128) -> T {
        let d = self.sub(a, b);
        let (lo, hi) = self.range(d);
        if lo >= 0 {
            return if max { a } else { b };
        }
        if hi <= 0 {
            return if max { b } else { a };
        }
        let ((al, ah), (bl, bh)) = (self.range(a), self.range(b));
        let (a, b) = (a.min(b), a.max(b));
        if max {
            self.iop(IK::Max, vec![a, b], al.max(bl).max(floor), ah.max(bh))
        } else {
            self.iop(IK::Min, vec![a, b], al.min(bl).max(floor), ah.min(bh))
        }
    }
    /// reduce into the range of the integer type
    pub fn wrap(&mut self, a: T, bits: u16, signed: bool) -> T {
        let (lo, hi) = int_range(bits, signed);
        let (l, h) = self.range(a);
        if l >= lo && h <= hi {
            return a;
        }
        if let Some(c) = self.as_int(a) {
            let m = 1i128 << bits;
            let mut x = c.rem_euclid(m);
            if signed && x >= m / 2 {
                x -= m;
            }
            return self.int(x);
        }
        if let N::Sel(c, x, y) = self.n(a).clone() {
            let (x, y) = (self.wrap(x, bits, signed), self.wrap(y, bits, signed));
            return self.sel(c, x, y);
        }
        if let N::IOp { k: IK::Wrap { bits: b2, .. }, a: x, .. } = self.n(a).clone() {
            if b2 >= bits {
                return self.wrap(x[0], bits, signed);
            }
        }
        if !signed && l >= 0 && bits <= 64 && !self.is_data(a) {
            // a mod 2^bits, kept opaque: index arithmetic never benefits
        } else if !signed && l >= 0 && bits < 64 {
            let m = self.int(1i128 << bits);
            return self.modulo(a, m);
        } else if signed && l >= 0 && bits <= 64 && self.is_data(a) {
            // reinterpretation of an unsigned value of the same width
        }
        self.iop(IK::Wrap { bits, signed }, vec![a], lo, hi)
    }
    pub fn byte(&mut self, obj: u32, off: T) -> T {
        self.push(N::Byte { obj, off }, (0, 255), true)
    }
    pub fn ptr(&mut self, obj: u32, off: T) -> T {
        self.push(N::Ptr(obj, off), (0, BIG), false)
    }
    pub fn vt(&mut self, a: u32) -> T {
        self.push(N::VT(a), (0, BIG), false)
    }
    pub fn func(&mut self, a: u32) -> T {
        self.push(N::Fn(a), (0, BIG), false)
    }
    pub fn foreign(&mut self, a: u32) -> T {
        self.push(N::Foreign(a), (0, BIG), false)
    }

    // ---------------------------------------------------------------- booleans
    /// a polynomial over one select of constants, as a select of constants
    fn lift_sel(&mut self, p: T) -> Option<(T, T, T)> {
        if let N::Poly(v) = self.n(p).clone() {
            let mut s = None;
            for (m, _) in v.iter() {
                if *m == ONE {
                    continue;
                }
                if m[1] != 0 || s.is_some() {
                    return None;
                }
                s = Some(m[0]);
            }
            let s = s?;
            if let N::Sel(c, a, b) = self.n(s).clone() {
                if self.as_int(a).is_some() && self.as_int(b).is_some() {
                    let (mut x, mut y) = (self.int(0), self.int(0));
                    for (m, k) in v.iter() {
                        let (ta, tb) = if *m == ONE { (self.int(*k), self.int(*k)) } else { (self.mulc(a, *k), self.mulc(b, *k)) };
                        x = self.add(x, ta);
                        y = self.add(y, tb);
                    }
                    return Some((c, x, y));
                }
            }
        } else if let N::Sel(c, a, b) = self.n(p).clone() {
            if self.as_int(a).is_some() && self.as_int(b).is_some() {
                return Some((c, a, b));
            }
        }
        None
    }
    pub fn ge0(&mut self, p: T) -> T {
        if let Some((c, a, b)) = self.lift_sel(p) {
            let (a, b) = (self.ge0(a), self.ge0(b));
            return self.sel(c, a, b);
        }
        let (lo, hi) = self.range(p);
        if lo >= 0 {
            return self.int(1);
        }
        if hi < 0 {
            return self.int(0);
        }
        // normalise by the gcd of the coefficients
        let v = self.poly(p);
        let mut g = 0;
        for (m, c) in &v {
            if *m != ONE {
                g = gcd(g, *c);
            }
        }
        let p = if g > 1 {
            let v2 = v.into_iter().map(|(m, c)| (m, c.div_euclid(g))).collect();
            self.mk_poly(v2)
        } else {
            p
        };
        self.push(N::Ge(p), (0, 1), self.is_data(p))
    }
    pub fn eq0(&mut self, p: T) -> T {
        if let Some((c, a, b)) = self.lift_sel(p) {
            let (a, b) = (self.eq0(a), self.eq0(b));
            return self.sel(c, a, b);
        }
        let (lo, hi) = self.range(p);
        if lo > 0 || hi < 0 {
            return self.int(0);
        }
        if lo == 0 && hi == 0 {
            return self.int(1);
        }
        // canonical sign and gcd
        let v = self.poly(p);
        let mut g = 0;
        let mut c0 = 0;
        for (m, c) in &v {
            if *m != ONE {
                g = gcd(g, *c);
            } else {
                c0 = *c;
            }
        }
        if g > 1 && c0 % g != 0 {
            return self.int(0);
        }
        let g = if g == 0 { 1 } else { g };
        let s = if v.last().map(|x| x.1 < 0).unwrap_or(false) { -g } else { g };
        let p = if s != 1 {
            let v2 = v.into_iter().map(|(m, c)| (m, c / s)).collect();
            self.mk_poly(v2)
        } else {
            p
        };
        // equality with a boolean atom
        if self.range(p) == (0, 1) && self.is_bool(p) {
            return self.not(p);
        }
        if let N::Poly(v) = self.n(p).clone() {
            if v.len() == 2 && v[0].0 == ONE && v[1].0[1] == 0 && self.is_bool(v[1].0[0]) && v[0].1 == -1 && v[1].1 == 1 {
                return v[1].0[0];
            }
        }
        self.push(N::Eq(p), (0, 1), self.is_data(p))
    }
    pub fn is_bool(&self, t: T) -> bool {
        matches!(self.n(t), N::Ge(_) | N::Eq(_) | N::FCmp(..) | N::Not(_) | N::And(..) | N::Or(..))
            || matches!(self.n(t), N::Sel(_, a, b) if (self.is_bool(*a) || self.as_int(*a).map_or(false, |x| x==0||x==1)) && (self.is_bool(*b) || self.as_int(*b).map_or(false, |x| x==0||x==1)))
    }
    pub fn ge(&mut self, a: T, b: T) -> T {
        let d = self.sub(a, b);
        self.ge0(d)
    }
    pub fn gt(&mut self, a: T, b: T) -> T {
        let d = self.sub(a, b);
        let d = self.addc(d, -1);
        self.ge0(d)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.int(1);
        }
        // select of constants
        for (x, y) in [(a, b), (b, a)] {
            if let (N::Sel(c, p, q), Some(k)) = (self.n(x).clone(), self.as_int(y)) {
                if let (Some(p), Some(q)) = (self.as_int(p), self.as_int(q)) {
                    return match (p == k, q == k) {
                        (true, true) => self.int(1),
                        (false, false) => self.int(0),
                        (true, false) => c,
                        (false, true) => self.not(c),
                    };
                }
            }
        }
        let d = self.sub(a, b);
        self.eq0(d)
    }
    pub fn not(&mut self, c: T) -> T {
        if let Some(n) = self.not_memo.get(&c) {
            return *n;
        }
        let n = self.not_(c);
        self.not_memo.insert(c, n);
        n
    }
    fn not_(&mut self, c: T) -> T {
        match self.n(c).clone() {
            N::Poly(_) => match self.as_int(c) {
                Some(0) => self.int(1),
                Some(_) => self.int(0),
                None => {
                    let m = self.neg(c);
                    self.addc(m, 1)
                }
            },
            N::Ge(p) => {
                let m = self.neg(p);
                let m = self.addc(m, -1);
                self.ge0(m)
            }
            N::Not(x) => x,
            N::And(a, b) => {
                let (a, b) = (self.not(a), self.not(b));
                self.or(a, b)
            }
            N::Or(a, b) => {
                let (a, b) = (self.not(a), self.not(b));
                self.and(a, b)
            }
            _ => {
                let d = self.is_data(c);
                self.push(N::Not(c), (0, 1), d)
            }
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        match (self.as_int(a), self.as_int(b)) {
            (Some(0), _) | (_, Some(0)) => return self.int(0),
            (Some(_), _) => return b,
            (_, Some(_)) => return a,
            _ => {}
        }
        if a == b {
            return a;
        }
        if self.not(a) == b {
            return self.int(0);
        }
        let (a, b) = (a.min(b), a.max(b));
        let d = self.is_data(a) || self.is_data(b);
        self.push(N::And(a, b), (0, 1), d)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        match (self.as_int(a), self.as_int(b)) {
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(_), _) | (_, Some(_)) => return self.int(1),
            _ => {}
        }
        if a == b {
            return a;
        }
        if self.not(a) == b {
            return self.int(1);
        }
        let (a, b) = (a.min(b), a.max(b));
        let d = self.is_data(a) || self.is_data(b);
        self.push(N::Or(a, b), (0, 1), d)
    }
    /// canonicalise a boolean formula by its truth table when it has few atoms
    pub fn bool_simp(&mut self, t: T) -> T {
        let mut atoms = vec![];
        self.bool_atoms(t, &mut atoms, &mut Default::default());
        if atoms.len() > 8 || atoms.is_empty() {
            return t;
        }
        let n = atoms.len();
        let mut all1 = true;
        let mut all0 = true;
        let mut tt = vec![false; 1 << n];
        for m in 0..(1usize << n) {
            let v = self.bool_eval(t, &atoms, m, &mut Default::default());
            tt[m] = v;
            all1 &= v;
            all0 &= !v;
        }
        if all1 {
            return self.int(1);
        }
        if all0 {
            return self.int(0);
        }
        // single-atom dependence
        for (i, a) in atoms.iter().enumerate() {
            if (0..(1usize << n)).all(|m| tt[m] == (m >> i & 1 == 1)) {
                return *a;
            }
            if (0..(1usize << n)).all(|m| tt[m] == (m >> i & 1 == 0)) {
                let a = *a;
                return self.not(a);
            }
        }
        t
    }
    fn bool_atoms(&mut self, t: T, out: &mut Vec<T>, seen: &mut FxHashSet<T>) {
        if out.len() > 8 || !seen.insert(t) {
            return;
        }
        match self.n(t).clone() {
            N::And(a, b) | N::Or(a, b) => {
                self.bool_atoms(a, out, seen);
                self.bool_atoms(b, out, seen);
            }
            N::Not(a) => self.bool_atoms(a, out, seen),
            N::Poly(_) if self.as_int(t).is_some() => {}
            N::Ge(_) => {
                let nn = self.not(t);
                if !out.contains(&t) && !out.contains(&nn) {
                    out.push(t)
                }
            }
            _ => {
                if !out.contains(&t) {
                    out.push(t)
                }
            }
        }
    }
    fn bool_eval(&mut self, t: T, atoms: &[T], m: usize, memo: &mut FxHashMap<T, bool>) -> bool {
        if let Some(i) = atoms.iter().position(|x| *x == t) {
            return m >> i & 1 == 1;
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let v = match self.n(t).clone() {
            N::And(a, b) => self.bool_eval(a, atoms, m, memo) && self.bool_eval(b, atoms, m, memo),
            N::Or(a, b) => self.bool_eval(a, atoms, m, memo) || self.bool_eval(b, atoms, m, memo),
            N::Not(a) => !self.bool_eval(a, atoms, m, memo),
            N::Ge(_) => {
                let nn = self.not(t);
                match atoms.iter().position(|x| *x == nn) {
                    Some(i) => m >> i & 1 == 0,
                    None => false,
                }
            }
            _ => self.as_int(t) == Some(1),
        };
        memo.insert(t, v);
        v
    }
    pub fn sel(&mut self, c: T, a: T, b: T) -> T {
        match self.as_int(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
            if self.is_bool(c) {
                if (x, y) == (1, 0) {
                    return c;
                }
                if (x, y) == (0, 1) {
                    return self.not(c);
                }
            }
        }
        // canonical polarity
        let (c, a, b) = match self.n(c).clone() {
            N::Not(x) => (x, b, a),
            N::Ge(_) => {
                let nn = self.not(c);
                if nn < c {
                    (nn, b, a)
                } else {
                    (c, a, b)
                }
            }
            _ => (c, a, b),
        };
        // nested selects on the same condition
        let a = match self.n(a) {
            N::Sel(c2, x, _) if *c2 == c => *x,
            _ => a,
        };
        let b = match self.n(b) {
            N::Sel(c2, _, y) if *c2 == c => *y,
            _ => b,
        };
        if a == b {
            return a;
        }
        if let N::FCmp(k, x, y) = self.n(c).clone() {
            if k == FC::Lt || k == FC::Le {
                if a == x && b == y {
                    return self.fop(FK::Min, vec![a, b]);
                }
                if a == y && b == x {
                    return self.fop(FK::Max, vec![a, b]);
                }
            }
        }
        let (l1, h1) = self.range(a);
        let (l2, h2) = self.range(b);
        let d = self.is_data(c) || self.is_data(a) || self.is_data(b);
        self.push(N::Sel(c, a, b), (l1.min(l2), h1.max(h2)), d)
    }

    /// `t` in {0, 1} as a boolean
    pub fn eq_nonzero(&mut self, t: T) -> T {
        if self.is_bool(t) || self.as_int(t).is_some() {
            return t;
        }
        let z = self.int(0);
        let e = self.eq(t, z);
        self.not(e)
    }

    // ---------------------------------------------------------------- floats
    pub fn f(&mut self, v: f32) -> T {
        self.push(N::F(v.to_bits()), (-BIG, BIG), false)
    }
    pub fn as_f(&self, t: T) -> Option<f32> {
        match self.n(t) {
            N::F(b) => Some(f32::from_bits(*b)),
            _ => None,
        }
    }
    pub fn fop(&mut self, k: FK, a: Vec<T>) -> T {
        let cs: Option<Vec<f32>> = a.iter().map(|x| self.as_f(*x)).collect();
        if let Some(c) = cs {
            let v = match k {
                FK::Add => c[0] + c[1],
                FK::Sub => c[0] - c[1],
                FK::Mul => c[0] * c[1],
                FK::Div => c[0] / c[1],
                FK::Rem => c[0] % c[1],
                FK::Neg => -c[0],
                FK::Fma => c[0].mul_add(c[1], c[2]),
                FK::Min => c[0].min(c[1]),
                FK::Max => c[0].max(c[1]),
                FK::Sqrt => c[0].sqrt(),
                FK::Floor => c[0].floor(),
                FK::Ceil => c[0].ceil(),
                FK::TruncF => c[0].trunc(),
                FK::Round => c[0].round(),
                FK::RoundEven => c[0].round_ties_even(),
                FK::Pow => c[0].powf(c[1]),
                FK::Ln => c[0].ln(),
                FK::Exp => c[0].exp(),
                FK::Abs => c[0].abs(),
            };
            return self.f(v);
        }
        self.push(N::FOp(k, a.into_boxed_slice()), (-BIG, BIG), true)
    }
    pub fn fcmp(&mut self, k: FC, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.as_f(a), self.as_f(b)) {
            let r = match k {
                FC::Lt => x < y,
                FC::Le => x <= y,
                FC::Eq => x == y,
            };
            return self.int(r as i128);
        }
        self.push(N::FCmp(k, a, b), (0, 1), true)
    }
    pub fn itof(&mut self, a: T) -> T {
        if let Some(c) = self.as_int(a) {
            return self.f(c as f32);
        }
        self.push(N::IToF(a), (-BIG, BIG), true)
    }
    pub fn fbits(&mut self, f: T) -> T {
        match self.n(f).clone() {
            N::F(b) => self.int(b as i128),
            N::FromBits(x) => x,
            N::Sel(c, a, b) => {
                let (a, b) = (self.fbits(a), self.fbits(b));
                self.sel(c, a, b)
            }
            _ => self.push(N::FBits(f), (0, u32::MAX as i128), true),
        }
    }
    pub fn frombits(&mut self, i: T) -> T {
        if let Some(c) = self.as_int(i) {
            return self.push(N::F(c as u32), (-BIG, BIG), false);
        }
        match self.n(i).clone() {
            N::FBits(f) => f,
            N::Undef => Terms::UNDEF,
            N::Sel(c, a, b) => {
                let (a, b) = (self.frombits(a), self.frombits(b));
                self.sel(c, a, b)
            }
            _ => self.push(N::FromBits(i), (-BIG, BIG), true),
        }
    }
    pub fn cvt(&mut self, f: T, rnd: Rnd, lo: i128, hi: i128, indef: bool) -> T {
        if let Some(c) = self.as_f(f) {
            let r = match rnd {
                Rnd::Trunc => c.trunc(),
                Rnd::Near => c.round_ties_even(),
            } as f64;
            if c.is_nan() || r < lo as f64 || r > hi as f64 {
                if indef {
                    return self.int(i32::MIN as i128);
                }
                let v = if c.is_nan() { 0 } else if r < lo as f64 { lo } else { hi };
                return self.int(v);
            }
            return self.int(r as i128);
        }
        self.push(N::Cvt { f, rnd, lo, hi, indef }, (lo, hi), true)
    }

    // ---------------------------------------------------------------- traversal
    pub fn children(&self, t: T) -> Vec<T> {
        match self.n(t) {
            N::Poly(p) => {
                let mut v = vec![];
                for (m, _) in p.iter() {
                    for x in m {
                        if *x != 0 {
                            v.push(*x);
                        }
                    }
                }
                v
            }
            N::Div(a, b) | N::FCmp(_, a, b) | N::And(a, b) | N::Or(a, b) => vec![*a, *b],
            N::Byte { off, .. } => vec![*off],
            N::FBits(a) | N::Ge(a) | N::Eq(a) | N::Not(a) | N::IToF(a) | N::FromBits(a) | N::Ptr(_, a) => vec![*a],
            N::Cvt { f, .. } => vec![*f],
            N::IOp { a, .. } | N::FOp(_, a) => a.to_vec(),
            N::Sel(c, a, b) => vec![*c, *a, *b],
            _ => vec![],
        }
    }
    pub fn contains(&self, t: T, s: T, memo: &mut FxHashMap<T, bool>) -> bool {
        if t == s {
            return true;
        }
        if t < s {
            // children always have smaller ids than their parents
            return false;
        }
        if let Some(&b) = memo.get(&t) {
            return b;
        }
        let r = self.children(t).into_iter().any(|c| self.contains(c, s, memo));
        memo.insert(t, r);
        r
    }
    /// objects whose address the term mentions
    pub fn objs_of(&mut self, t: T) -> std::rc::Rc<[u32]> {
        if let Some(r) = self.pobjs.get(&t) {
            return r.clone();
        }
        let mut v: Vec<u32> = vec![];
        match self.n(t) {
            N::Ptr(o, _) => v.push(*o),
            N::IOp { k: IK::Addr(o), .. } => v.push(*o),
            _ => {}
        }
        for c in self.children(t) {
            v.extend(self.objs_of(c).iter());
        }
        v.sort();
        v.dedup();
        let r: std::rc::Rc<[u32]> = v.into();
        self.pobjs.insert(t, r.clone());
        r
    }
    pub fn has(&self, t: T, s: T) -> bool {
        self.contains(t, s, &mut Default::default())
    }

    /// rebuild `t` with `map` applied to its leaves (`f` returns Some to replace a node)
    pub fn rewrite(&mut self, t: T, from: T, to: T, memo: &mut FxHashMap<T, T>) -> T {
        if t == from {
            return to;
        }
        if t < from {
            return t;
        }
        if let Some(&x) = memo.get(&t) {
            return x;
        }
        let n = self.n(t).clone();
        let r = match n {
            N::Poly(p) => {
                let mut touched = false;
                let mut reps: Vec<(T, T)> = vec![];
                for (m, _) in p.iter() {
                    for x in m {
                        if *x != 0 {
                            let y = self.rewrite(*x, from, to, memo);
                            if y != *x {
                                touched = true;
                                reps.push((*x, y));
                            }
                        }
                    }
                }
                if !touched {
                    t
                } else {
                    let mut acc = self.int(0);
                    let mut plain = vec![];
                    for (m, c) in p.iter() {
                        if m.iter().any(|x| *x != 0 && reps.iter().any(|r| r.0 == *x)) {
                            let mut term = self.int(*c);
                            for x in m {
                                if *x != 0 {
                                    let y = reps.iter().find(|r| r.0 == *x).map(|r| r.1).unwrap_or(*x);
                                    term = self.mul(term, y);
                                }
                            }
                            acc = self.add(acc, term);
                        } else {
                            plain.push((*m, *c));
                        }
                    }
                    let pl = self.mk_poly(plain);
                    self.add(acc, pl)
                }
            }
            N::Div(a, b) => {
                let (x, y) = (self.rewrite(a, from, to, memo), self.rewrite(b, from, to, memo));
                if (x, y) == (a, b) {
                    t
                } else {
                    self.div(x, y)
                }
            }
            N::Byte { obj, off } => {
                let x = self.rewrite(off, from, to, memo);
                if x == off {
                    t
                } else {
                    self.byte(obj, x)
                }
            }
            N::FBits(a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.fbits(x)
                }
            }
            N::FromBits(a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.frombits(x)
                }
            }
            N::IToF(a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.itof(x)
                }
            }
            N::Cvt { f, rnd, lo, hi, indef } => {
                let x = self.rewrite(f, from, to, memo);
                if x == f {
                    t
                } else {
                    self.cvt(x, rnd, lo, hi, indef)
                }
            }
            N::IOp { k, a, lo, hi } => {
                let b: Vec<T> = a.iter().map(|x| self.rewrite(*x, from, to, memo)).collect();
                if b[..] == a[..] {
                    t
                } else if let IK::Wrap { bits, signed } = k {
                    self.wrap(b[0], bits, signed)
                } else if let (IK::Min | IK::Max, 2, false) = (k, b.len(), self.is_data(b[0]) || self.is_data(b[1])) {
                    self.minmax(k == IK::Max, b[0], b[1], lo)
                } else {
                    self.iop(k, b, lo, hi)
                }
            }
            N::FOp(k, a) => {
                let b: Vec<T> = a.iter().map(|x| self.rewrite(*x, from, to, memo)).collect();
                if b[..] == a[..] {
                    t
                } else {
                    self.fop(k, b)
                }
            }
            N::Sel(c, a, b) => {
                let (x, y, z) = (self.rewrite(c, from, to, memo), self.rewrite(a, from, to, memo), self.rewrite(b, from, to, memo));
                if (x, y, z) == (c, a, b) {
                    t
                } else {
                    self.sel(x, y, z)
                }
            }
            N::Ge(a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.ge0(x)
                }
            }
            N::Eq(a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.eq0(x)
                }
            }
            N::FCmp(k, a, b) => {
                let (x, y) = (self.rewrite(a, from, to, memo), self.rewrite(b, from, to, memo));
                if (x, y) == (a, b) {
                    t
                } else {
                    self.fcmp(k, x, y)
                }
            }
            N::Not(a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.not(x)
                }
            }
            N::And(a, b) => {
                let (x, y) = (self.rewrite(a, from, to, memo), self.rewrite(b, from, to, memo));
                if (x, y) == (a, b) {
                    t
                } else {
                    self.and(x, y)
                }
            }
            N::Or(a, b) => {
                let (x, y) = (self.rewrite(a, from, to, memo), self.rewrite(b, from, to, memo));
                if (x, y) == (a, b) {
                    t
                } else {
                    self.or(x, y)
                }
            }
            N::Ptr(o, a) => {
                let x = self.rewrite(a, from, to, memo);
                if x == a {
                    t
                } else {
                    self.ptr(o, x)
                }
            }
            _ => t,
        };
        memo.insert(t, r);
        r
    }

    // ---------------------------------------------------------------- printing
    pub fn show(&self, t: T) -> String {
        self.show_d(t, 6)
    }
    pub fn show_d(&self, t: T, d: u32) -> String {
        if d == 0 {
            return "…".into();
        }
        match self.n(t) {
            N::Undef => "undef".into(),
            N::Poly(p) => {
                if p.is_empty() {
                    return "0".into();
                }
                let mut s = String::new();
                for (i, (m, c)) in p.iter().rev().enumerate() {
                    if i > 12 {
                        s.push_str("+…");
                        break;
                    }
                    if *c < 0 {
                        s.push('-');
                    } else if i > 0 {
                        s.push('+');
                    }
                    let a = c.unsigned_abs();
                    if *m == ONE {
                        s.push_str(&a.to_string());
                    } else {
                        if a != 1 {
                            s.push_str(&format!("{a}*"));
                        }
                        let fs: Vec<String> = m.iter().filter(|x| **x != 0).map(|x| self.show_d(*x, d - 1)).collect();
                        s.push_str(&fs.join("*"));
                    }
                }
                s
            }
            N::Sym(i) => self.syms[*i as usize].name.clone(),
            N::Div(a, b) => format!("(({})/{})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            N::Byte { obj, off } => format!("@{obj}[{}]", self.show_d(*off, d)),
            N::FBits(a) => format!("bits({})", self.show_d(*a, d - 1)),
            N::Cvt { f, rnd, lo, hi, indef } => format!("cvt{:?}[{lo},{hi}{}]({})", rnd, if *indef { "!" } else { "" }, self.show_d(*f, d - 1)),
            N::IOp { k, a, .. } => format!("{k:?}({})", a.iter().map(|x| self.show_d(*x, d - 1)).collect::<Vec<_>>().join(",")),
            N::Sel(c, a, b) => format!("({} ? {} : {})", self.show_d(*c, d - 1), self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            N::Ge(a) => format!("({} >= 0)", self.show_d(*a, d)),
            N::Eq(a) => format!("({} == 0)", self.show_d(*a, d)),
            N::FCmp(k, a, b) => format!("({} {k:?} {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            N::Not(a) => format!("!{}", self.show_d(*a, d)),
            N::And(a, b) => format!("({} && {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            N::Or(a, b) => format!("({} || {})", self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            N::F(b) => format!("{:?}", f32::from_bits(*b)),
            N::FOp(k, a) => format!("{k:?}({})", a.iter().map(|x| self.show_d(*x, d - 1)).collect::<Vec<_>>().join(",")),
            N::IToF(a) => format!("f({})", self.show_d(*a, d)),
            N::FromBits(a) => format!("frombits({})", self.show_d(*a, d - 1)),
            N::FUnk(i) => format!("?f{i}"),
            N::Ptr(o, a) => format!("&{o}[{}]", self.show_d(*a, d)),
            N::VT(a) => format!("vtable{a}"),
            N::Fn(a) => format!("fn{a}"),
            N::Foreign(a) => format!("foreign{a}"),
        }
    }
}

pub fn mono_quot(m: &Mono, d: &Mono) -> Option<Mono> {
    let mut v: Vec<T> = m.iter().copied().filter(|x| *x != 0).collect();
    for x in d {
        if *x == 0 {
            continue;
        }
        let i = v.iter().position(|y| y == x)?;
        v.remove(i);
    }
    let mut r = ONE;
    r[..v.len()].copy_from_slice(&v);
    Some(r)
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    if a == 1 || b == 1 {
        return 1;
    }
    while b != 0 {
        if a <= u64::MAX as i128 && b <= u64::MAX as i128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                (x, y) = (y, x % y);
            }
            return x as i128;
        }
        (a, b) = (b, a % b);
    }
    a
}
pub fn int_range(bits: u16, signed: bool) -> (i128, i128) {
    if bits >= 128 {
        return if signed { (i128::MIN / 4, i128::MAX / 4) } else { (0, i128::MAX / 2) };
    }
    if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, (1i128 << bits) - 1)
    }
}
