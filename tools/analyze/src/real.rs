//! Real-valued normal forms of floating point expressions: sparse polynomials over interned atoms.
//! Two expressions that denote the same real function up to the rounding of their constants get
//! the same (or approximately equal) normal form.
use crate::term::*;
use rustc_hash::FxHashMap;

pub type PId = u32;
pub type AId = u32;

#[derive(Clone, Debug, PartialEq)]
pub struct Poly {
    /// monomial (sorted atoms, empty = constant) -> coefficient
    pub t: Vec<(Vec<AId>, f64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Atom {
    /// real value of an integer term
    Int(T),
    Pow(PId, f64),
    PowV(PId, PId),
    Ln(PId),
    Exp(PId),
    Inv(PId),
    Max(PId, PId),
    Min(PId, PId),
    /// first < 0 ? second : third
    Sel(PId, PId, PId),
    Round(u8, PId),
    Opaque(T),
}

pub struct Reals {
    pub polys: Vec<Poly>,
    pub atoms: Vec<Atom>,
    memo: FxHashMap<T, PId>,
    by_support: FxHashMap<Vec<Vec<AId>>, Vec<PId>>,
    by_kind: FxHashMap<(u8, u32, u32), Vec<AId>>,
    arange: Vec<(f64, f64)>,
    pub overflow: bool,
}

pub const TOL: f64 = 2.5e-4;
const PRUNE: f64 = 2e-5;
/// tolerance on the breakpoint of a piecewise definition (its branches agree there)
const TOL_BREAK: f64 = 1e-3;
const TOL_BREAK_REL: f64 = 8e-3;

impl Reals {
    pub fn new() -> Self {
        Reals { polys: vec![], atoms: vec![], memo: Default::default(), by_support: Default::default(), by_kind: Default::default(), arange: vec![], overflow: false }
    }
    pub fn get(&self, p: PId) -> &Poly {
        &self.polys[p as usize]
    }
    /// natural magnitude of a monomial, used to weigh coefficients
    fn weight(&self, m: &[AId]) -> f64 {
        let mut w = 1.0;
        for a in m {
            if let Atom::Int(_) = self.atoms[*a as usize] {
                let (l, h) = self.arange[*a as usize];
                w *= l.abs().max(h.abs()).clamp(1.0, 1e30);
            }
        }
        w
    }
    fn norm(&self, mut t: Vec<(Vec<AId>, f64)>) -> Vec<(Vec<AId>, f64)> {
        t.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<(Vec<AId>, f64)> = Vec::with_capacity(t.len());
        for (m, c) in t {
            match out.last_mut() {
                Some(l) if l.0 == m => l.1 += c,
                _ => out.push((m, c)),
            }
        }
        let mx = out.iter().map(|(m, c)| c.abs() * self.weight(m)).fold(0.0, f64::max);
        out.retain(|(m, c)| c.abs() * self.weight(m) > PRUNE * mx && *c != 0.0);
        out
    }
    pub fn mk(&mut self, t: Vec<(Vec<AId>, f64)>) -> PId {
        let t = self.norm(t);
        let sup: Vec<Vec<AId>> = t.iter().map(|x| x.0.clone()).collect();
        if let Some(v) = self.by_support.get(&sup) {
            for p in v {
                let q = &self.polys[*p as usize];
                if q.t.iter().zip(&t).all(|(a, b)| (a.1 - b.1).abs() <= 1e-12 * (1e-300 + a.1.abs())) {
                    return *p;
                }
            }
        }
        let id = self.polys.len() as PId;
        self.polys.push(Poly { t });
        self.by_support.entry(sup).or_default().push(id);
        id
    }
    pub fn cst(&mut self, c: f64) -> PId {
        self.mk(vec![(vec![], c)])
    }
    pub fn as_cst(&self, p: PId) -> Option<f64> {
        let t = &self.get(p).t;
        match t.len() {
            0 => Some(0.0),
            1 if t[0].0.is_empty() => Some(t[0].1),
            _ => None,
        }
    }
    /// approximate equality of polynomials
    pub fn close(&self, a: PId, b: PId) -> bool {
        self.diff(a, b) <= TOL
    }
    /// largest weighted coefficient difference, relative to the largest weighted coefficient
    pub fn diff(&self, a: PId, b: PId) -> f64 {
        if a == b {
            return 0.0;
        }
        let (x, y) = (&self.get(a).t, &self.get(b).t);
        let mut mx = 1e-30f64;
        for (m, c) in x.iter().chain(y.iter()) {
            mx = mx.max(c.abs() * self.weight(m));
        }
        let (mut i, mut j) = (0, 0);
        let mut d = 0.0f64;
        while i < x.len() || j < y.len() {
            let o = if i >= x.len() {
                std::cmp::Ordering::Greater
            } else if j >= y.len() {
                std::cmp::Ordering::Less
            } else {
                x[i].0.cmp(&y[j].0)
            };
            match o {
                std::cmp::Ordering::Less => {
                    d = d.max(x[i].1.abs() * self.weight(&x[i].0));
                    i += 1;
                }
                std::cmp::Ordering::Greater => {
                    d = d.max(y[j].1.abs() * self.weight(&y[j].0));
                    j += 1;
                }
                std::cmp::Ordering::Equal => {
                    d = d.max((x[i].1 - y[j].1).abs() * self.weight(&x[i].0) / self.amp(&x[i].0));
                    i += 1;
                    j += 1;
                }
            }
        }
        d / mx
    }
    /// constant factors are pulled out of powers, which multiplies their relative error by the exponent
    fn amp(&self, m: &[AId]) -> f64 {
        m.iter().map(|a| if let Atom::Pow(_, e) = &self.atoms[*a as usize] { e.abs() } else { 0.0 }).sum::<f64>().max(1.0)
    }
    fn close_break(&self, a: PId, b: PId) -> bool {
        if a == b {
            return true;
        }
        let f = |p: PId| -> (f64, Vec<(Vec<AId>, f64)>) {
            let t = &self.get(p).t;
            let c = t.iter().find(|x| x.0.is_empty()).map(|x| x.1).unwrap_or(0.0);
            (c, t.iter().filter(|x| !x.0.is_empty()).cloned().collect())
        };
        let ((c1, r1), (c2, r2)) = (f(a), f(b));
        // natural magnitude of the varying part
        let mx = r1.iter().chain(&r2).map(|x| x.1.abs() * self.weight(&x.0)).fold(0.0, f64::max);
        if (c1 - c2).abs() > (TOL_BREAK * mx).max(TOL_BREAK_REL * c1.abs().max(c2.abs())) {
            return false;
        }
        r1.len() == r2.len() && r1.iter().zip(&r2).all(|(x, y)| x.0 == y.0 && (x.1 - y.1).abs() * self.weight(&x.0) <= TOL * mx)
    }
    fn same_atom(&self, a: &Atom, b: &Atom) -> bool {
        use Atom::*;
        match (a, b) {
            (Int(x), Int(y)) | (Opaque(x), Opaque(y)) => x == y,
            (Pow(p, e), Pow(q, f)) => (e - f).abs() <= TOL * e.abs().max(f.abs()) && self.close(*p, *q),
            (PowV(p, e), PowV(q, f)) => self.close(*p, *q) && self.close(*e, *f),
            (Ln(p), Ln(q)) | (Exp(p), Exp(q)) | (Inv(p), Inv(q)) => self.close(*p, *q),
            (Max(a, b), Max(c, d)) | (Min(a, b), Min(c, d)) => self.close(*a, *c) && self.close(*b, *d) || self.close(*a, *d) && self.close(*b, *c),
            (Sel(c, a, b), Sel(d, x, y)) => self.close_break(*c, *d) && self.close(*a, *x) && self.close(*b, *y),
            (Round(k, p), Round(l, q)) => k == l && self.close(*p, *q),
            _ => false,
        }
    }
    fn sig(&self, p: PId) -> u32 {
        // only structure that cannot differ between close polynomials: the atom of the largest term is unsafe, so none
        let _ = p;
        0
    }
    pub fn atom(&mut self, a: Atom, r: (f64, f64)) -> AId {
        use Atom::*;
        let key = match &a {
            Int(t) => (0, *t, 0),
            Opaque(t) => (1, *t, 0),
            Pow(p, e) => (2, self.sig(*p), (e * 16.0).round() as i32 as u32),
            PowV(..) => (3, 0, 0),
            Ln(_) => (4, 0, 0),
            Exp(_) => (5, 0, 0),
            Inv(_) => (6, 0, 0),
            Max(..) => (7, 0, 0),
            Min(..) => (8, 0, 0),
            Sel(..) => (9, 0, 0),
            Round(k, _) => (10, *k as u32, 0),
        };
        // exponents near a bucket boundary: look in both neighbours
        let keys: Vec<(u8, u32, u32)> = if key.0 == 2 { (-1i32..=1).map(|d| (2, key.1, (key.2 as i32 + d) as u32)).collect() } else { vec![key] };
        for k in &keys {
            if let Some(v) = self.by_kind.get(k) {
                for x in v.iter().rev() {
                    if self.same_atom(&self.atoms[*x as usize], &a) {
                        return *x;
                    }
                }
            }
        }
        let id = self.atoms.len() as AId;
        self.atoms.push(a);
        self.arange.push(r);
        self.by_kind.entry(key).or_default().push(id);
        id
    }
    fn of_atom(&mut self, a: Atom, r: (f64, f64)) -> PId {
        let x = self.atom(a, r);
        self.mk(vec![(vec![x], 1.0)])
    }
    pub fn scale(&mut self, p: PId, c: f64) -> PId {
        let t = self.get(p).t.iter().map(|(m, x)| (m.clone(), x * c)).collect();
        self.mk(t)
    }
    pub fn add(&mut self, a: PId, b: PId) -> PId {
        let mut t = self.get(a).t.clone();
        t.extend(self.get(b).t.iter().cloned());
        self.mk(t)
    }
    pub fn addc(&mut self, a: PId, c: f64) -> PId {
        let b = self.cst(c);
        self.add(a, b)
    }
    pub fn sub(&mut self, a: PId, b: PId) -> PId {
        let n = self.scale(b, -1.0);
        self.add(a, n)
    }
    pub fn lin(&mut self, v: &[(PId, f64)]) -> PId {
        let mut t = vec![];
        for (p, c) in v {
            t.extend(self.get(*p).t.iter().map(|(m, x)| (m.clone(), x * c)));
        }
        self.mk(t)
    }
    pub fn mul(&mut self, a: PId, b: PId) -> PId {
        if let Some(c) = self.as_cst(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_cst(b) {
            return self.scale(a, c);
        }
        if a == b {
            return self.pow(a, 2.0);
        }
        self.mul_raw(a, b)
    }
    fn mul_raw(&mut self, a: PId, b: PId) -> PId {
        let (x, y) = (self.get(a).t.clone(), self.get(b).t.clone());
        if x.len() * y.len() > 400 {
            self.overflow = true;
        }
        let mut t = vec![];
        for (m, c) in &x {
            for (n, d) in &y {
                let mut mm = m.clone();
                mm.extend(n);
                mm.sort_unstable();
                t.push((mm, c * d));
            }
        }
        self.mk(t)
    }
    /// leading coefficient used to scale an argument to a standard form
    fn lead(&self, p: PId) -> f64 {
        // largest weighted coefficient; ties are broken by position, and both candidates give close scales
        let t = &self.get(p).t;
        let mx = t.iter().map(|(m, c)| c.abs() * self.weight(m)).fold(0.0, f64::max);
        t.iter().find(|(m, c)| c.abs() * self.weight(m) >= 0.98 * mx).map(|x| x.1).unwrap_or(1.0)
    }
    pub fn inv(&mut self, p: PId) -> PId {
        if let Some(c) = self.as_cst(p) {
            return self.cst(1.0 / c);
        }
        let l = self.lead(p);
        let q = self.scale(p, 1.0 / l);
        let (lo, hi) = self.bounds(q);
        let r = if lo > 0.0 { (1.0 / hi, 1.0 / lo) } else { (f64::NEG_INFINITY, f64::INFINITY) };
        let a = self.of_atom(Atom::Inv(q), r);
        self.scale(a, 1.0 / l)
    }
    pub fn pow(&mut self, p: PId, e: f64) -> PId {
        if let Some(c) = self.as_cst(p) {
            return self.cst(c.max(0.0).powf(e));
        }
        if (e - 1.0).abs() < 1e-7 {
            return p;
        }
        if e == 2.0 && self.get(p).t.len() == 1 {
            return self.mul_raw(p, p);
        }
        // (x^a)^b for a single factor
        let t = &self.get(p).t;
        if t.len() == 1 && t[0].0.len() == 1 && t[0].1 > 0.0 {
            let c = t[0].1;
            if let Atom::Pow(q, f) = self.atoms[t[0].0[0] as usize] {
                let r = self.pow(q, e * f);
                return self.scale(r, c.powf(e));
            }
        }
        let l = self.lead(p).abs();
        let q = self.scale(p, 1.0 / l);
        let (lo, hi) = self.bounds(q);
        let (lo, hi) = (lo.max(0.0), hi.max(0.0));
        let r = if e > 0.0 { (lo.powf(e), hi.powf(e)) } else { (hi.powf(e), lo.powf(e)) };
        let a = self.of_atom(Atom::Pow(q, e), r);
        self.scale(a, l.powf(e))
    }
    pub fn ln(&mut self, p: PId) -> PId {
        if let Some(c) = self.as_cst(p) {
            return self.cst(c.max(1e-30).ln());
        }
        let l = self.lead(p).abs();
        let q = self.scale(p, 1.0 / l);
        let (_, hi) = self.bounds(q);
        let a = self.of_atom(Atom::Ln(q), (f64::NEG_INFINITY, hi.max(1e-30).ln()));
        self.addc(a, l.ln())
    }
    pub fn exp(&mut self, p: PId) -> PId {
        if let Some(c) = self.as_cst(p) {
            return self.cst(c.exp());
        }
        // split off the constant
        let t = self.get(p).t.clone();
        let c = t.iter().find(|x| x.0.is_empty()).map(|x| x.1).unwrap_or(0.0);
        let q = self.mk(t.into_iter().filter(|x| !x.0.is_empty()).collect());
        let (lo, hi) = self.bounds(q);
        let a = self.of_atom(Atom::Exp(q), (lo.exp(), hi.exp()));
        self.scale(a, c.exp())
    }
    pub fn powv(&mut self, p: PId, e: PId) -> PId {
        if let Some(c) = self.as_cst(e) {
            return self.pow(p, c);
        }
        if let Some(c) = self.as_cst(p) {
            if c > 0.0 {
                let x = self.scale(e, c.ln());
                return self.exp(x);
            }
        }
        self.of_atom(Atom::PowV(p, e), (f64::NEG_INFINITY, f64::INFINITY))
    }
    pub fn max(&mut self, a: PId, b: PId) -> PId {
        if let (Some(x), Some(y)) = (self.as_cst(a), self.as_cst(b)) {
            return self.cst(x.max(y));
        }
        if a == b || self.close(a, b) {
            return a;
        }
        // clamping at zero only matters outside the domain of the functions it guards
        if self.as_cst(a) == Some(0.0) {
            return b;
        }
        if self.as_cst(b) == Some(0.0) {
            return a;
        }
        let ((l1, h1), (l2, h2)) = (self.bounds(a), self.bounds(b));
        if l1 >= h2 {
            return a;
        }
        if l2 >= h1 {
            return b;
        }
        self.of_atom(Atom::Max(a, b), (l1.max(l2), h1.max(h2)))
    }
    pub fn min(&mut self, a: PId, b: PId) -> PId {
        if let (Some(x), Some(y)) = (self.as_cst(a), self.as_cst(b)) {
            return self.cst(x.min(y));
        }
        if a == b || self.close(a, b) {
            return a;
        }
        let ((l1, h1), (l2, h2)) = (self.bounds(a), self.bounds(b));
        if h1 <= l2 {
            return a;
        }
        if h2 <= l1 {
            return b;
        }
        self.of_atom(Atom::Min(a, b), (l1.min(l2), h1.min(h2)))
    }
    /// d < 0 ? a : b
    pub fn sel(&mut self, d: PId, a: PId, b: PId) -> PId {
        if a == b || self.close(a, b) {
            return a;
        }
        if let Some(c) = self.as_cst(d) {
            return if c < 0.0 { a } else { b };
        }
        // b - a == k*d, k > 0:  max(a, b);  k < 0: min
        let ba = self.sub(b, a);
        let (l1, l2) = (self.lead(ba), self.lead(d));
        let k = l1 / l2;
        let kd = self.scale(d, k);
        if self.close(ba, kd) {
            return if k > 0.0 { self.max(a, b) } else { self.min(a, b) };
        }
        // scale the non-constant part to a positive unit lead
        let t: Vec<(Vec<AId>, f64)> = self.get(d).t.iter().filter(|x| !x.0.is_empty()).cloned().collect();
        let q = self.mk(t);
        let l = self.lead(q);
        let dn = self.scale(d, 1.0 / l);
        let (x, y) = if l > 0.0 { (a, b) } else { (b, a) };
        let ((l1, h1), (l2, h2)) = (self.bounds(x), self.bounds(y));
        self.of_atom(Atom::Sel(dn, x, y), (l1.min(l2), h1.max(h2)))
    }
    pub fn bounds(&self, p: PId) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0, 0.0);
        for (m, c) in &self.get(p).t {
            let (mut l, mut h) = (1.0f64, 1.0f64);
            for a in m {
                let (x, y) = self.arange[*a as usize];
                let v = [l * x, l * y, h * x, h * y];
                l = v.iter().copied().fold(f64::INFINITY, |a, b| if b.is_nan() { f64::NEG_INFINITY } else { a.min(b) });
                h = v.iter().copied().fold(f64::NEG_INFINITY, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
            }
            let (x, y) = (l * c, h * c);
            lo += x.min(y);
            hi += x.max(y);
        }
        (lo, hi)
    }

    /// real value of an integer term
    pub fn of_int(&mut self, tm: &Terms, t: T) -> PId {
        if let Some(c) = tm.as_int(t) {
            return self.cst(c as f64);
        }
        let mut v = vec![];
        match tm.n(t) {
            N::Poly(p) => {
                for (m, c) in p.iter() {
                    let mut mm = vec![];
                    for x in m {
                        if *x != 0 {
                            let r = tm.range(*x);
                            mm.push(self.atom(Atom::Int(*x), (r.0 as f64, r.1 as f64)));
                        }
                    }
                    mm.sort_unstable();
                    v.push((mm, *c as f64));
                }
            }
            _ => {
                let r = tm.range(t);
                let a = self.atom(Atom::Int(t), (r.0 as f64, r.1 as f64));
                v.push((vec![a], 1.0));
            }
        }
        self.mk(v)
    }
    /// polynomial d with: condition <=> d < 0 (up to the boundary)
    fn cond(&mut self, tm: &Terms, c: T) -> Option<(PId, bool)> {
        match tm.n(c) {
            N::FCmp(FC::Lt | FC::Le, a, b) => {
                let (x, y) = (self.of(tm, *a), self.of(tm, *b));
                Some((self.sub(x, y), true))
            }
            N::Not(a) => self.cond(tm, *a).map(|(p, b)| (p, !b)),
            N::Ge(a) => {
                let x = self.of_int(tm, *a);
                Some((x, false))
            }
            _ => None,
        }
    }
    fn sel_t(&mut self, tm: &Terms, c: T, a: PId, b: PId, orig: T) -> PId {
        match tm.n(c) {
            N::And(x, y) => {
                let i = self.sel_t(tm, *y, a, b, orig);
                self.sel_t(tm, *x, i, b, orig)
            }
            N::Or(x, y) => {
                let i = self.sel_t(tm, *y, a, b, orig);
                self.sel_t(tm, *x, a, i, orig)
            }
            _ => match self.cond(tm, c) {
                Some((d, true)) => self.sel(d, a, b),
                Some((d, false)) => self.sel(d, b, a),
                None => self.of_atom(Atom::Opaque(orig), (f64::NEG_INFINITY, f64::INFINITY)),
            },
        }
    }
    pub fn of(&mut self, tm: &Terms, t: T) -> PId {
        if let Some(p) = self.memo.get(&t) {
            return *p;
        }
        let inf = (f64::NEG_INFINITY, f64::INFINITY);
        let r = match tm.n(t).clone() {
            N::F(b) => self.cst(f32::from_bits(b) as f64),
            N::IToF(a) => self.of_int(tm, a),
            N::Sel(c, a, b) => {
                let (x, y) = (self.of(tm, a), self.of(tm, b));
                self.sel_t(tm, c, x, y, t)
            }
            N::FOp(k, v) => {
                let p: Vec<PId> = v.iter().map(|x| self.of(tm, *x)).collect();
                match k {
                    FK::Add => self.add(p[0], p[1]),
                    FK::Sub => self.sub(p[0], p[1]),
                    FK::Mul => self.mul(p[0], p[1]),
                    FK::Div => {
                        let i = self.inv(p[1]);
                        self.mul(p[0], i)
                    }
                    FK::Neg => self.scale(p[0], -1.0),
                    FK::Fma => {
                        let m = self.mul(p[0], p[1]);
                        self.add(m, p[2])
                    }
                    FK::Min => self.min(p[0], p[1]),
                    FK::Max => self.max(p[0], p[1]),
                    FK::Sqrt => self.pow(p[0], 0.5),
                    FK::Pow => self.powv(p[0], p[1]),
                    FK::Ln => self.ln(p[0]),
                    FK::Exp => self.exp(p[0]),
                    FK::Floor => self.of_atom(Atom::Round(0, p[0]), inf),
                    FK::Ceil => self.of_atom(Atom::Round(1, p[0]), inf),
                    FK::TruncF => self.of_atom(Atom::Round(2, p[0]), inf),
                    FK::Round => self.of_atom(Atom::Round(3, p[0]), inf),
                    FK::RoundEven => self.of_atom(Atom::Round(4, p[0]), inf),
                    FK::Abs | FK::Rem => self.of_atom(Atom::Opaque(t), inf),
                }
            }
            _ => self.of_atom(Atom::Opaque(t), inf),
        };
        self.memo.insert(t, r);
        r
    }
    pub fn show(&self, tm: &Terms, p: PId, d: u32) -> String {
        if d == 0 {
            return "…".into();
        }
        let t = &self.get(p).t;
        if t.is_empty() {
            return "0".into();
        }
        let mut s = vec![];
        for (m, c) in t.iter().take(9) {
            let mut f = vec![format!("{c:.6}")];
            for a in m {
                f.push(match &self.atoms[*a as usize] {
                    Atom::Int(t) => tm.show(*t),
                    Atom::Pow(p, e) => format!("({})^{e:.5}", self.show(tm, *p, d - 1)),
                    Atom::PowV(p, e) => format!("({})^({})", self.show(tm, *p, d - 1), self.show(tm, *e, d - 1)),
                    Atom::Ln(p) => format!("ln({})", self.show(tm, *p, d - 1)),
                    Atom::Exp(p) => format!("exp({})", self.show(tm, *p, d - 1)),
                    Atom::Inv(p) => format!("1/({})", self.show(tm, *p, d - 1)),
                    Atom::Max(a, b) => format!("max({},{})", self.show(tm, *a, d - 1), self.show(tm, *b, d - 1)),
                    Atom::Min(a, b) => format!("min({},{})", self.show(tm, *a, d - 1), self.show(tm, *b, d - 1)),
                    Atom::Sel(c, a, b) => format!("[{} < 0 ? {} : {}]", self.show(tm, *c, d - 1), self.show(tm, *a, d - 1), self.show(tm, *b, d - 1)),
                    Atom::Round(k, p) => format!("round{k}({})", self.show(tm, *p, d - 1)),
                    Atom::Opaque(t) => format!("⟨{}⟩", tm.show_d(*t, 3)),
                });
            }
            s.push(f.join("*"));
        }
        if t.len() > 9 {
            s.push("…".into());
        }
        s.join(" + ")
    }
}
