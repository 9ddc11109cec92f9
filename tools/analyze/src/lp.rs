//! Entailment of linear integer inequalities (polyhedral domain): facts |- goal >= 0 is decided by searching a
//! non-negative combination of the facts (Farkas) with an exact simplex.  Monomials of degree > 1 are treated
//! as variables, related by products of facts with non-negative factors.
use crate::term::*;
use rustc_hash::{FxHashMap, FxHashSet};

#[derive(Clone, Copy, Debug, PartialEq)]
struct R {
    n: i128,
    d: i128,
}
type O<X> = Option<X>;
impl R {
    fn new(n: i128, d: i128) -> R {
        if n == 0 {
            return R { n: 0, d: 1 };
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        if g == 1 {
            return R { n: s * n, d: s * d };
        }
        R { n: s * n / g, d: s * d / g }
    }
    fn i(n: i128) -> R {
        R { n, d: 1 }
    }
    #[inline]
    fn mul(self, o: R) -> O<R> {
        if self.n == 0 || o.n == 0 {
            return Some(R::i(0));
        }
        if self.d == 1 && o.d == 1 {
            return Some(R { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        let g1 = gcd(self.n, o.d);
        let g2 = gcd(o.n, self.d);
        let q = |x: i128, g: i128| if g == 1 { x } else { x / g };
        Some(R { n: q(self.n, g1).checked_mul(q(o.n, g2))?, d: q(self.d, g2).checked_mul(q(o.d, g1))? })
    }
    #[inline]
    fn sub(self, o: R) -> O<R> {
        if o.n == 0 {
            return Some(self);
        }
        if self.d == o.d {
            let n = self.n.checked_sub(o.n)?;
            return Some(if self.d == 1 { R { n, d: 1 } } else { R::new(n, self.d) });
        }
        let g = gcd(self.d, o.d);
        let l = self.d.checked_mul(o.d / g)?;
        let a = self.n.checked_mul(l / self.d)?;
        let b = o.n.checked_mul(l / o.d)?;
        Some(R::new(a.checked_sub(b)?, l))
    }
    fn div(self, o: R) -> O<R> {
        let (n, d) = if o.n < 0 { (-o.d, -o.n) } else { (o.d, o.n) };
        self.mul(R { n, d })
    }
    fn cmp0(self) -> i32 {
        self.n.signum() as i32
    }
}

/// exact ordered field; `None` on overflow
trait Q: Clone + PartialEq {
    fn i(n: i128) -> Self;
    fn zero(&self) -> bool;
    fn mul(&self, o: &Self) -> O<Self>;
    fn sub(&self, o: &Self) -> O<Self>;
    fn div(&self, o: &Self) -> O<Self>;
    fn neg(&self) -> Self;
    fn sign(&self) -> i32;
    fn lt(&self, o: &Self) -> O<bool> {
        Some(self.sub(o)?.sign() < 0)
    }
    /// constants, which may be scaled
    fn scaled(n: i128) -> Self {
        Self::i(n)
    }
    fn scale() -> f64 {
        1.0
    }
    fn vague(&self) -> bool {
        false
    }
    fn rhs(_: usize) -> Self {
        Self::i(0)
    }
    /// iterations with the largest coefficient rule, and altogether
    fn limits() -> (usize, usize) {
        (60, 400)
    }
}
impl Q for R {
    fn i(n: i128) -> R {
        R::i(n)
    }
    #[inline]
    fn zero(&self) -> bool {
        self.n == 0
    }
    #[inline]
    fn mul(&self, o: &R) -> O<R> {
        R::mul(*self, *o)
    }
    #[inline]
    fn sub(&self, o: &R) -> O<R> {
        R::sub(*self, *o)
    }
    fn div(&self, o: &R) -> O<R> {
        R::div(*self, *o)
    }
    fn neg(&self) -> R {
        R { n: -self.n, d: self.d }
    }
    #[inline]
    fn sign(&self) -> i32 {
        self.cmp0()
    }
}
impl Q for f64 {
    fn i(n: i128) -> f64 {
        n as f64
    }
    #[inline]
    fn zero(&self) -> bool {
        self.abs() < 1e-9
    }
    #[inline]
    fn mul(&self, o: &f64) -> O<f64> {
        Some(self * o)
    }
    #[inline]
    fn sub(&self, o: &f64) -> O<f64> {
        let r = self - o;
        Some(if r.abs() < 1e-9 { 0.0 } else { r })
    }
    #[inline]
    fn div(&self, o: &f64) -> O<f64> {
        Some(self / o)
    }
    fn neg(&self) -> f64 {
        -self
    }
    #[inline]
    fn sign(&self) -> i32 {
        if self.abs() < 1e-9 {
            0
        } else if *self > 0.0 {
            1
        } else {
            -1
        }
    }
}
type B = num_rational::Ratio<num_bigint::BigInt>;
impl Q for B {
    fn i(n: i128) -> B {
        B::from_integer(n.into())
    }
    fn zero(&self) -> bool {
        self.numer().sign() == num_bigint::Sign::NoSign
    }
    fn mul(&self, o: &B) -> O<B> {
        Some(self * o)
    }
    fn sub(&self, o: &B) -> O<B> {
        Some(self - o)
    }
    fn div(&self, o: &B) -> O<B> {
        Some(self / o)
    }
    fn neg(&self) -> B {
        -self
    }
    fn sign(&self) -> i32 {
        match self.numer().sign() {
            num_bigint::Sign::Minus => -1,
            num_bigint::Sign::NoSign => 0,
            num_bigint::Sign::Plus => 1,
        }
    }
}

thread_local! {
    /// when the analysis of the context at hand is given up
    pub static DEADLINE: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) };
}

/// double-double arithmetic: about 106 bits
#[derive(Clone, Copy, PartialEq, Debug)]
struct D {
    h: f64,
    l: f64,
}
#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let sp = |x: f64| {
        let c = 134217729.0 * x;
        let h = c - (c - x);
        (h, x - h)
    };
    let p = a * b;
    let (ah, al) = sp(a);
    let (bh, bl) = sp(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
impl D {
    #[inline]
    fn add(self, o: D) -> D {
        let (s, e) = two_sum(self.h, o.h);
        let (t, f) = two_sum(self.l, o.l);
        let (s, e) = two_sum(s, e + t);
        let (h, l) = two_sum(s, e + f);
        D { h, l }
    }
    #[inline]
    fn mulf(self, f: f64) -> D {
        let (p, e) = two_prod(self.h, f);
        let (h, l) = two_sum(p, e + self.l * f);
        D { h, l }
    }
}
impl Q for D {
    fn i(n: i128) -> D {
        let h = n as f64;
        D { h, l: (n - h as i128) as f64 }
    }
    #[inline]
    fn zero(&self) -> bool {
        self.h.abs() < 1e-25
    }
    #[inline]
    fn mul(&self, o: &D) -> O<D> {
        let (p, e) = two_prod(self.h, o.h);
        let (h, l) = two_sum(p, e + (self.h * o.l + self.l * o.h));
        Some(D { h, l })
    }
    #[inline]
    fn sub(&self, o: &D) -> O<D> {
        let r = self.add(D { h: -o.h, l: -o.l });
        // what is left after cancellation is noise
        Some(if r.h.abs() <= 1e-27 * (self.h.abs() + o.h.abs()) { D { h: 0.0, l: 0.0 } } else { r })
    }
    #[inline]
    fn div(&self, o: &D) -> O<D> {
        let q1 = self.h / o.h;
        let r = self.add(o.mulf(-q1));
        let q2 = r.h / o.h;
        let r = r.add(o.mulf(-q2));
        let q3 = r.h / o.h;
        let (h, l) = two_sum(q1, q2);
        Some(D { h, l }.add(D { h: q3, l: 0.0 }))
    }
    fn neg(&self) -> D {
        D { h: -self.h, l: -self.l }
    }
    #[inline]
    fn sign(&self) -> i32 {
        if self.h.abs() < 1e-25 {
            0
        } else if self.h > 0.0 {
            1
        } else {
            -1
        }
    }
    fn scale() -> f64 {
        1.0 / 18446744073709551616.0
    }
    fn scaled(n: i128) -> D {
        let d = D::i(n);
        D { h: d.h * D::scale(), l: d.l * D::scale() }
    }
    fn limits() -> (usize, usize) {
        (400, 1000)
    }
    /// the right hand sides are moved a little: the systems are highly degenerate
    fn rhs(i: usize) -> D {
        let r = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) >> 40;
        D { h: 1e-10 * (1.0 + r as f64 / (1u64 << 24) as f64), l: 0.0 }
    }
    /// the optimum is too small to be told from rounding
    fn vague(&self) -> bool {
        self.h < 1e-6 || !self.h.is_finite()
    }
}

type P = Vec<(Mono, i128)>;

/// is { c >= 0 } infeasible over the rationals?
fn infeasible(cs: &[P], huge: bool) -> O<bool> {
    // bounds of machine integers only matter for goals of that size
    let small: Vec<P>;
    let cs = if huge {
        cs
    } else {
        small = cs.iter().filter(|c| !is_huge(c)).cloned().collect();
        &small
    };
    // floating point only ever answers "not shown", or finds the constraints an exact proof needs
    let mut sup = vec![];
    match if huge { simplex::<D>(cs, &mut sup) } else { simplex::<f64>(cs, &mut sup) } {
        Some(false) => return Some(false),
        Some(true) => {
            let part: Vec<P> = sup.iter().map(|i| cs[*i].clone()).collect();
            let mut n = vec![];
            let r = match simplex::<R>(&part, &mut n) {
                Some(b) => Some(b),
                None => simplex::<B>(&part, &mut n),
            };
            if r == Some(true) {
                return r;
            }
        }
        None => {}
    }
    sup.clear();
    match simplex::<R>(cs, &mut sup) {
        Some(b) => Some(b),
        // machine integers were too small
        None => simplex::<B>(cs, &mut sup),
    }
}

/// feasibility of the dual; `support` gets the constraints of the certificate
fn simplex<F: Q>(cs: &[P], support: &mut Vec<usize>) -> O<bool> {
    // rows: monomials then the constant row
    let mut idx: FxHashMap<Mono, usize> = Default::default();
    for c in cs {
        for (m, _) in c {
            if *m != ONE {
                let n = idx.len();
                idx.entry(*m).or_insert(n);
            }
        }
    }
    let m = idx.len() + 1;
    let n = cs.len();
    // tableau: m rows, n columns + rhs; artificial basis
    let zero = F::i(0);
    let mut t = vec![vec![zero.clone(); n + 1]; m];
    for (j, c) in cs.iter().enumerate() {
        for (mo, k) in c {
            if *mo == ONE {
                t[m - 1][j] = F::scaled(-*k);
            } else {
                t[idx[mo]][j] = F::i(*k);
            }
        }
    }
    for (i, row) in t.iter_mut().enumerate() {
        row[n] = F::rhs(i);
    }
    t[m - 1][n] = F::i(1);
    // basis: artificial (usize::MAX)
    let mut basis = vec![usize::MAX; m];
    // objective row: sum of the artificials = sum of rows
    let mut z = vec![zero.clone(); n + 1];
    for row in &t {
        for j in 0..=n {
            if !row[j].zero() {
                z[j] = z[j].sub(&row[j].neg())?;
            }
        }
    }
    let one = F::i(1);
    let (dantzig, most) = F::limits();
    for iter in 0..most {
        if z[n].zero() {
            for i in 0..m {
                if basis[i] != usize::MAX && !t[i][n].zero() {
                    support.push(basis[i]);
                }
            }
            return Some(true);
        }
        // entering: largest coefficient first, then Bland
        let mut e: O<usize> = None;
        if iter < dantzig {
            for j in 0..n {
                if z[j].sign() > 0 && (e.is_none() || z[e.unwrap()].lt(&z[j])?) {
                    e = Some(j);
                }
            }
        } else {
            e = (0..n).find(|j| z[*j].sign() > 0);
        }
        let Some(e) = e else {
            if z[n].vague() {
                // perhaps zero: the exact check of the basis decides
                support.extend(basis.iter().filter(|b| **b != usize::MAX));
                return Some(true);
            }
            return Some(false);
        };
        // leaving
        let mut l: O<(usize, F)> = None;
        for i in 0..m {
            if t[i][e].sign() > 0 {
                let q = t[i][n].div(&t[i][e])?;
                let better = match &l {
                    None => true,
                    Some((li, b)) => q.lt(b)? || (q == *b && basis[i] > basis[*li]),
                };
                if better {
                    l = Some((i, q));
                }
            }
        }
        let Some((li, _)) = l else { return None };
        let piv = t[li][e].clone();
        if piv != one {
            for j in 0..=n {
                if !t[li][j].zero() {
                    t[li][j] = t[li][j].div(&piv)?;
                }
            }
        }
        let prow = std::mem::take(&mut t[li]);
        let nz: Vec<usize> = (0..=n).filter(|j| !prow[*j].zero()).collect();
        for i in 0..m {
            if i != li && !t[i][e].zero() {
                let f = t[i][e].clone();
                for &j in &nz {
                    t[i][j] = t[i][j].sub(&f.mul(&prow[j])?)?;
                }
            }
        }
        // the reduced costs are updated like any other row
        if !z[e].zero() {
            let f = z[e].clone();
            for &j in &nz {
                z[j] = z[j].sub(&f.mul(&prow[j])?)?;
            }
        }
        t[li] = prow;
        basis[li] = e;
    }
    None
}

fn is_huge(c: &P) -> bool {
    c.iter().any(|x| x.1.unsigned_abs() >= 1 << 31)
}

/// like terms combined
fn norm2(mut p: P) -> P {
    p.sort_unstable_by(|a, b| a.0.cmp(&b.0));
    let mut o: P = vec![];
    for (m, c) in p {
        match o.last_mut() {
            Some(l) if l.0 == m => l.1 += c,
            _ => o.push((m, c)),
        }
    }
    o.retain(|x| x.1 != 0);
    o
}

fn norm(mut p: P) -> P {
    p.sort_unstable_by(|a, b| a.0.cmp(&b.0));
    let mut o: P = vec![];
    for (m, c) in p {
        if let Some(l) = o.last_mut() {
            if l.0 == m {
                l.1 += c;
                continue;
            }
        }
        o.push((m, c));
    }
    o.retain(|x| x.1 != 0);
    // integer tightening
    let mut g = 0;
    for (m, c) in &o {
        if *m != ONE {
            g = gcd(g, *c);
        }
    }
    if g > 1 {
        for (_, c) in o.iter_mut() {
            *c = c.div_euclid(g);
        }
        o.retain(|x| x.1 != 0);
    }
    o
}

fn pmul(a: &P, b: &P) -> O<P> {
    let mut v = vec![];
    for (m, c) in a {
        for (n, d) in b {
            v.push((mono_mul(m, n)?, c.checked_mul(*d)?));
        }
    }
    Some(norm(v))
}

fn atoms_of(p: &P) -> impl Iterator<Item = T> + '_ {
    p.iter().flat_map(|x| x.0.iter().copied().filter(|t| *t != 0))
}

pub struct Prover {
    cache: FxHashMap<(u64, T), bool>,
    pub calls: u64,
    pub lps: u64,
}

const HUGE: i128 = 1 << 90;

impl Prover {
    pub fn new() -> Self {
        Prover { cache: Default::default(), calls: 0, lps: 0 }
    }
    pub fn prove_ge0(&mut self, tm: &mut Terms, facts: &[T], goal: T) -> bool {
        let (lo, hi) = tm.range(goal);
        if lo >= 0 {
            return true;
        }
        if hi < 0 && facts.is_empty() {
            return false;
        }
        if tm.as_int(goal).is_some() && !facts.is_empty() {
            // only provable from contradictory facts; not worth a search here
            return false;
        }
        self.calls += 1;
        use std::hash::{Hash, Hasher};
        let mut h = rustc_hash::FxHasher::default();
        facts.hash(&mut h);
        let key = (h.finish(), goal);
        if let Some(&b) = self.cache.get(&key) {
            return b;
        }
        let r = self.run(tm, facts, goal);
        self.cache.insert(key, r);
        r
    }
    pub fn contradictory(&mut self, tm: &mut Terms, facts: &[T]) -> bool {
        let mut fs: Vec<P> = facts.iter().map(|f| norm(tm.poly(*f))).collect();
        let mut seen: FxHashSet<T> = Default::default();
        self.close(tm, &mut fs, &mut seen);
        self.lps += 1;
        infeasible(&fs, true) == Some(true)
    }
    fn close(&mut self, tm: &mut Terms, cs: &mut Vec<P>, seen: &mut FxHashSet<T>) {
        let mut i = 0;
        while i < cs.len() && cs.len() < 400 {
            let ats: Vec<T> = atoms_of(&cs[i]).collect();
            for a in ats {
                if !seen.insert(a) {
                    continue;
                }
                let (lo, hi) = tm.range(a);
                if lo > -HUGE {
                    cs.push(norm(vec![([a, 0, 0, 0], 1), (ONE, -lo)]));
                }
                if hi < HUGE {
                    cs.push(norm(vec![([a, 0, 0, 0], -1), (ONE, hi)]));
                }
                match tm.n(a).clone() {
                    N::Div(x, d) => {
                        // 0 <= x - d*q <= d-1
                        let q = a;
                        let dq = tm.mul(d, q);
                        let r = tm.sub(x, dq);
                        let p = norm(tm.poly(r));
                        cs.push(p);
                        let u = tm.sub(d, r);
                        let u = tm.addc(u, -1);
                        let p = norm(tm.poly(u));
                        cs.push(p);
                    }
                    N::IOp { k: IK::Min, a: xs, .. } => {
                        for x in xs.iter() {
                            let d = tm.sub(*x, a);
                            cs.push(norm(tm.poly(d)));
                        }
                    }
                    N::IOp { k: IK::Max, a: xs, .. } => {
                        for x in xs.iter() {
                            let d = tm.sub(a, *x);
                            cs.push(norm(tm.poly(d)));
                        }
                    }
                    _ => {}
                }
            }
            // monomials of non-negative atoms
            let ms: Vec<Mono> = cs[i].iter().map(|x| x.0).filter(|m| m[1] != 0).collect();
            for m in ms {
                let (lo, _) = tm.mono_range(&m);
                if lo > -HUGE {
                    let c = norm(vec![(m, 1), (ONE, -lo)]);
                    if !cs.contains(&c) {
                        cs.push(c);
                    }
                }
            }
            i += 1;
        }
        // rounding: x + c >= d*L implies floor(x/d) >= L + floor(-c/d), and likewise from above
        let divs: Vec<(T, T, i128)> = seen.iter().filter_map(|a| if let N::Div(x, d) = tm.n(*a) { tm.as_int(*d).map(|d| (*a, *x, d)) } else { None }).filter(|x| x.2 > 1).collect();
        let mut new = vec![];
        for &(q, x, d) in &divs {
            let xp = tm.poly(x);
            let xc = xp.iter().find(|m| m.0 == ONE).map_or(0, |m| m.1);
            for f in cs.iter() {
                if f.len() > 8 {
                    continue;
                }
                let fc = f.iter().find(|m| m.0 == ONE).map_or(0, |m| m.1);
                for s in [1i128, -1] {
                    if !xp.iter().any(|(m, k)| *m != ONE && f.iter().any(|(n, c)| n == m && (c - s * k) % d == 0 && c % d != 0)) {
                        continue;
                    }
                    let mut r: P = f.iter().filter(|m| m.0 != ONE).cloned().collect();
                    r.extend(xp.iter().filter(|m| m.0 != ONE).map(|(m, k)| (*m, -s * k)));
                    let mut r = norm2(r);
                    let mut fc = fc;
                    // what is left of other terms, rounded as well: d*floor(y/d) <= y <= d*floor(y/d) + d-1
                    let mut repl: P = vec![];
                    for (m, c) in r.iter_mut() {
                        if *c % d != 0 && m[1] == 0 {
                            if let Some((q2, _, _)) = divs.iter().find(|(_, y, e)| *e == d && *y == m[0]) {
                                repl.push(([*q2, 0, 0, 0], *c * d));
                                if *c > 0 {
                                    fc += *c * (d - 1);
                                }
                                *c = 0;
                            }
                        }
                    }
                    if !repl.is_empty() {
                        r.extend(repl);
                        r = norm2(r);
                    }
                    if r.iter().any(|(m, c)| c % d != 0 || m[0] == q && m[1] == 0) {
                        continue;
                    }
                    // s*x' + R + fc >= 0
                    let mut out: P = r.iter().map(|(m, c)| (*m, c / d)).collect();
                    out.push(([q, 0, 0, 0], s));
                    let k = if s < 0 { (fc + xc).div_euclid(d) } else { -((xc - fc).div_euclid(d)) };
                    out.push((ONE, k));
                    let out = norm(out);
                    if !cs.contains(&out) {
                        new.push(out);
                    }
                }
            }
        }
        cs.extend(new);
    }
    fn run(&mut self, tm: &mut Terms, facts: &[T], goal: T) -> bool {
        if DEADLINE.get().is_some_and(|d| std::time::Instant::now() > d) {
            panic!("not analysed: time limit");
        }
        let g: P = tm.poly(goal);
        // negated goal: -g - 1 >= 0
        let mut ng: P = g.iter().map(|(m, c)| (*m, -c)).collect();
        ng.push((ONE, -1));
        let ng = norm(ng);
        let all: Vec<P> = facts.iter().map(|f| norm(tm.poly(*f))).collect();
        // relevance: facts connected with the goal through shared atoms
        let mut atoms: FxHashSet<T> = atoms_of(&ng).collect();
        let mut stack: Vec<T> = atoms.iter().copied().collect();
        let mut used = vec![false; all.len()];
        let grow = |a: T, tm: &Terms, atoms: &mut FxHashSet<T>, stack: &mut Vec<T>| {
            // arguments of division and min/max atoms are linked with them
            for c in match tm.n(a) {
                N::Div(x, d) => vec![*x, *d],
                N::IOp { k: IK::Min, a, .. } | N::IOp { k: IK::Max, a, .. } => a.to_vec(),
                _ => vec![],
            } {
                for (m, _) in tm.poly(c) {
                    for x in m {
                        if x != 0 && atoms.insert(x) {
                            stack.push(x);
                        }
                    }
                }
            }
        };
        // first with the facts that mention an atom of the goal, then with everything reachable
        {
            let mut near = atoms.clone();
            let mut st2: Vec<T> = near.iter().copied().collect();
            while let Some(a) = st2.pop() {
                grow(a, tm, &mut near, &mut st2);
            }
            let mut cs: Vec<P> = vec![ng.clone()];
            cs.extend(all.iter().filter(|f| atoms_of(f).any(|x| near.contains(&x))).cloned());
            if cs.len() < all.len() + 1 && self.search(tm, cs) {
                return true;
            }
        }
        // with many facts, those whose products share one factor with the goal
        if all.len() > 12 {
            let mut fac: Vec<T> = vec![];
            let mut near: FxHashSet<T> = atoms.clone();
            let mut st2: Vec<T> = near.iter().copied().collect();
            while let Some(a) = st2.pop() {
                grow(a, tm, &mut near, &mut st2);
            }
            let mut terms: Vec<P> = vec![ng.clone()];
            for a in &near {
                if let N::IOp { k: IK::Min | IK::Max, a, .. } = tm.n(*a) {
                    terms.extend(a.iter().map(|x| tm.poly(*x)));
                }
            }
            for p in &terms {
                for (m, _) in p {
                    if m[1] != 0 {
                        fac.extend(m.iter().filter(|x| **x != 0));
                    }
                }
            }
            fac.sort_unstable();
            fac.dedup();
            for f in fac {
                let mut cs: Vec<P> = vec![ng.clone()];
                cs.extend(all.iter().filter(|c| c.iter().all(|(m, _)| m[1] == 0 || m.contains(&f))).cloned());
                if cs.len() < all.len() + 1 && self.search(tm, cs) {
                    return true;
                }
            }
        }
        while let Some(a) = stack.pop() {
            grow(a, tm, &mut atoms, &mut stack);
            for (i, f) in all.iter().enumerate() {
                if !used[i] && atoms_of(f).any(|x| x == a) {
                    used[i] = true;
                    for x in atoms_of(f) {
                        if atoms.insert(x) {
                            stack.push(x);
                        }
                    }
                }
            }
        }
        let mut cs: Vec<P> = vec![ng.clone()];
        cs.extend(all.iter().enumerate().filter(|(i, _)| used[*i]).map(|x| x.1.clone()));
        self.search(tm, cs)
    }
    fn search(&mut self, tm: &mut Terms, mut cs: Vec<P>) -> bool {
        let huge = is_huge(&cs[0]);
        let mut seen = Default::default();
        self.close(tm, &mut cs, &mut seen);
        self.lps += 1;
        if infeasible(&cs, huge) == Some(true) {
            return true;
        }
        // products
        for level in 0..2 {
            let base = cs.clone();
            let monos: FxHashSet<Mono> = base.iter().flat_map(|c| c.iter().map(|x| x.0)).filter(|m| m[1] != 0).collect();
            if monos.is_empty() {
                return false;
            }
            let mut pairs: FxHashSet<(T, T)> = Default::default();
            for m in &monos {
                for a in m {
                    for b in m {
                        if *a != 0 && *b != 0 && (a != b || m.iter().filter(|x| *x == a).count() > 1) {
                            pairs.insert((*a, *b));
                        }
                    }
                }
            }
            let mut pv: Vec<(T, T)> = pairs.into_iter().collect();
            pv.sort_unstable();
            let mut seenp: FxHashSet<P> = cs.iter().cloned().collect();
            for (a, b) in pv {
                let (blo, _) = tm.range(b);
                let gs: Vec<P> = if level == 0 {
                    if blo >= 0 {
                        vec![vec![([b, 0, 0, 0], 1)]]
                    } else {
                        vec![]
                    }
                } else {
                    base.iter().filter(|c| c.len() <= 3 && c.iter().all(|x| x.0[1] == 0) && atoms_of(c).any(|x| x == b)).cloned().collect()
                };
                for f in &base {
                    if f.iter().any(|x| x.0[0] == a && x.0[1] == 0) && f.len() <= 8 {
                        // skip the machine range bounds, they only add noise
                        if f.iter().any(|x| x.1.abs() > 1 << 24) {
                            continue;
                        }
                        for g in &gs {
                            if g.iter().any(|x| x.1.abs() > 1 << 24) {
                                continue;
                            }
                            if let Some(p) = pmul(f, g) {
                                if !p.is_empty() && seenp.insert(p.clone()) {
                                    cs.push(p);
                                }
                            }
                        }
                    }
                }
                if cs.len() > 260 {
                    break;
                }
            }
            let mut seen2 = Default::default();
            self.close(tm, &mut cs, &mut seen2);
            self.lps += 1;
            if infeasible(&cs, huge) == Some(true) {
                return true;
            }
            if cs.len() > 220 {
                return false;
            }
        }
        false
    }
}
