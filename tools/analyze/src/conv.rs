//! Obligations on the outcome of one conversion context.
use crate::ctx::*;
use crate::exec::*;
use crate::real::*;
use crate::spec::*;
use crate::state::*;
use crate::term::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    /// memory access not shown in bounds / uninitialised / unreachable reached
    Memory,
    /// instruction executed without its CPU feature
    Feature,
    /// panic that valid or invalid arguments can trigger
    Panic,
    /// outcome does not match validity of the arguments, or a write before rejection
    Reject,
    /// value depends on the wrong source samples
    Source,
    /// value is the wrong function of the right samples
    Value,
    Alpha,
    /// same format and colour: value is not the sample
    Identity,
    Saturate,
    /// a destination sample is not written
    Coverage,
    /// bytes outside the picture area are written
    Padding,
    DstRead,
    Tasks,
    /// the analysis could not follow the code
    Undecided,
    Geometry,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub class: Class,
    /// stable identification without line numbers
    pub key: String,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct Obl {
    /// class -> (obligations, discharged)
    pub n: FxHashMap<Class, (u64, u64)>,
}
impl Obl {
    pub fn ok(&mut self, c: Class) {
        let e = self.n.entry(c).or_default();
        e.0 += 1;
        e.1 += 1;
    }
    pub fn bad(&mut self, c: Class) {
        self.n.entry(c).or_default().0 += 1;
    }
    pub fn merge(&mut self, o: &Obl) {
        for (k, v) in &o.n {
            let e = self.n.entry(*k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
    }
}

pub struct Sink {
    pub ctx: String,
    pub f: Vec<Finding>,
    pub obl: Obl,
    seen: FxHashSet<(Class, String)>,
}
impl Sink {
    pub fn new(ctx: String) -> Self {
        Sink { ctx, f: vec![], obl: Default::default(), seen: Default::default() }
    }
    pub fn bad(&mut self, class: Class, key: String, text: String) {
        self.obl.bad(class);
        if self.seen.insert((class, key.clone())) {
            let text = format!("[{}] {text}", self.ctx);
            self.f.push(Finding { class, key, text });
        }
    }
    pub fn ok(&mut self, c: Class) {
        self.obl.ok(c)
    }
    pub fn check(&mut self, ok: bool, class: Class, key: impl FnOnce() -> (String, String)) {
        if ok {
            self.ok(class)
        } else {
            let (k, t) = key();
            self.bad(class, k, t)
        }
    }
}

/// a half-open interval, or a strided family of n of them
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Iv {
    pub lo: T,
    pub len: T,
    /// 0 (the constant term id of zero) unless strided
    pub step: T,
    pub n: T,
}
#[derive(Clone, Debug)]
pub struct Rect {
    pub obj: Obj,
    pub r: Iv,
    pub c: Iv,
    pub site: Site,
}

pub fn short_fn(an: &An, f: u32) -> String {
    let n = &an.p.funcs[f as usize].name;
    // strip generic arguments
    let mut out = String::new();
    let mut d = 0i32;
    let b: Vec<char> = n.chars().collect();
    let lead = n.starts_with('<');
    for (i, ch) in b.iter().enumerate() {
        match ch {
            '<' if !(lead && i == 0) => d += 1,
            '>' if i > 0 && b[i - 1] != '-' && d > 0 => d -= 1,
            _ if d == 0 => out.push(*ch),
            _ => {}
        }
    }
    out.replace("::::", "::")
}
pub fn file_of(an: &An, f: u32) -> String {
    let s = &an.p.files[f as usize];
    match s.find("/src/") {
        Some(i) if s.contains("/repo/") || s.starts_with("src") => s[i + 1..].to_string(),
        _ => s.clone(),
    }
}
/// innermost frame inside the analysed crate
pub fn where_(an: &An, stack: &[(u32, u32, u32)]) -> (String, String) {
    for (f, fi, l) in stack.iter().rev() {
        let fu = &an.p.funcs[*f as usize];
        if fu.krate == an.p.crate_name {
            return (format!("{}:{}", file_of(an, *fi), short_fn(an, *f)), format!("{}:{}", file_of(an, *fi), l));
        }
    }
    match stack.last() {
        Some((f, fi, l)) => (short_fn(an, *f), format!("{}:{}", an.p.files[*fi as usize], l)),
        None => ("?".into(), "?".into()),
    }
}
/// path from the entry point through the analysed crate to the event
pub fn path_(an: &An, stack: &[(u32, u32, u32)]) -> String {
    let mut v = vec![];
    for (f, fi, l) in stack {
        let fu = &an.p.funcs[*f as usize];
        if fu.krate == an.p.crate_name {
            v.push(format!("{} ({}:{})", short_fn(an, *f), file_of(an, *fi), l));
        }
    }
    v.join(" -> ")
}

/// surfaces of image `i` at a state
pub fn surface(an: &An, st: &State, i: usize, fmt: &str, color: Color) -> Surface {
    let planes = an.imgs[i].planes.iter().map(|(o, s)| (*o, st.params[*s])).collect();
    Surface { lay: layout(fmt), color, planes }
}

/// terms that are >= 0 exactly when the image description is valid
pub fn valid_terms(an: &mut An, st: &State, i: usize, fmt: &str) -> Vec<T> {
    let lay = layout(fmt);
    let img = an.imgs[i].clone();
    let (w, h) = (st.params[img.w], st.params[img.h]);
    let mut v = vec![];
    for (pi, p) in lay.planes.iter().enumerate() {
        let Some((obj, si)) = img.planes.get(pi) else { continue };
        let s = st.params[*si];
        let g = an.tm.divc(w, p.xd);
        let rb = an.tm.mulc(g, lay.gbytes(pi));
        v.push(an.tm.sub(s, rb));
        let rows = an.tm.divc(h, p.yd);
        // the last row need not be padded to the stride
        // (for rows == 0 this is rb - s, which the previous term makes <= 0)
        let need = an.tm.mul(s, rows);
        let need = an.tm.sub(need, s);
        let need = an.tm.add(need, rb);
        let len = match an.obj(st, *obj).as_deref() {
            Some(ObjK::Buf { len, .. }) => *len,
            _ => an.tm.int(0),
        };
        v.push(an.tm.sub(len, need));
    }
    v
}
/// terms that are >= 0 exactly when none of the sizes overflows
pub fn nowrap_terms(an: &mut An, st: &State, i: usize, fmt: &str) -> Vec<T> {
    let lay = layout(fmt);
    let img = an.imgs[i].clone();
    let (w, h) = (st.params[img.w], st.params[img.h]);
    let mut v = vec![];
    let max = an.tm.int(u64::MAX as i128);
    for (pi, p) in lay.planes.iter().enumerate() {
        let Some((_, si)) = img.planes.get(pi) else { continue };
        let s = st.params[*si];
        let n = p.group.len() as i128 * lay.bytes as i128;
        let a = an.tm.mulc(w, n);
        let d = if p.xd == 1 { a } else { an.tm.divc(a, p.xd) };
        v.push(an.tm.sub(max, d));
        let rows = an.tm.divc(h, p.yd);
        // s*(rows-1) + row bytes; a weaker bound than the code's is enough here
        let need = an.tm.mul(s, rows);
        let need = an.tm.sub(need, s);
        let need = an.tm.add(need, d);
        v.push(an.tm.sub(max, need));
    }
    v
}

pub fn ev_state(an: &An, e: &Event, like: &State) -> State {
    let mut s = like.clone();
    s.facts = e.facts.clone();
    s.conds = e.conds.clone();
    s.params = e.params.clone();
    let _ = an;
    s
}

/// can all of `ge` (terms >= 0) and `eq` (terms == 0) hold in the state?
pub fn feasible(an: &mut An, st: &State, ge: &[T], eq: &[T]) -> bool {
    let mut s = st.clone();
    let mut extra = vec![];
    for t in eq {
        let n = an.tm.neg(*t);
        extra.push(*t);
        extra.push(n);
    }
    extra.extend_from_slice(ge);
    for t in &extra {
        let (lo, hi) = an.tm.range(*t);
        if lo >= 0 {
            continue;
        }
        if hi < 0 {
            return false;
        }
        s.facts.push(*t);
    }
    if an.pv.contradictory(&mut an.tm, &s.facts) {
        return false;
    }
    // branch conditions that are no linear facts
    let conds = std::mem::take(&mut s.conds);
    if conds.iter().any(|c| an.decide(&s, *c) == Some(false)) {
        return false;
    }
    // a quantity said to exceed a machine integer: refute that from the rest
    for (i, f) in s.facts.iter().enumerate() {
        let p = an.tm.poly(*f);
        if p.iter().any(|(m, c)| *m == ONE && *c < -(1 << 60)) {
            let mut rest = s.facts.clone();
            rest.remove(i);
            let n = an.tm.neg(*f);
            let n = an.tm.addc(n, -1);
            if an.prove_deep(&rest, n, 2) {
                return false;
            }
        }
    }
    let f = an.tm.int(-1);
    !an.prove_deep(&s.facts, f, 4)
}

/// findings from events that are independent of the entry point
pub fn common_events(an: &mut An, sink: &mut Sink) {
    let evs = an.events.clone();
    for e in &evs {
        let (k, l) = where_(an, &e.stack);
        let (class, what) = match e.kind {
            EvKind::Oob => (Class::Memory, "access not shown to be in bounds"),
            EvKind::Uninit => (Class::Memory, "use of uninitialised memory"),
            EvKind::Unreachable => (Class::Memory, "unreachable_unchecked can be reached"),
            EvKind::Feature => (Class::Feature, "instruction used without its CPU feature"),
            EvKind::Unsupported => (Class::Undecided, "construct not understood"),
            EvKind::DstRead => (Class::DstRead, "destination bytes are read"),
            EvKind::Panic => continue,
        };
        let p = path_(an, &e.stack);
        sink.bad(class, format!("{k}:{}", ev_kind(&e.msg)), format!("{what}: {} at {l} via {p}", e.msg.chars().take(300).collect::<String>()));
    }
    let n = an.stats.accesses;
    let e = sink.obl.n.entry(Class::Memory).or_default();
    e.0 += n;
    e.1 += n;
    let e = sink.obl.n.entry(Class::DstRead).or_default();
    e.0 += n;
    e.1 += n;
    let e = sink.obl.n.entry(Class::Feature).or_default();
    e.0 += an.stats.calls;
    e.1 += an.stats.calls;
}
/// message without the symbolic details
pub fn ev_kind(m: &str) -> String {
    let mut s: String = m.chars().take_while(|c| *c != '(' && *c != '[').collect();
    s.retain(|c| !c.is_ascii_digit() && c != '@');
    s.trim().chars().take(60).collect()
}

pub struct ConvOut {
    pub sink: Sink,
}

/// integer quantiser around a floating point value
pub struct Quant {
    pub f: T,
    pub nearest: bool,
    /// real clamp applied before the conversion
    pub clo: f64,
    pub chi: f64,
    cvt: (i128, i128, bool),
    chain: Vec<QStep>,
}
#[derive(Clone, Debug)]
enum QStep {
    Wrap(u16, bool),
    Clamp(i128, i128),
    Add(i128),
}
impl Quant {
    pub fn parse(tm: &mut Terms, t: T) -> Option<Quant> {
        let mut chain = vec![];
        let mut x = t;
        loop {
            match tm.n(x).clone() {
                N::Cvt { f, rnd, lo, hi, indef } => {
                    chain.reverse();
                    let mut q = Quant { f, nearest: rnd == Rnd::Near, clo: f64::NEG_INFINITY, chi: f64::INFINITY, cvt: (lo, hi, indef), chain };
                    q.peel(tm);
                    return Some(q);
                }
                N::IOp { k: IK::Wrap { bits, signed }, a, .. } => {
                    chain.push(QStep::Wrap(bits, signed));
                    x = a[0];
                }
                N::IOp { k: IK::Sat, a, lo, hi } => {
                    chain.push(QStep::Clamp(lo, hi));
                    x = a[0];
                }
                N::IOp { k: IK::Min, a, .. } if a.len() == 2 => {
                    let (c, y) = match (tm.as_int(a[0]), tm.as_int(a[1])) {
                        (Some(c), _) => (c, a[1]),
                        (_, Some(c)) => (c, a[0]),
                        _ => return None,
                    };
                    chain.push(QStep::Clamp(i128::MIN, c));
                    x = y;
                }
                N::IOp { k: IK::Max, a, .. } if a.len() == 2 => {
                    let (c, y) = match (tm.as_int(a[0]), tm.as_int(a[1])) {
                        (Some(c), _) => (c, a[1]),
                        (_, Some(c)) => (c, a[0]),
                        _ => return None,
                    };
                    chain.push(QStep::Clamp(c, i128::MAX));
                    x = y;
                }
                N::Sel(c, a, b) => {
                    // x < k ? k : x and the like
                    let N::Ge(d) = tm.n(c).clone() else { return None };
                    let (k, y, k_when_ge) = match (tm.as_int(a), tm.as_int(b)) {
                        (Some(k), None) => (k, b, true),
                        (None, Some(k)) => (k, a, false),
                        _ => return None,
                    };
                    let p = tm.poly(d);
                    let py = tm.poly(y);
                    let lin = |p: &[(Mono, i128)]| -> (i128, Vec<(Mono, i128)>) { (p.iter().find(|x| x.0 == ONE).map(|x| x.1).unwrap_or(0), p.iter().filter(|x| x.0 != ONE).copied().collect()) };
                    let ((dc, dv), (yc, yv)) = (lin(&p), lin(&py));
                    let neg: Vec<(Mono, i128)> = yv.iter().map(|(m, c)| (*m, -c)).collect();
                    if dv == yv {
                        // condition: y >= yc - dc
                        let thr = yc - dc;
                        if k_when_ge && (k == thr || k == thr - 1) {
                            chain.push(QStep::Clamp(i128::MIN, k));
                        } else if !k_when_ge && (k == thr || k == thr - 1) {
                            chain.push(QStep::Clamp(k, i128::MAX));
                        } else {
                            return None;
                        }
                    } else if dv == neg {
                        // condition: y <= dc + yc
                        let thr = dc + yc;
                        if k_when_ge && (k == thr || k == thr + 1) {
                            chain.push(QStep::Clamp(k, i128::MAX));
                        } else if !k_when_ge && (k == thr || k == thr + 1) {
                            chain.push(QStep::Clamp(i128::MIN, k));
                        } else {
                            return None;
                        }
                    } else {
                        return None;
                    }
                    x = y;
                }
                N::Poly(p) => {
                    // x + c
                    let v: Vec<_> = p.iter().filter(|m| m.0 != ONE).collect();
                    if v.len() != 1 || v[0].1 != 1 || v[0].0[1] != 0 {
                        return None;
                    }
                    let c = p.iter().find(|m| m.0 == ONE).map(|m| m.1).unwrap_or(0);
                    chain.push(QStep::Add(c));
                    x = v[0].0[0];
                }
                _ => return None,
            }
        }
    }
    /// clamps applied to the float, outermost first
    fn peel(&mut self, tm: &mut Terms) {
        loop {
            match tm.n(self.f).clone() {
                // rounding is monotone: clamp(x, c) * k == clamp(x * k, c * k), and likewise for sums
                N::FOp(o @ (FK::Mul | FK::Add), v) if v.len() == 2 => {
                    let (k, y) = match (tm.as_f(v[0]), tm.as_f(v[1])) {
                        (Some(k), None) => (k, v[1]),
                        (None, Some(k)) => (k, v[0]),
                        _ => return,
                    };
                    if !k.is_finite() || (o == FK::Mul && k <= 0.0) {
                        return;
                    }
                    let ap = |tm: &mut Terms, x: T| {
                        let kt = tm.f(k);
                        tm.fop(o, vec![x, kt])
                    };
                    self.f = match tm.n(y).clone() {
                        N::FOp(m @ (FK::Min | FK::Max), a) if tm.as_f(a[0]).is_some() || tm.as_f(a[1]).is_some() => {
                            let (x, y) = (ap(tm, a[0]), ap(tm, a[1]));
                            tm.fop(m, vec![x, y])
                        }
                        _ => return,
                    };
                }
                N::FOp(k @ (FK::Max | FK::Min), a) => {
                    let (c, y) = match (tm.as_f(a[0]), tm.as_f(a[1])) {
                        (Some(c), _) => (c as f64, a[1]),
                        (_, Some(c)) => (c as f64, a[0]),
                        _ => return,
                    };
                    // inner clamps are applied before: compose
                    if k == FK::Max {
                        self.clo = self.clo.max(c.min(self.chi));
                    } else {
                        self.chi = self.chi.min(c.max(self.clo));
                    }
                    self.f = y;
                }
                N::Sel(c, a, b) => {
                    let N::FCmp(k, x, y) = tm.n(c).clone() else { return };
                    if k == FC::Eq {
                        return;
                    }
                    // (x < y) ? a : b
                    let (f, lim, lower) = match (tm.as_f(x), tm.as_f(y), tm.as_f(a), tm.as_f(b)) {
                        (None, Some(t), Some(v), None) if v == t && b == x => (b, v, true),
                        (None, Some(t), None, Some(v)) if v == t && a == x => (a, v, false),
                        (Some(t), None, Some(v), None) if v == t && b == y => (b, v, false),
                        (Some(t), None, None, Some(v)) if v == t && a == y => (a, v, true),
                        _ => return,
                    };
                    if lower {
                        self.clo = self.clo.max((lim as f64).min(self.chi));
                    } else {
                        self.chi = self.chi.min((lim as f64).max(self.clo));
                    }
                    self.f = f;
                }
                _ => return,
            }
        }
    }
    fn g(&self, n: i128) -> i128 {
        let (lo, hi, indef) = self.cvt;
        let mut x = if n < lo || n > hi {
            if indef {
                i32::MIN as i128
            } else {
                n.clamp(lo, hi)
            }
        } else {
            n
        };
        for s in &self.chain {
            x = match s {
                QStep::Wrap(b, sg) => {
                    let m = 1i128 << b;
                    let r = x.rem_euclid(m);
                    if *sg && r >= m / 2 {
                        r - m
                    } else {
                        r
                    }
                }
                QStep::Clamp(l, h) => x.clamp(*l, *h),
                QStep::Add(c) => x + c,
            };
        }
        x
    }
    /// first integer in [lo, hi] that is not clamped to 0..=max; the map is piecewise linear, so its breakpoints decide
    pub fn unsat(&self, lo: f64, hi: f64, max: i128, bits: u16) -> Option<i128> {
        let lo2 = lo.max(self.clo).min(self.chi);
        let hi2 = hi.min(self.chi).max(self.clo);
        let slack = 0.02;
        // f32 values are below 2^128
        let rd = |x: f64| -> i128 {
            let x = x.clamp(-1e30, 1e30);
            if self.nearest {
                x.round() as i128
            } else {
                x.trunc() as i128
            }
        };
        let (a, b) = (rd(lo2 + slack), rd(hi2 - slack).max(rd(lo2 + slack)));
        // clamped ends must still be the right code
        if lo < self.clo - slack && rd(self.clo).clamp(0, max) != rd(lo + slack).clamp(0, max) {
            return Some(rd(lo + slack));
        }
        if hi > self.chi + slack && rd(self.chi).clamp(0, max) != rd(hi - slack).clamp(0, max) {
            return Some(rd(hi - slack));
        }
        let mut pts = vec![a, b, 0, max, max + 1, -1, 1, max - 1];
        let mut brk = vec![self.cvt.0, self.cvt.1];
        for s in &self.chain {
            match s {
                QStep::Wrap(bt, _) => {
                    let m = 1i128 << bt;
                    for q in [-2i128, -1, 0, 1, 2] {
                        brk.extend([q * m, q * m + m / 2]);
                    }
                }
                QStep::Clamp(l, h) => brk.extend([*l, *h]),
                QStep::Add(_) => {}
            }
        }
        let adds: Vec<i128> = std::iter::once(0).chain(self.chain.iter().filter_map(|s| if let QStep::Add(c) = s { Some(*c) } else { None })).collect();
        for p in brk {
            if p.abs() > 1 << 100 {
                continue;
            }
            for d in [-1, 0, 1] {
                for c in &adds {
                    pts.push(p + d - c);
                }
            }
        }
        pts.sort_unstable();
        let m = 1i128 << bits;
        for p in pts {
            if p < a || p > b {
                continue;
            }
            if self.g(p).rem_euclid(m) != p.clamp(0, max) {
                return Some(p);
            }
        }
        None
    }
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    I(i128),
    F(f32),
    B(bool),
}

pub struct Checker<'a, 'p> {
    pub an: &'a mut An<'p>,
    pub rl: Reals,
    pub ex: Expect,
    pub same: bool,
    pub sink: Sink,
    /// exact comparisons are memoised: (value, expected) -> ok
    vmemo: FxHashMap<(T, PId), bool>,
    dstimg: usize,
    srcimg: usize,
    deps: FxHashMap<T, Rc<FxHashSet<T>>>,
}

impl<'a, 'p> Checker<'a, 'p> {
    /// (row, column) of a byte offset in a plane with the given stride
    pub fn split(an: &mut An, off: T, stride: T) -> Option<(T, T)> {
        if an.tm.as_int(off) == Some(0) {
            return Some((off, off));
        }
        // a stride that is known to be the length of a row is written as that length
        let sp = an.tm.poly(stride);
        let [(one, f)] = &sp[..] else { return None };
        let (one, f) = (*one, *f);
        if one[0] == 0 || f <= 0 {
            return None;
        }
        let p = an.tm.poly(off);
        let (mut r, mut c) = (vec![], vec![]);
        for (m, k) in p {
            let q = if k % f == 0 { mono_quot(&m, &one) } else { None };
            if let Some(q) = q {
                if mono_quot(&q, &one).is_some() {
                    return None;
                }
                r.push((q, k / f));
            } else {
                c.push((m, k));
            }
        }
        let (r, c) = (an.tm.mk_poly(r), an.tm.mk_poly(c));
        Some((r, c))
    }
    fn plane_of(&self, obj: Obj) -> Option<usize> {
        self.an.imgs[self.dstimg].planes.iter().position(|p| p.0 == obj)
    }

    fn deps_of(&mut self, t: T) -> Rc<FxHashSet<T>> {
        if let Some(d) = self.deps.get(&t) {
            return d.clone();
        }
        let mut s: FxHashSet<T> = Default::default();
        if let N::Byte { .. } = self.an.tm.n(t) {
            s.insert(t);
        } else {
            for c in self.an.tm.children(t) {
                if self.an.tm.is_data(c) {
                    let d = self.deps_of(c);
                    s.extend(d.iter().copied());
                }
            }
        }
        let r = Rc::new(s);
        self.deps.insert(t, r.clone());
        r
    }
    fn poly_deps(&self, p: PId, out: &mut FxHashSet<T>, seen: &mut FxHashSet<PId>) {
        if !seen.insert(p) {
            return;
        }
        for (m, _) in &self.rl.get(p).t {
            for a in m {
                match &self.rl.atoms[*a as usize] {
                    Atom::Int(t) => {
                        out.insert(*t);
                    }
                    Atom::Opaque(_) => {}
                    Atom::Pow(p, _) | Atom::Ln(p) | Atom::Exp(p) | Atom::Inv(p) | Atom::Round(_, p) => self.poly_deps(*p, out, seen),
                    Atom::PowV(p, q) | Atom::Max(p, q) | Atom::Min(p, q) => {
                        self.poly_deps(*p, out, seen);
                        self.poly_deps(*q, out, seen);
                    }
                    Atom::Sel(p, q, r) => {
                        for x in [p, q, r] {
                            self.poly_deps(*x, out, seen);
                        }
                    }
                }
            }
        }
    }

    fn leaf(&mut self, st: &State, pl: usize, row: T, col: T, val: T, site: &Site) {
        self.leaf2(st, pl, row, col, val, site, false)
    }
    fn leaf2(&mut self, st: &State, pl: usize, row: T, col: T, val: T, site: &Site, retry: bool) {
        let bytes = self.ex.dst.lay.bytes;
        let fmt_fn = short_fn(self.an, site.func);
        let place = format!("{}:{fmt_fn}", file_of(self.an, site.file));
        let loc = format!("{}:{}", file_of(self.an, site.file), site.line);
        let Some((ch, exp, codes)) = self.ex.at(&mut self.an.tm, &mut self.rl, pl, row, col, self.same) else {
            self.sink.bad(Class::Undecided, format!("{place}:location"), format!("destination sample not identified: plane {pl} row {} column {} at {loc}", self.an.tm.show(row), self.an.tm.show(col)));
            return;
        };
        let max = (1i128 << self.ex.dst.lay.bits) - 1;
        let class_eq = if self.same { Class::Identity } else if ch == Ch::A { Class::Alpha } else { Class::Value };
        if self.same && val == codes[0] {
            self.sink.ok(Class::Identity);
            self.sink.ok(Class::Source);
            self.sink.ok(Class::Saturate);
            return;
        }
        let memo_key = (val, exp);
        if let Some(true) = self.vmemo.get(&memo_key) {
            self.sink.ok(class_eq);
            self.sink.ok(Class::Source);
            self.sink.ok(Class::Saturate);
            return;
        }
        let name = format!("plane {pl} channel {ch:?}");
        let (q, core) = if let Some(c) = self.an.tm.as_int(val) {
            (None, self.rl.cst(c as f64))
        } else {
            match Quant::parse(&mut self.an.tm, val) {
                Some(q) => {
                    let p = self.rl.of(&self.an.tm, q.f);
                    (Some(q), p)
                }
                None => {
                    // a direct copy of some sample
                    let ok = matches!(self.an.tm.n(val), N::Byte { .. } | N::Poly(_));
                    if !ok {
                        self.sink.bad(Class::Undecided, format!("{place}:quantiser:{ch:?}"), format!("{name}: value form not understood at {loc}: {}", self.an.tm.show_d(val, 4)));
                        return;
                    }
                    let p = self.rl.of_int(&self.an.tm, val);
                    (None, p)
                }
            }
        };
        let mut ok = true;
        let e2 = exp;
        let mut close = self.rl.close(core, e2);
        if !close {
            if let Some(q) = &q {
                if !q.nearest {
                    // rounding done by adding one half
                    let c2 = self.rl.addc(core, -0.5);
                    close = self.rl.close(c2, e2);
                }
            }
        }
        // dependencies
        let want: FxHashSet<T> = {
            let mut s = Default::default();
            self.poly_deps(e2, &mut s, &mut Default::default());
            s
        };
        let mut have: FxHashSet<T> = Default::default();
        self.poly_deps(core, &mut have, &mut Default::default());
        let same_src = have == want || close;
        if !same_src && !retry {
            let v2 = self.canon(st, val, &want, &have);
            if v2 != val {
                return self.leaf2(st, pl, row, col, v2, site, true);
            }
        }
        if !same_src {
            ok = false;
            let d = |s: &Self, v: &FxHashSet<T>| -> String {
                let mut x: Vec<String> = v.iter().map(|t| s.show_sample(*t)).collect();
                x.sort();
                x.truncate(12);
                x.join(", ")
            };
            let (h, w) = (d(self, &have), d(self, &want));
            let text = format!("{name} at row {} column {} is computed from {{{h}}} instead of {{{w}}} ({loc})", self.an.tm.show(row), self.an.tm.show(col));
            let key = format!("{place}:{}:{ch:?}", self.pair());
            if class_eq != Class::Value {
                self.sink.bad(class_eq, key.clone(), text.clone());
            }
            self.sink.bad(Class::Source, key, text);
        } else {
            self.sink.ok(Class::Source);
        }
        if same_src && !close {
            ok = false;
            let (a, b) = (self.rl.show(&self.an.tm, core, 4), self.rl.show(&self.an.tm, e2, 4));
            let d = self.rl.diff(core, e2);
            self.sink.bad(class_eq, format!("{place}:{}:{ch:?}", self.pair()), format!("{name} is {a}; required {b}; relative difference {d:.5} ({loc})"));
        } else if same_src {
            // exactness of the identity
            if self.same {
                match self.identity_exact(val, codes[0], max) {
                    Ok(()) => self.sink.ok(Class::Identity),
                    Err(Some((c, x))) => {
                        ok = false;
                        self.sink.bad(Class::Identity, format!("{place}:{}:{ch:?}:inexact", self.pair()), format!("{name}: code {c} is copied as {x} ({loc})"));
                    }
                    Err(None) => {
                        ok = false;
                        self.sink.bad(Class::Undecided, format!("{place}:exact:{ch:?}"), format!("{name}: copy through an expression that is not understood: {} ({loc})", self.an.tm.show_d(val, 6)));
                    }
                }
            } else {
                self.sink.ok(class_eq);
            }
        }
        // saturation
        match &q {
            None => match self.an.tm.as_int(val) {
                Some(c) => {
                    let good = c >= 0 && c <= max;
                    self.sink.check(good, Class::Saturate, || (format!("{place}:{ch:?}:const"), format!("{name}: constant {c} exceeds {max} ({loc})")));
                    ok &= good;
                }
                None => self.sink.ok(Class::Saturate),
            },
            Some(q) => {
                let (lo, hi) = self.rl.bounds(core);
                match q.unsat(lo, hi, max, 8 * bytes as u16) {
                    None => self.sink.ok(Class::Saturate),
                    Some(n) => {
                        ok = false;
                        let g = q.g(n);
                        self.sink.bad(Class::Saturate, format!("{place}:{}", self.ex.dst.lay.bits), format!("{name}: a value of {n} is stored as code {g} instead of {} (value range {lo:.1}..{hi:.1}, codes 0..={max}) ({loc})", n.clamp(0, max)));
                    }
                }
            }
        }
        if ok {
            self.vmemo.insert(memo_key, true);
        }
    }
    fn pair(&self) -> String {
        String::new()
    }
    fn show_sample(&self, t: T) -> String {
        if let N::Byte { obj, off } = self.an.tm.n(t) {
            for (i, im) in self.an.imgs.iter().enumerate() {
                if let Some(p) = im.planes.iter().position(|p| p.0 == *obj) {
                    return format!("image{i}.plane{p}[{}]", self.an.tm.show(*off));
                }
            }
        }
        self.an.tm.show(t)
    }
    /// replace wanted bytes by provably equal ones the value uses
    /// rewrite bytes of the source whose offset provably equals the one of an expected byte
    fn canon(&mut self, st: &State, val: T, want: &FxHashSet<T>, have: &FxHashSet<T>) -> T {
        let mut v = val;
        let mut wanted: Vec<T> = want.iter().flat_map(|w| self.deps_of(*w).iter().copied().collect::<Vec<_>>()).collect();
        wanted.sort_unstable();
        wanted.dedup();
        let extra: Vec<T> = self.deps_of(val).iter().copied().filter(|x| !wanted.contains(x)).collect();
        if extra.len() > 64 || have.is_empty() {
            return v;
        }
        for x in extra {
            let N::Byte { obj, off } = self.an.tm.n(x).clone() else { continue };
            for y in wanted.clone() {
                let N::Byte { obj: o2, off: off2 } = self.an.tm.n(y).clone() else { continue };
                if o2 != obj {
                    continue;
                }
                if self.an.prove_ge(st, off, off2) && self.an.prove_ge(st, off2, off) {
                    v = self.an.tm.rewrite(v, x, y, &mut Default::default());
                    break;
                }
            }
        }
        v
    }
    /// value of an expression when the sample it depends on has a given code (f32 arithmetic as executed)
    fn eval(&self, t: T, env: &FxHashMap<T, i128>, memo: &mut FxHashMap<T, Option<Ev>>) -> Option<Ev> {
        if let Some(c) = env.get(&t) {
            return Some(Ev::I(*c));
        }
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let mut i = |x: T| match self.eval(x, env, memo) {
            Some(Ev::I(v)) => Some(v),
            _ => None,
        };
        let tm = &self.an.tm;
        let r = match tm.n(t).clone() {
            N::Poly(p) => {
                let mut acc = 0i128;
                let mut ok = true;
                for (m, c) in p.iter() {
                    let mut v = *c;
                    for x in m {
                        if *x != 0 {
                            match i(*x) {
                                Some(y) => v = v.checked_mul(y)?,
                                None => ok = false,
                            }
                        }
                    }
                    acc += v;
                }
                if ok {
                    Some(Ev::I(acc))
                } else {
                    None
                }
            }
            N::Div(a, b) => match (i(a), i(b)) {
                (Some(a), Some(b)) if b > 0 => Some(Ev::I(a.div_euclid(b))),
                _ => None,
            },
            N::IOp { k, a, lo, hi } => {
                let v: Option<Vec<i128>> = a.iter().map(|x| i(*x)).collect();
                let v = v?;
                Some(Ev::I(match k {
                    IK::And if v.len() == 2 => v[0] & v[1],
                    IK::Or if v.len() == 2 => v[0] | v[1],
                    IK::Min if v.len() == 2 => v[0].min(v[1]),
                    IK::Max if v.len() == 2 => v[0].max(v[1]),
                    IK::Sat => v[0].clamp(lo, hi),
                    IK::Wrap { bits, signed } => {
                        let m = 1i128 << bits;
                        let r = v[0].rem_euclid(m);
                        if signed && r >= m / 2 {
                            r - m
                        } else {
                            r
                        }
                    }
                    _ => return None,
                }))
            }
            N::Sel(c, a, b) => match self.eval(c, env, memo)? {
                Ev::B(true) => self.eval(a, env, memo),
                Ev::B(false) => self.eval(b, env, memo),
                _ => None,
            },
            N::Ge(a) => i(a).map(|x| Ev::B(x >= 0)),
            N::Eq(a) => i(a).map(|x| Ev::B(x == 0)),
            N::Not(a) => match self.eval(a, env, memo)? {
                Ev::B(b) => Some(Ev::B(!b)),
                _ => None,
            },
            N::And(a, b) | N::Or(a, b) => {
                let and = matches!(tm.n(t), N::And(..));
                match (self.eval(a, env, memo)?, self.eval(b, env, memo)?) {
                    (Ev::B(x), Ev::B(y)) => Some(Ev::B(if and { x && y } else { x || y })),
                    _ => None,
                }
            }
            N::FCmp(k, a, b) => match (self.eval(a, env, memo)?, self.eval(b, env, memo)?) {
                (Ev::F(x), Ev::F(y)) => Some(Ev::B(match k {
                    FC::Lt => x < y,
                    FC::Le => x <= y,
                    FC::Eq => x == y,
                })),
                _ => None,
            },
            N::F(b) => Some(Ev::F(f32::from_bits(b))),
            N::IToF(a) => i(a).map(|x| Ev::F(x as f32)),
            N::FOp(k, a) => {
                let mut v = vec![];
                for x in a.iter() {
                    match self.eval(*x, env, memo)? {
                        Ev::F(f) => v.push(f),
                        _ => return None,
                    }
                }
                Some(Ev::F(match k {
                    FK::Add => v[0] + v[1],
                    FK::Sub => v[0] - v[1],
                    FK::Mul => v[0] * v[1],
                    FK::Div => v[0] / v[1],
                    FK::Neg => -v[0],
                    FK::Fma => v[0].mul_add(v[1], v[2]),
                    FK::Min => v[0].min(v[1]),
                    FK::Max => v[0].max(v[1]),
                    FK::Floor => v[0].floor(),
                    FK::Ceil => v[0].ceil(),
                    FK::TruncF => v[0].trunc(),
                    FK::Round => v[0].round(),
                    FK::RoundEven => v[0].round_ties_even(),
                    FK::Abs => v[0].abs(),
                    _ => return None,
                }))
            }
            N::Cvt { f, rnd, lo, hi, indef } => match self.eval(f, env, memo)? {
                Ev::F(x) => {
                    let y = match rnd {
                        Rnd::Trunc => x.trunc(),
                        Rnd::Near => x.round_ties_even(),
                    } as f64 as i128;
                    Some(Ev::I(if y < lo || y > hi {
                        if indef {
                            i32::MIN as i128
                        } else {
                            y.clamp(lo, hi)
                        }
                    } else {
                        y
                    }))
                }
                _ => None,
            },
            _ => None,
        };
        memo.insert(t, r);
        r
    }
    /// is every code 0..=max of the sample reproduced exactly? (finite domain; None: not understood)
    fn identity_exact(&mut self, val: T, code: T, max: i128) -> Result<(), Option<(i128, i128)>> {
        if val == code {
            return Ok(());
        }
        let mut bytes: Vec<(T, u32)> = vec![];
        match self.an.tm.n(code).clone() {
            N::Byte { .. } => bytes.push((code, 0)),
            N::Poly(p) => {
                for (m, c) in p.iter() {
                    let sh = if *c == 1 { 0 } else { 8 };
                    bytes.push((m[0], sh));
                }
            }
            _ => return Err(None),
        }
        for c in 0..=max {
            let env: FxHashMap<T, i128> = bytes.iter().map(|(t, s)| (*t, (c >> s) & 255)).collect();
            match self.eval(val, &env, &mut Default::default()) {
                Some(Ev::I(x)) if x == c => {}
                Some(Ev::I(x)) => return Err(Some((c, x))),
                _ => return Err(None),
            }
        }
        Ok(())
    }

    fn expand(&mut self, entries: &[Rc<Entry>], st: &State, rects: &mut Vec<Rect>) {
        let unit = self.ex.dst.lay.bytes;
        // 16-bit samples written as two bytes
        let mut halves: FxHashMap<(Obj, T), T> = Default::default();
        if unit == 2 {
            for e in entries {
                if let Entry::Store { obj, off, size: 1, val, .. } = &**e {
                    halves.insert((*obj, *off), *val);
                }
            }
        }
        let mut mine = vec![];
        for e in entries {
            match &**e {
                Entry::Store { obj, off, size, val, site } => {
                    let Some(pl) = self.plane_of(*obj) else {
                        self.sink.bad(Class::Padding, format!("{}:foreign", short_fn(self.an, site.func)), format!("store to memory that is not a destination plane at {}:{}", file_of(self.an, site.file), site.line));
                        continue;
                    };
                    let stride = st.params[self.an.imgs[self.dstimg].planes[pl].1];
                    if *size < unit {
                        let o1 = self.an.tm.addc(*off, 1);
                        let om = self.an.tm.addc(*off, -1);
                        if let Some(hi) = halves.get(&(*obj, o1)).copied() {
                            let h = self.an.tm.mulc(hi, 256);
                            let v = self.an.tm.add(*val, h);
                            self.store(st, *obj, pl, stride, *off, 2, v, site, &mut mine);
                        } else if !halves.contains_key(&(*obj, om)) {
                            self.sink.bad(Class::Undecided, format!("{}:half sample", short_fn(self.an, site.func)), format!("half a sample is stored at {}:{}", file_of(self.an, site.file), site.line));
                        }
                        continue;
                    }
                    self.store(st, *obj, pl, stride, *off, *size, *val, site, &mut mine);
                }
                Entry::Copy { obj, off, len, sobj, soff, site } => self.copy(st, *obj, *off, *len, *sobj, *soff, site, &mut mine),
                Entry::Fill { obj, off, len, val, site } => {
                    let n = self.an.tm.as_int(*len);
                    let Some(pl) = self.plane_of(*obj) else { continue };
                    let stride = st.params[self.an.imgs[self.dstimg].planes[pl].1];
                    match n {
                        Some(n) if n <= 256 => {
                            for i in 0..n / unit as i128 {
                                let o = self.an.tm.addc(*off, i * unit as i128);
                                let v = if unit == 2 { self.an.tm.mulc(*val, 257) } else { *val };
                                self.store(st, *obj, pl, stride, o, unit, v, site, &mut mine);
                            }
                        }
                        _ => self.sink.bad(Class::Undecided, format!("{}:fill", short_fn(self.an, site.func)), "bulk fill of a destination plane".into()),
                    }
                }
                Entry::Loop { k, count, body } => {
                    let mut s2 = st.clone();
                    let g = self.an.tm.ge0(*k);
                    self.an.assume(&mut s2, g);
                    let d = self.an.tm.sub(*count, *k);
                    let d = self.an.tm.addc(d, -1);
                    let g = self.an.tm.ge0(d);
                    self.an.assume(&mut s2, g);
                    let mut inner = vec![];
                    self.expand(body, &s2, &mut inner);
                    self.merge(&s2, &mut inner);
                    for r in inner {
                        if let Some(r) = self.lift(st, &s2, r, *k, *count) {
                            mine.push(r);
                        }
                    }
                }
                Entry::Task { body, .. } => {
                    let mut inner = vec![];
                    self.expand(body, st, &mut inner);
                    self.merge(st, &mut inner);
                    mine.extend(inner);
                }
                Entry::Ext { name, site, .. } => {
                    self.sink.bad(Class::Undecided, format!("{}:external {name}", short_fn(self.an, site.func)), format!("external component {name} writes the destination"));
                }
            }
        }
        self.merge(st, &mut mine);
        rects.extend(mine);
    }
    #[allow(clippy::too_many_arguments)]
    fn store(&mut self, st: &State, obj: Obj, pl: usize, stride: T, off: T, size: u64, val: T, site: &Site, out: &mut Vec<Rect>) {
        let unit = self.ex.dst.lay.bytes;
        let Some((row, col)) = Self::split(self.an, off, stride) else {
            self.sink.bad(Class::Undecided, format!("{}:offset", short_fn(self.an, site.func)), format!("offset {} is not row * stride + column at {}:{}", self.an.tm.show(off), file_of(self.an, site.file), site.line));
            return;
        };
        let z = self.an.tm.int(0);
        let one = self.an.tm.int(1);
        let len = self.an.tm.int(size as i128);
        out.push(Rect { obj, r: Iv { lo: row, len: one, step: z, n: one }, c: Iv { lo: col, len, step: z, n: one }, site: site.clone() });
        let cell = Cell { off: 0, size, v: val };
        for i in 0..size / unit {
            let v = part(&mut self.an.tm, &cell, i * unit, unit);
            let v = to_uint(&mut self.an.tm, v, unit);
            let c = self.an.tm.addc(col, (i * unit) as i128);
            self.leaf(st, pl, row, c, v, site);
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn copy(&mut self, st: &State, obj: Obj, off: T, len: T, sobj: Obj, soff: T, site: &Site, out: &mut Vec<Rect>) {
        let place = short_fn(self.an, site.func);
        let Some(pl) = self.plane_of(obj) else { return };
        let stride = st.params[self.an.imgs[self.dstimg].planes[pl].1];
        let spl = self.an.imgs[self.srcimg].planes.iter().position(|p| p.0 == sobj);
        let Some((row, col)) = Self::split(self.an, off, stride) else {
            self.sink.bad(Class::Undecided, format!("{place}:offset"), format!("offset {} is not row * stride + column", self.an.tm.show(off)));
            return;
        };
        let z = self.an.tm.int(0);
        let one = self.an.tm.int(1);
        // whole rows of a plane without padding
        let mut whole = false;
        if col == z && self.an.tm.as_int(len).is_none() {
            if let Some((n, r)) = Self::split(self.an, len, stride) {
                let rb = self.limits(st, pl).1;
                if r == z && n != one && self.an.prove_ge(st, stride, rb) && self.an.prove_ge(st, rb, stride) {
                    whole = true;
                    out.push(Rect { obj, r: Iv { lo: row, len: n, step: z, n: one }, c: Iv { lo: z, len: rb, step: z, n: one }, site: site.clone() });
                    if spl == Some(pl) {
                        let ss = st.params[self.an.imgs[self.srcimg].planes[pl].1];
                        whole = self.an.prove_ge(st, ss, stride) && self.an.prove_ge(st, stride, ss);
                        if !whole {
                            let place = format!("{place}:rows");
                            self.sink.bad(Class::Identity, place.clone(), "rows of a source plane with another stride are copied at once".into());
                            self.sink.bad(Class::Source, place, "rows of a source plane with another stride are copied at once".into());
                            return;
                        }
                    }
                }
            }
        }
        if !whole {
            out.push(Rect { obj, r: Iv { lo: row, len: one, step: z, n: one }, c: Iv { lo: col, len, step: z, n: one }, site: site.clone() });
        }
        let ok = self.same && spl == Some(pl) && {
            let ss = st.params[self.an.imgs[self.srcimg].planes[pl].1];
            match Self::split(self.an, soff, ss) {
                Some((r2, c2)) => r2 == row && c2 == col,
                None => false,
            }
        };
        let sh = |s: &Self, t: T| s.an.tm.show(t);
        let (a, b) = (sh(self, off), sh(self, soff));
        self.sink.check(ok, Class::Identity, || (format!("{place}:copy"), format!("bytes at {a} of plane {pl} are copied from {b} of source plane {spl:?}")));
        self.sink.check(ok, Class::Source, || (format!("{place}:copy"), format!("bytes at {a} of plane {pl} are copied from {b} of source plane {spl:?}")));
    }

    /// union over the iterations of a loop
    fn lift(&mut self, outer: &State, inner: &State, r: Rect, k: T, count: T) -> Option<Rect> {
        let tm = &self.an.tm;
        let dep = |i: &Iv| tm.has(i.lo, k) || tm.has(i.len, k) || tm.has(i.step, k) || tm.has(i.n, k);
        let (dr, dc) = (dep(&r.r), dep(&r.c));
        if !dr && !dc {
            let c1 = self.an.tm.addc(count, -1);
            if self.an.prove(outer, c1) {
                return Some(r);
            }
            // cannot count on it being executed, but it must still stay inside
            self.inside(outer, &r);
            return None;
        }
        if dr && dc {
            self.inside(inner, &r);
            self.sink.bad(Class::Undecided, format!("{}:diagonal", short_fn(self.an, r.site.func)), "rows and columns advance together".into());
            return None;
        }
        let iv = if dr { r.r } else { r.c };
        match self.lift_iv(outer, iv, k, count) {
            Some(n) => Some(if dr { Rect { r: n, ..r } } else { Rect { c: n, ..r } }),
            None => {
                self.inside(inner, &r);
                None
            }
        }
    }
    fn lift_iv(&mut self, outer: &State, iv: Iv, k: T, count: T) -> Option<Iv> {
        let z = self.an.tm.int(0);
        let one = self.an.tm.int(1);
        if iv.step != z || self.an.tm.has(iv.len, k) {
            return None;
        }
        let k1 = self.an.tm.addc(k, 1);
        let l0 = self.an.tm.rewrite(iv.lo, k, z, &mut Default::default());
        let l1 = self.an.tm.rewrite(iv.lo, k, k1, &mut Default::default());
        let step = self.an.tm.sub(l1, iv.lo);
        if self.an.tm.has(step, k) {
            return None;
        }
        if step == iv.len {
            let n = self.an.tm.mul(step, count);
            return Some(Iv { lo: l0, len: n, step: z, n: one });
        }
        let neg = self.an.tm.neg(step);
        if neg == iv.len {
            // descending
            let n = self.an.tm.mul(neg, count);
            let c1 = self.an.tm.addc(count, -1);
            let back = self.an.tm.mul(neg, c1);
            let lo = self.an.tm.sub(l0, back);
            return Some(Iv { lo, len: n, step: z, n: one });
        }
        let d = self.an.tm.sub(iv.len, step);
        let c1 = self.an.tm.addc(count, -1);
        if self.an.prove(outer, d) && self.an.prove(outer, step) && self.an.prove(outer, c1) {
            // overlapping
            let m = self.an.tm.mul(step, c1);
            let n = self.an.tm.add(m, iv.len);
            return Some(Iv { lo: l0, len: n, step: z, n: one });
        }
        Some(Iv { lo: l0, len: iv.len, step, n: count })
    }
    /// merge rectangles that tile a larger one
    pub fn merge(&mut self, st: &State, v: &mut Vec<Rect>) {
        loop {
            let before = v.len();
            self.merge_dir(v, true);
            self.merge_dir(v, false);
            if v.len() == before {
                break;
            }
        }
        if v.len() > 1 && v.len() <= 48 {
            loop {
                let before = v.len();
                self.merge_prove(st, v);
                if v.len() == before {
                    break;
                }
                self.merge_dir(v, true);
                self.merge_dir(v, false);
            }
        }
    }
    fn merge_dir(&mut self, v: &mut Vec<Rect>, cols: bool) {
        let z = self.an.tm.int(0);
        let one = self.an.tm.int(1);
        let mut groups: FxHashMap<(Obj, Iv, T, T), Vec<Rect>> = Default::default();
        let mut order = vec![];
        for r in v.drain(..) {
            let (m, o) = if cols { (r.c, r.r) } else { (r.r, r.c) };
            let key = (r.obj, o, m.step, m.n);
            let e = groups.entry(key).or_default();
            if e.is_empty() {
                order.push(key);
            }
            if !e.iter().any(|x| x.r == r.r && x.c == r.c) {
                e.push(r);
            }
        }
        for key in order {
            let mut g = groups.remove(&key).unwrap();
            let get = |r: &Rect| if cols { r.c } else { r.r };
            loop {
                let mut starts: FxHashMap<T, usize> = Default::default();
                for (i, r) in g.iter().enumerate() {
                    starts.insert(get(r).lo, i);
                }
                // successor of each rectangle
                let succ: Vec<Option<usize>> = (0..g.len())
                    .map(|i| {
                        let iv = get(&g[i]);
                        let end = self.an.tm.add(iv.lo, iv.len);
                        starts.get(&end).copied().filter(|j| *j != i)
                    })
                    .collect();
                let mut has_pred = vec![false; g.len()];
                for s in succ.iter().flatten() {
                    has_pred[*s] = true;
                }
                let mut used = vec![false; g.len()];
                let mut out = vec![];
                for i in 0..g.len() {
                    if has_pred[i] || used[i] {
                        continue;
                    }
                    let mut r = g[i].clone();
                    used[i] = true;
                    let mut j = i;
                    while let Some(n) = succ[j] {
                        if used[n] {
                            break;
                        }
                        used[n] = true;
                        let add = get(&g[n]).len;
                        let iv = if cols { &mut r.c } else { &mut r.r };
                        iv.len = self.an.tm.add(iv.len, add);
                        j = n;
                    }
                    out.push(r);
                }
                for i in 0..g.len() {
                    if !used[i] {
                        out.push(g[i].clone());
                    }
                }
                // a strided family whose pieces fill the stride is an interval
                for r in out.iter_mut() {
                    let iv = if cols { &mut r.c } else { &mut r.r };
                    if iv.step != z && iv.len == iv.step {
                        iv.len = self.an.tm.mul(iv.step, iv.n);
                        iv.step = z;
                        iv.n = one;
                    }
                }
                let done = out.len() == g.len();
                g = out;
                if done {
                    break;
                }
            }
            v.extend(g);
        }
    }
    fn merge_prove(&mut self, st: &State, v: &mut Vec<Rect>) {
        let z = self.an.tm.int(0);
        for i in 0..v.len() {
            for j in 0..v.len() {
                if i == j || v[i].obj != v[j].obj {
                    continue;
                }
                for cols in [true, false] {
                    let (a, b, oa, ob) = if cols { (v[i].c, v[j].c, v[i].r, v[j].r) } else { (v[i].r, v[j].r, v[i].c, v[j].c) };
                    if a.step != z || b.step != z || oa != ob {
                        continue;
                    }
                    // b starts inside or right after a
                    let ea = self.an.tm.add(a.lo, a.len);
                    let eb = self.an.tm.add(b.lo, b.len);
                    let d1 = self.an.tm.sub(b.lo, a.lo);
                    let d2 = self.an.tm.sub(ea, b.lo);
                    if !(self.an.prove(st, d1) && self.an.prove(st, d2)) {
                        continue;
                    }
                    let d3 = self.an.tm.sub(eb, ea);
                    let n3 = self.an.tm.neg(d3);
                    let end = if self.an.prove(st, d3) {
                        eb
                    } else if self.an.prove(st, n3) {
                        ea
                    } else {
                        continue;
                    };
                    let len = self.an.tm.sub(end, a.lo);
                    if cols {
                        v[i].c.len = len;
                    } else {
                        v[i].r.len = len;
                    }
                    v.remove(j);
                    return;
                }
            }
        }
    }
    fn iv_inside(&mut self, st: &State, iv: &Iv, lim: T) -> bool {
        let z = self.an.tm.int(0);
        if !self.an.prove(st, iv.lo) {
            return false;
        }
        let mut end = self.an.tm.add(iv.lo, iv.len);
        if iv.step != z {
            let n1 = self.an.tm.addc(iv.n, -1);
            let m = self.an.tm.mul(iv.step, n1);
            end = self.an.tm.add(end, m);
        }
        let d = self.an.tm.sub(lim, end);
        self.an.prove(st, d)
    }
    fn limits(&mut self, st: &State, pl: usize) -> (T, T) {
        let img = self.an.imgs[self.dstimg].clone();
        let (w, h) = (st.params[img.w], st.params[img.h]);
        let p = self.ex.dst.lay.planes[pl].clone();
        let rows = self.an.tm.divc(h, p.yd);
        let g = self.an.tm.divc(w, p.xd);
        let rb = self.an.tm.mulc(g, self.ex.dst.lay.gbytes(pl));
        (rows, rb)
    }
    fn inside(&mut self, st: &State, r: &Rect) {
        let Some(pl) = self.plane_of(r.obj) else { return };
        let (rows, rb) = self.limits(st, pl);
        let ok = self.iv_inside(st, &r.r, rows) && self.iv_inside(st, &r.c, rb);
        let t = self.show_rect(r);
        let place = format!("{}:{}", file_of(self.an, r.site.file), short_fn(self.an, r.site.func));
        let loc = format!("{}:{}", file_of(self.an, r.site.file), r.site.line);
        self.sink.check(ok, Class::Padding, || (place, format!("plane {pl}: {t} is not within the picture area ({loc})")));
    }
    /// no byte is written by both of two tasks
    fn disjoint_tasks(&mut self, st: &State, a: &[Rect], b: &[Rect]) {
        let z = self.an.tm.int(0);
        for x in a {
            for y in b {
                if x.obj != y.obj {
                    continue;
                }
                let mut ok = false;
                for (p, q) in [(&x.r, &y.r), (&y.r, &x.r), (&x.c, &y.c), (&y.c, &x.c)] {
                    let mut end = self.an.tm.add(p.lo, p.len);
                    if p.step != z {
                        let n1 = self.an.tm.addc(p.n, -1);
                        let m = self.an.tm.mul(p.step, n1);
                        end = self.an.tm.add(end, m);
                    }
                    let d = self.an.tm.sub(q.lo, end);
                    if self.an.prove(st, d) {
                        ok = true;
                        break;
                    }
                }
                let place = format!("{}:{}", file_of(self.an, x.site.file), short_fn(self.an, x.site.func));
                let t = format!("{} / {}", self.show_rect(x), self.show_rect(y));
                self.sink.check(ok, Class::Tasks, || (place, format!("two tasks write areas that are not shown to be disjoint: {t}")));
            }
        }
    }
    fn show_rect(&self, r: &Rect) -> String {
        let s = |i: &Iv| {
            let b = format!("{} +{}", self.an.tm.show(i.lo), self.an.tm.show(i.len));
            if self.an.tm.as_int(i.step) == Some(0) {
                b
            } else {
                format!("{b} every {} x{}", self.an.tm.show(i.step), self.an.tm.show(i.n))
            }
        };
        format!("rows [{}] columns [{}]", s(&r.r), s(&r.c))
    }

    /// all obligations of a successful exit
    pub fn ok_exit(&mut self, st: &State) {
        let log = st.log.clone();
        let mut rects = vec![];
        // tasks run side by side: what each of them writes is kept apart
        let mut tasks: Vec<Vec<Rect>> = vec![];
        for e in log.iter() {
            let task = matches!(**e, Entry::Task { .. });
            let mut mine = vec![];
            if task {
                self.expand(std::slice::from_ref(e), st, &mut mine);
                tasks.push(mine.clone());
                rects.extend(mine);
            }
        }
        let rest: Vec<Rc<Entry>> = log.iter().filter(|e| !matches!(***e, Entry::Task { .. })).cloned().collect();
        self.expand(&rest, st, &mut rects);
        for i in 0..tasks.len() {
            for j in i + 1..tasks.len() {
                self.disjoint_tasks(st, &tasks[i], &tasks[j]);
            }
        }
        self.merge(st, &mut rects);
        for r in rects.clone() {
            self.inside(st, &r);
        }
        let z = self.an.tm.int(0);
        for pl in 0..self.ex.dst.lay.planes.len() {
            let (rows, rb) = self.limits(st, pl);
            let obj = self.an.imgs[self.dstimg].planes[pl].0;
            // nothing to write
            let (nr, nc) = (self.an.tm.neg(rows), self.an.tm.neg(rb));
            if self.an.prove(st, nr) || self.an.prove(st, nc) {
                self.sink.ok(Class::Coverage);
                continue;
            }
            let mut ok = false;
            for r in rects.iter().filter(|r| r.obj == obj) {
                if r.r.step != z || r.c.step != z {
                    continue;
                }
                let a = self.an.tm.neg(r.r.lo);
                let b = self.an.tm.neg(r.c.lo);
                let e1 = self.an.tm.add(r.r.lo, r.r.len);
                let e2 = self.an.tm.add(r.c.lo, r.c.len);
                let d1 = self.an.tm.sub(e1, rows);
                let d2 = self.an.tm.sub(e2, rb);
                if self.an.prove(st, a) && self.an.prove(st, b) && self.an.prove(st, d1) && self.an.prove(st, d2) {
                    ok = true;
                    break;
                }
            }
            let shown: Vec<String> = rects.iter().filter(|r| r.obj == obj).map(|r| self.show_rect(r)).collect();
            let (a, b) = (self.an.tm.show(rows), self.an.tm.show(rb));
            let site = rects.iter().find(|r| r.obj == obj).map(|r| file_of(self.an, r.site.file)).unwrap_or_default();
            self.sink.check(ok, Class::Coverage, || {
                (format!("{site}:plane{pl}"), format!("plane {pl}: not every sample of rows 0..{a} columns 0..{b} is shown to be written; written: {}", shown.join("; ")))
            });
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Validity {
    /// judged from the symbolic sizes
    Symbolic,
    /// the arguments are invalid whatever the sizes
    Never,
}

/// every obligation of a conversion run
/// minima and maxima in what was written that the facts at the exit decide
pub fn resolve_minmax(an: &mut An, s: &mut State) {
    let mut tried: FxHashSet<T> = Default::default();
    for _ in 0..256 {
        let mut roots: FxHashSet<T> = Default::default();
        for e in s.log.iter() {
            rewrite_entry(e, &mut |t| {
                roots.insert(t);
                t
            });
        }
        let mut seen: FxHashSet<T> = Default::default();
        let mut todo: Vec<T> = roots.into_iter().collect();
        let mut found: Vec<T> = vec![];
        while let Some(t) = todo.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let N::IOp { k: IK::Min | IK::Max, a, .. } = an.tm.n(t) {
                if a.len() == 2 && !tried.contains(&t) {
                    found.push(t);
                }
            }
            todo.extend(an.tm.children(t));
        }
        // operands have smaller numbers
        found.sort_unstable();
        let mut hit = None;
        for t in found {
            tried.insert(t);
            if !an.tm.objs_of(t).is_empty() {
                continue;
            }
            let N::IOp { k, a, .. } = an.tm.n(t).clone() else { continue };
            let (lo, hi) = if k == IK::Min { (a[0], a[1]) } else { (a[1], a[0]) };
            if an.prove_ge(s, hi, lo) {
                hit = Some((t, a[0]));
            } else if an.prove_ge(s, lo, hi) {
                hit = Some((t, a[1]));
            }
            if hit.is_some() {
                break;
            }
        }
        let Some((t, r)) = hit else { return };
        let An { tm, .. } = an;
        s.subst(tm, t, r);
    }
}

pub fn check_conv(run: &mut Run, c: &Conv, ctx: String, validity: Validity, same_allowed: bool) -> Sink {
    let mut sink = Sink::new(ctx);
    common_events(&mut run.an, &mut sink);
    let same = same_allowed && c.src == c.dst && c.sc == c.dc;
    let outs = run.outs.clone();
    let like = State::new();
    let like = outs.first().cloned().unwrap_or(like);
    // panics
    let evs: Vec<Event> = run.an.events.iter().filter(|e| e.kind == EvKind::Panic).cloned().collect();
    for e in &evs {
        let st = ev_state(&run.an, e, &like);
        let mut ge = nowrap_terms(&mut run.an, &st, 0, c.src);
        ge.extend(nowrap_terms(&mut run.an, &st, 1, c.dst));
        let f = feasible(&mut run.an, &st, &ge, &[]);
        if f || e.log_len > 0 {
            let (k, l) = where_(&run.an, &e.stack);
            let p = path_(&run.an, &e.stack);
            sink.bad(Class::Panic, format!("{k}:{}", ev_kind(&e.msg)), format!("panic \"{}\" can be reached at {l} via {p}", e.msg.chars().take(200).collect::<String>()));
        } else {
            sink.ok(Class::Panic);
        }
    }
    let a = Addr { obj: run.res, off: run.an.tm.int(0) };
    let mut nok = 0;
    if outs.is_empty() {
        sink.bad(Class::Undecided, "no outcome".into(), "no outcome was derived".into());
    }
    for s in &outs {
        let mut s = s.clone();
        let d = run.an.discriminant(&mut s, a, run.rty).ok().and_then(|d| run.an.tm.as_int(d));
        match d {
            None => sink.bad(Class::Undecided, "outcome".into(), "Ok or Err is not determined".into()),
            Some(0) => {
                nok += 1;
                if validity == Validity::Never {
                    sink.bad(Class::Reject, "accepted".into(), "arguments that can never be valid are accepted".into());
                    continue;
                }
                // accepted implies valid
                let (w, h, w2, h2) = (s.params[0], s.params[1], s.params[2], s.params[3]);
                let dw = run.an.tm.sub(w, w2);
                let dh = run.an.tm.sub(h, h2);
                let mut goals = vec![(dw, "widths differ"), (dh, "heights differ")];
                for (x, t) in [(w, "odd width"), (h, "odd height")] {
                    let two = run.an.tm.int(2);
                    let m = run.an.tm.modulo(x, two);
                    goals.push((m, t));
                }
                for (g, t) in goals {
                    let n = run.an.tm.neg(g);
                    let ok = run.an.prove(&s, g) && run.an.prove(&s, n);
                    sink.check(ok, Class::Reject, || (t.to_string(), format!("accepted although {t}")));
                }
                for (i, f) in [(0, c.src), (1, c.dst)] {
                    for (n, g) in valid_terms(&mut run.an, &s, i, f).into_iter().enumerate() {
                        let ok = run.an.prove(&s, g);
                        sink.check(ok, Class::Reject, || (format!("image{i}:{}", if n % 2 == 0 { "stride" } else { "size" }), format!("accepted although plane {} of image {i} may have an invalid {}", n / 2, if n % 2 == 0 { "stride" } else { "size" })));
                    }
                }
                let src = surface(&run.an, &s, 0, c.src, c.sc);
                let dst = surface(&run.an, &s, 1, c.dst, c.dc);
                let mut ck = Checker { an: &mut run.an, rl: Reals::new(), ex: Expect::new(src, dst), same, sink, vmemo: Default::default(), dstimg: 1, srcimg: 0, deps: Default::default() };
                resolve_minmax(ck.an, &mut s);
                ck.ok_exit(&s);
                sink = ck.sink;
            }
            Some(_) => {
                let empty = s.log.is_empty();
                sink.check(empty, Class::Reject, || ("written".into(), "the destination is written before the arguments are rejected".into()));
                if validity == Validity::Never {
                    sink.ok(Class::Reject);
                    continue;
                }
                let mut ge = valid_terms(&mut run.an, &s, 0, c.src);
                ge.extend(valid_terms(&mut run.an, &s, 1, c.dst));
                let (w, h, w2, h2) = (s.params[0], s.params[1], s.params[2], s.params[3]);
                let two = run.an.tm.int(2);
                let eq = vec![run.an.tm.sub(w, w2), run.an.tm.sub(h, h2), run.an.tm.modulo(w, two), run.an.tm.modulo(h, two)];
                let f = feasible(&mut run.an, &s, &ge, &eq);
                let cond: Vec<String> = s.conds.iter().map(|c| run.an.tm.show(*c)).collect();
                sink.check(!f, Class::Reject, || ("rejected".into(), format!("valid arguments may be rejected (when {})", cond.join(", "))));
            }
        }
    }
    if nok == 0 && validity == Validity::Symbolic {
        sink.bad(Class::Reject, "never accepted".into(), "no arguments are accepted".into());
    }
    sink
}
