//! Abstract interpreter over the extracted program.
use crate::cfg::{self, Cfg};
use crate::ir::*;
use crate::lp::Prover;
use crate::state::*;
use crate::term::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    S(T, u64),
    A(Cells, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum EvKind {
    Panic,
    Oob,
    Feature,
    Unsupported,
    /// reading memory that holds no defined value
    Uninit,
    Unreachable,
    /// a byte of a destination image is read
    DstRead,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: EvKind,
    pub msg: String,
    /// (function, file, line) from outermost to innermost
    pub stack: Vec<(u32, u32, u32)>,
    pub facts: Vec<T>,
    pub conds: Vec<T>,
    pub log_len: usize,
    pub params: Vec<T>,
}

#[derive(Clone, Copy, Debug)]
pub struct Addr {
    pub obj: Obj,
    pub off: T,
}

enum Next {
    Goto(Bb),
    Ret,
}

#[derive(Default)]
struct Out {
    exits: Vec<(Bb, State)>,
    backs: Vec<State>,
    rets: Vec<State>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub calls: u64,
    pub accesses: u64,
    pub asserts: u64,
    pub loops: u64,
    pub funcs: FxHashSet<u32>,
}

pub struct An<'p> {
    pub p: &'p Program,
    pub tm: Terms,
    pub pv: Prover,
    pub next_obj: Obj,
    pub events: Vec<Event>,
    pub stats: Stats,
    pub features: FxHashSet<String>,
    pub globals: FxHashMap<AllocId, Obj>,
    pub gobjs: FxHashMap<Obj, Rc<ObjK>>,
    cfgs: FxHashMap<u32, Rc<Cfg>>,
    empties: FxHashMap<u32, Rc<Vec<Rc<ObjK>>>>,
    drop_matters: FxHashMap<u32, bool>,
    decisions: u64,
    pub depth: u32,
    pub imgs: Vec<crate::model::Img>,
    pub step_limit: u64,
    pub aborted: bool,
    norm: FxHashSet<(T, u16, bool)>,
    /// nesting of accelerated loops
    acc_depth: usize,
    /// overflow-check condition -> (wrapped result, exact result, bits, signed)
    wraps: FxHashMap<T, Vec<(T, T, u16, bool)>>,
    pub hooks: Vec<crate::model::Hook>,
    pub detected: FxHashSet<String>,
    pub summarised: u64,
    pub ntasks: u64,
    pub par_runs: Vec<usize>,
    pub no_summaries: bool,
    pub threads: i128,
    /// partitioned loop iterations so far
    pub parts: u32,
    /// calls of the first function are analysed as calls of the second
    pub redirect: Option<(u32, u32)>,
    pub trace: bool,
}

fn common(a: &[(T, T)], b: &[(T, T)]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

pub const NOOBJ: Obj = 0;

pub fn kind_of(p: &Program, ty: TyId) -> Kind {
    match &p.tys[ty as usize].kind {
        TyKind::Bool => Kind::Bool,
        TyKind::Char => Kind::Int(32, false),
        TyKind::Int { bits, signed } => Kind::Int(*bits, *signed),
        TyKind::Float(b) => Kind::Float(*b),
        TyKind::Ptr { meta: Meta::None, .. } | TyKind::FnPtr => Kind::Ptr,
        _ => Kind::Raw,
    }
}

impl<'p> An<'p> {
    pub fn new(p: &'p Program) -> Self {
        An {
            p,
            tm: Terms::new(),
            pv: Prover::new(),
            next_obj: 1,
            events: vec![],
            stats: Default::default(),
            features: Default::default(),
            globals: Default::default(),
            gobjs: Default::default(),
            cfgs: Default::default(),
            empties: Default::default(),
            drop_matters: Default::default(),
            decisions: 0,
            depth: 0,
            imgs: vec![],
            step_limit: 30_000_000,
            aborted: false,
            norm: Default::default(),
            acc_depth: 0,
            wraps: Default::default(),
            hooks: crate::model::hooks(p),
            detected: Default::default(),
            summarised: 0,
            ntasks: 0,
            par_runs: vec![],
            no_summaries: false,
            threads: 1,
            parts: 0,
            redirect: None,
            trace: false,
        }
    }

    pub fn size_of(&self, ty: TyId) -> u64 {
        self.p.tys[ty as usize].size.unwrap_or(0)
    }
    pub fn cfg(&mut self, f: u32) -> Rc<Cfg> {
        if let Some(c) = self.cfgs.get(&f) {
            return c.clone();
        }
        let c = Rc::new(cfg::build(&self.p.funcs[f as usize]));
        self.cfgs.insert(f, c.clone());
        c
    }
    fn empty_locals(&mut self, f: u32) -> Rc<Vec<Rc<ObjK>>> {
        if let Some(e) = self.empties.get(&f) {
            return e.clone();
        }
        let e: Vec<Rc<ObjK>> = self.p.funcs[f as usize].locals.iter().map(|l| Rc::new(ObjK::Mem { size: self.p.tys[l.ty as usize].size.unwrap_or(0), cells: vec![] })).collect();
        let e = Rc::new(e);
        self.empties.insert(f, e.clone());
        e
    }

    pub fn event(&mut self, st: &State, kind: EvKind, msg: String) {
        let stack = st.stack.iter().map(|f| (f.func, f.file, f.line)).collect();
        if self.trace {
            eprintln!("EVENT {kind:?} {msg} in {}", st.stack.last().map(|f| self.p.funcs[f.func as usize].name.clone()).unwrap_or_default());
        }
        self.events.push(Event { kind, msg, stack, facts: st.facts.clone(), conds: st.conds.clone(), log_len: st.log.len(), params: st.params.clone() });
    }
    pub fn site(&self, st: &State) -> Site {
        // innermost frame inside the crate under analysis
        let c = &self.p.crate_name;
        for f in st.stack.iter().rev() {
            if self.p.funcs[f.func as usize].krate == *c {
                return Site { func: f.func, file: f.file, line: f.line };
            }
        }
        st.stack.last().map(|f| Site { func: f.func, file: f.file, line: f.line }).unwrap_or(Site { func: 0, file: 0, line: 0 })
    }

    // ------------------------------------------------------------------ objects
    pub fn new_mem(&mut self, st: &mut State, size: u64) -> Obj {
        let o = self.next_obj;
        self.next_obj += 1;
        st.objs.insert(o, Rc::new(ObjK::Mem { size, cells: vec![] }));
        o
    }
    pub fn new_buf(&mut self, st: &mut State, len: T, kind: BufKind) -> Obj {
        let o = self.next_obj;
        self.next_obj += 1;
        st.objs.insert(o, Rc::new(ObjK::Buf { len, kind }));
        o
    }
    pub fn obj(&self, st: &State, o: Obj) -> Option<Rc<ObjK>> {
        st.objs.get(&o).or_else(|| self.gobjs.get(&o)).cloned()
    }
    pub fn global(&mut self, a: AllocId) -> T {
        let p = self.p;
        match &p.allocs[a as usize].kind {
            GAllocKind::Func(f) => self.tm.func(*f),
            GAllocKind::VTable { .. } => self.tm.vt(a),
            GAllocKind::Memory(c) | GAllocKind::Static { mem: Some(c), mutable: false } => {
                let o = match self.globals.get(&a) {
                    Some(o) => *o,
                    None => {
                        let o = self.next_obj;
                        self.next_obj += 1;
                        self.globals.insert(a, o);
                        let cells = self.const_cells(c);
                        self.gobjs.insert(o, Rc::new(ObjK::Mem { size: c.bytes.len() as u64, cells }));
                        o
                    }
                };
                let z = self.tm.int(0);
                self.tm.ptr(o, z)
            }
            _ => {
                let o = match self.globals.get(&a) {
                    Some(o) => *o,
                    None => {
                        let o = self.next_obj;
                        self.next_obj += 1;
                        self.globals.insert(a, o);
                        o
                    }
                };
                let z = self.tm.int(0);
                self.tm.ptr(o, z)
            }
        }
    }
    fn const_cells(&mut self, c: &Const) -> Cells {
        let mut out = vec![];
        let n = c.bytes.len() as u64;
        let mut i = 0;
        while i < n {
            if let Some((_, a)) = c.relocs.iter().find(|r| r.0 == i) {
                let mut add = 0u64;
                for k in 0..8 {
                    add |= (c.bytes[(i + k) as usize].unwrap_or(0) as u64) << (8 * k);
                }
                let g = self.global(*a);
                let v = self.ptr_add(g, add as i128);
                out.push(Cell { off: i, size: 8, v });
                i += 8;
                continue;
            }
            // natural 4 byte words, single bytes otherwise
            let word = i % 4 == 0 && i + 4 <= n && (0..4).all(|k| c.bytes[(i + k) as usize].is_some() && !c.relocs.iter().any(|r| r.0 == i + k));
            let len = if word { 4 } else { 1 };
            if c.bytes[i as usize].is_none() {
                i += 1;
                continue;
            }
            let mut v = 0i128;
            for k in 0..len {
                v |= (c.bytes[(i + k) as usize].unwrap() as i128) << (8 * k);
            }
            let v = self.tm.int(v);
            out.push(Cell { off: i, size: len, v });
            i += len;
        }
        out
    }
    pub fn ptr_add(&mut self, p: T, c: i128) -> T {
        if c == 0 {
            return p;
        }
        let c = self.tm.int(c);
        self.ptr_addt(p, c)
    }
    pub fn ptr_addt(&mut self, p: T, c: T) -> T {
        match *self.tm.n(p) {
            N::Ptr(o, off) => {
                let n = self.tm.add(off, c);
                self.tm.ptr(o, n)
            }
            _ if self.tm.is_intlike(p) => self.tm.add(p, c),
            _ => p,
        }
    }
    pub fn addr_of(&mut self, p: T) -> Addr {
        match *self.tm.n(p) {
            N::Ptr(o, off) => Addr { obj: o, off },
            _ => Addr { obj: NOOBJ, off: p },
        }
    }
    pub fn to_ptr(&mut self, a: Addr) -> T {
        if a.obj == NOOBJ {
            a.off
        } else {
            self.tm.ptr(a.obj, a.off)
        }
    }

    // ------------------------------------------------------------------ facts
    pub fn prove(&mut self, st: &State, p: T) -> bool {
        let (lo, hi) = self.tm.range(p);
        if lo >= 0 {
            return true;
        }
        if hi < 0 {
            return false;
        }
        self.pv.prove_ge0(&mut self.tm, &st.facts, p) || self.prove_cases(&st.facts, p, 2)
    }
    /// by cases over which argument a minimum or maximum in the goal is
    fn prove_cases(&mut self, facts: &[T], p: T, depth: u32) -> bool {
        if depth == 0 {
            return false;
        }
        let ats: Vec<T> = self.tm.children(p);
        let Some((m, k, x, y)) = ats.iter().find_map(|t| match self.tm.n(*t) {
            N::IOp { k: k @ (IK::Min | IK::Max), a, .. } if a.len() == 2 && !self.tm.is_data(*t) => Some((*t, *k, a[0], a[1])),
            _ => None,
        }) else {
            return false;
        };
        for (v, o) in [(x, y), (y, x)] {
            let mut memo = FxHashMap::default();
            let g = self.tm.rewrite(p, m, v, &mut memo);
            let mut fs: Vec<T> = facts.iter().map(|f| self.tm.rewrite(*f, m, v, &mut memo)).collect();
            fs.retain(|f| self.tm.range(*f).0 < 0);
            let d = if k == IK::Min { self.tm.sub(o, v) } else { self.tm.sub(v, o) };
            fs.push(d);
            if !self.pv.prove_ge0(&mut self.tm, &fs, g) && !self.prove_cases(&fs, g, depth - 1) {
                return false;
            }
        }
        true
    }
    /// as `prove`, by cases over every minimum and maximum the facts mention
    pub fn prove_deep(&mut self, facts: &[T], p: T, depth: u32) -> bool {
        if self.tm.range(p).0 >= 0 {
            return true;
        }
        if self.tm.is_data(p) {
            return false;
        }
        if self.tm.as_int(p).is_none() && self.pv.prove_ge0(&mut self.tm, facts, p) || self.pv.contradictory(&mut self.tm, facts) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        let Some((m, k, x, y)) = std::iter::once(&p).chain(facts.iter()).find_map(|f| {
            self.tm.children(*f).iter().find_map(|t| match self.tm.n(*t) {
                N::IOp { k: k @ (IK::Min | IK::Max), a, .. } if a.len() == 2 && !self.tm.is_data(*t) => Some((*t, *k, a[0], a[1])),
                _ => None,
            })
        }) else {
            return false;
        };
        for (v, o) in [(x, y), (y, x)] {
            let mut memo = FxHashMap::default();
            let g = self.tm.rewrite(p, m, v, &mut memo);
            let mut fs: Vec<T> = facts.iter().map(|f| self.tm.rewrite(*f, m, v, &mut memo)).collect();
            let d = if k == IK::Min { self.tm.sub(o, v) } else { self.tm.sub(v, o) };
            fs.push(d);
            fs.retain(|f| self.tm.range(*f).0 < 0);
            fs.sort_unstable();
            fs.dedup();
            if fs.iter().any(|f| self.tm.range(*f).1 < 0) {
                continue;
            }
            if !self.prove_deep(&fs, g, depth - 1) {
                return false;
            }
        }
        true
    }
    pub fn prove_ge(&mut self, st: &State, a: T, b: T) -> bool {
        let d = self.tm.sub(a, b);
        self.prove(st, d)
    }
    pub fn decide(&mut self, st: &State, c: T) -> Option<bool> {
        if let Some(v) = self.tm.as_int(c) {
            return Some(v != 0);
        }
        if st.conds.contains(&c) {
            return Some(true);
        }
        let nc = self.tm.not(c);
        if st.conds.contains(&nc) {
            return Some(false);
        }
        match self.tm.n(c).clone() {
            N::Ge(p) => {
                if self.tm.is_data(p) {
                    return None;
                }
                if self.prove(st, p) {
                    return Some(true);
                }
                let n = self.tm.neg(p);
                let n = self.tm.addc(n, -1);
                if self.prove(st, n) {
                    return Some(false);
                }
                None
            }
            N::Eq(p) => {
                if self.tm.is_data(p) {
                    return None;
                }
                let a = self.tm.addc(p, -1);
                if self.prove(st, a) {
                    return Some(false);
                }
                let n = self.tm.neg(p);
                let b = self.tm.addc(n, -1);
                if self.prove(st, b) {
                    return Some(false);
                }
                if self.prove(st, p) && self.prove(st, n) {
                    return Some(true);
                }
                None
            }
            N::Not(x) => self.decide(st, x).map(|b| !b),
            N::And(a, b) => match (self.decide(st, a), self.decide(st, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            N::Or(a, b) => match (self.decide(st, a), self.decide(st, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            N::Sel(c0, a, b) => match self.decide(st, c0) {
                Some(true) => self.decide(st, a),
                Some(false) => self.decide(st, b),
                None => None,
            },
            _ => None,
        }
    }
    fn add_fact(&mut self, st: &mut State, p: T) {
        if self.tm.range(p).0 >= 0 || self.tm.is_data(p) {
            return;
        }
        if !st.facts.contains(&p) {
            st.facts.push(p);
        }
    }
    /// add the condition to the path; false when it is contradictory
    pub fn assume(&mut self, st: &mut State, c: T) -> bool {
        if let Some(v) = self.tm.as_int(c) {
            return v != 0;
        }
        match self.decide(st, c) {
            Some(false) => return false,
            Some(true) if self.tm.is_data(c) => return true,
            _ => {}
        }
        match self.tm.n(c).clone() {
            N::Ge(p) if !self.tm.is_data(p) => {
                // p >= 0 together with p <= 0 is an equality
                let n = self.tm.neg(p);
                if self.prove(st, n) {
                    let e = self.tm.eq0(p);
                    return self.assume_eq(st, p, e);
                }
                st.conds.push(c);
                self.add_fact(st, p);
                self.add_split(st, p, 4);
                self.pin_min(st, p);
                if let Some(w) = self.wraps.get(&c).cloned() {
                    for (w, r, bits, signed) in w {
                        if self.fits(st, r, bits, signed) {
                            st.subst(&mut self.tm, w, r);
                        }
                    }
                }
                true
            }
            N::Eq(p) if !self.tm.is_data(p) => self.assume_eq(st, p, c),
            N::Not(x) => {
                st.conds.push(c);
                if let N::Eq(p) = *self.tm.n(x) {
                    if !self.tm.is_data(p) {
                        if self.prove(st, p) {
                            let q = self.tm.addc(p, -1);
                            let nq = self.tm.neg(q);
                            if self.prove(st, nq) {
                                let e = self.tm.eq0(q);
                                return self.assume_eq(st, q, e);
                            }
                            self.add_fact(st, q);
                                self.pin_min(st, q);
                        } else {
                            let n = self.tm.neg(p);
                            if self.prove(st, n) {
                                let q = self.tm.addc(n, -1);
                                let nq = self.tm.neg(q);
                                if self.prove(st, nq) {
                                    let e = self.tm.eq0(q);
                                    return self.assume_eq(st, q, e);
                                }
                                self.add_fact(st, q);
                                self.pin_min(st, q);
                            }
                        }
                    }
                }
                true
            }
            N::And(a, b) => self.assume(st, a) && self.assume(st, b),
            N::Or(a, b) => match (self.decide(st, a), self.decide(st, b)) {
                (Some(false), _) => self.assume(st, b),
                (_, Some(false)) => self.assume(st, a),
                _ => {
                    st.conds.push(c);
                    true
                }
            },
            _ => {
                st.conds.push(c);
                true
            }
        }
    }
    fn add_split(&mut self, st: &mut State, p: T, depth: u32) {
        if depth == 0 {
            return;
        }
        if let Some((m, x, y)) = self.both_args(p) {
            for v in [x, y] {
                let g = self.tm.rewrite(p, m, v, &mut FxHashMap::default());
                self.add_fact(st, g);
                self.add_split(st, g, depth - 1);
            }
        }
    }
    /// a minimum with positive (maximum with negative) coefficient in p: p >= 0 holds just when it does for both arguments
    fn both_args(&self, p: T) -> Option<(T, T, T)> {
        let v = self.tm.poly(p);
        v.iter().find_map(|(m, k)| match self.tm.n(m[0]) {
            N::IOp { k: IK::Min, a, .. } if m[1] == 0 && m[0] != 0 && *k > 0 && a.len() == 2 => Some((m[0], a[0], a[1])),
            N::IOp { k: IK::Max, a, .. } if m[1] == 0 && m[0] != 0 && *k < 0 && a.len() == 2 => Some((m[0], a[0], a[1])),
            _ => None,
        })
    }
    fn assume_eq(&mut self, st: &mut State, p: T, c: T) -> bool {
        if let Some(v) = self.tm.as_int(c) {
            return v != 0;
        }
        st.conds.push(c);
        let v = self.tm.poly(p);
        // a maximum at its least value (minimum at its greatest): so are both arguments
        let ms: Vec<_> = v.iter().filter(|x| x.0 != ONE).copied().collect();
        if let [(m, k)] = ms[..] {
            if m[1] == 0 && k.abs() == 1 {
                if let N::IOp { k: kk @ (IK::Max | IK::Min), a, .. } = self.tm.n(m[0]).clone() {
                    let at = -v.iter().find(|x| x.0 == ONE).map_or(0, |x| x.1) * k;
                    let all = a.iter().all(|x| if kk == IK::Max { self.tm.range(*x).0 >= at } else { self.tm.range(*x).1 <= at });
                    if all && a.len() == 2 {
                        for x in a.iter() {
                            let d = self.tm.addc(*x, -at);
                            let e = self.tm.eq0(d);
                            if !self.assume(st, e) {
                                return false;
                            }
                        }
                        return true;
                    }
                }
            }
        }
        // min(x, y) = y
        for (m, k) in &v {
            if m[1] != 0 || m[0] == 0 || k.abs() != 1 {
                continue;
            }
            let N::IOp { k: IK::Min, a, .. } = self.tm.n(m[0]).clone() else { continue };
            let [x, y] = a[..] else { continue };
            if self.tm.as_int(x).is_some() || self.tm.as_int(y).is_some() {
                continue;
            }
            let d = self.tm.mulc(p, *k);
            let d = self.tm.sub(m[0], d);
            for (x, y) in [(x, y), (y, x)] {
                if d == y {
                    let g = self.tm.sub(x, y);
                    self.add_fact(st, g);
                    st.subst(&mut self.tm, m[0], y);
                    return true;
                }
            }
        }
        // s - d*floor(s/d) = r : s is r modulo d
        for (m, k) in &v {
            if m[0] == 0 || m[1] != 0 {
                continue;
            }
            if let N::Sym(si) = *self.tm.n(m[0]) {
                if k.abs() != 1 {
                    continue;
                }
                for (m2, k2) in &v {
                    if m2[1] != 0 || m2[0] == 0 {
                        continue;
                    }
                    if let N::Div(a, d) = *self.tm.n(m2[0]) {
                        if let (true, Some(dc)) = (a == m[0], self.tm.as_int(d)) {
                            let rest: Vec<(Mono, i128)> = v.iter().filter(|x| x.0 != *m && x.0 != *m2).map(|x| (x.0, -x.1 * k)).collect();
                            let r = self.tm.mk_poly(rest);
                            if let (Some(rc), true) = (self.tm.as_int(r), *k2 == -k * dc) {
                                if (0..dc).contains(&rc) {
                                    let info = self.tm.syms[si as usize].clone();
                                    let q = self.tm.sym(&format!("{}/{}", info.name, dc), (info.lo - rc).div_euclid(dc).max(if info.lo >= 0 { 0 } else { i128::MIN }), (info.hi - rc).div_euclid(dc));
                                    let mut e = self.tm.mulc(q, dc);
                                    e = self.tm.addc(e, rc);
                                    st.subst(&mut self.tm, m[0], e);
                                    return true;
                                }
                            }
                        }
                    }
                }
            }
        }
        // eliminate the most recently created symbol with unit coefficient
        let mut best: Option<(T, i128)> = None;
        for (m, k) in &v {
            if m[0] != 0 && m[1] == 0 && k.abs() == 1 && matches!(self.tm.n(m[0]), N::Sym(_)) {
                let s = m[0];
                let used_elsewhere = v.iter().any(|x| x.0 != *m && x.0.iter().any(|a| *a != 0 && self.tm.has(*a, s)));
                if !used_elsewhere && best.map_or(true, |b| s > b.0) {
                    best = Some((s, *k));
                }
            }
        }
        if let Some((s, k)) = best {
            let rest: Vec<(Mono, i128)> = v.iter().filter(|x| x.0 != [s, 0, 0, 0]).map(|x| (x.0, -x.1 * k)).collect();
            let e = self.tm.mk_poly(rest);
            // keep what the range of the symbol says about the expression
            let (lo, hi) = self.tm.range(s);
            let a = self.tm.addc(e, -lo);
            self.add_fact(st, a);
            let b = self.tm.neg(e);
            let b = self.tm.addc(b, hi);
            self.add_fact(st, b);
            st.subst(&mut self.tm, s, e);
            return true;
        }
        self.add_fact(st, p);
        let n = self.tm.neg(p);
        self.add_fact(st, n);
        true
    }

    // ------------------------------------------------------------------ places and memory
    fn place(&mut self, st: &mut State, pl: &Place) -> Result<(Addr, Option<T>), String> {
        let base = st.stack.last().unwrap().base;
        let z = self.tm.int(0);
        let mut a = Addr { obj: base + pl.local, off: z };
        let mut meta: Option<T> = None;
        for e in &pl.proj {
            match e {
                Proj::Field(o) => {
                    if *o != 0 {
                        a.off = self.tm.addc(a.off, *o as i128);
                    }
                }
                Proj::Deref(m) => {
                    let p = self.read(st, a, 8, &Kind::Ptr)?;
                    if *m != Meta::None {
                        let ma = Addr { obj: a.obj, off: self.tm.addc(a.off, 8) };
                        let k = if *m == Meta::Dyn { Kind::Ptr } else { Kind::Int(64, false) };
                        meta = Some(self.read(st, ma, 8, &k)?);
                    } else {
                        meta = None;
                    }
                    if p == Terms::UNDEF {
                        return Err("dereference of an undefined pointer".into());
                    }
                    a = self.addr_of(p);
                }
                Proj::Index { local, elem, len } => {
                    let la = Addr { obj: base + local, off: z };
                    let i = self.read(st, la, 8, &Kind::Int(64, false))?;
                    let _ = len;
                    let o = self.tm.mulc(i, *elem as i128);
                    a.off = self.tm.add(a.off, o);
                    meta = None;
                }
                Proj::ConstIndex { off, from_end, elem, len } => {
                    let o = if *from_end {
                        let l = match len {
                            Some(l) => self.tm.int(*l as i128),
                            None => meta.ok_or("no length")?,
                        };
                        let i = self.tm.addc(l, -(*off as i128));
                        self.tm.mulc(i, *elem as i128)
                    } else {
                        self.tm.int((off * elem) as i128)
                    };
                    a.off = self.tm.add(a.off, o);
                    meta = None;
                }
                Proj::Subslice { from, to, from_end, elem, len } => {
                    a.off = self.tm.addc(a.off, (from * elem) as i128);
                    if len.is_none() {
                        let l = meta.ok_or("no length")?;
                        meta = Some(if *from_end { self.tm.addc(l, -((from + to) as i128)) } else { self.tm.int((to - from) as i128) });
                    }
                }
                Proj::Unsupported(s) => return Err(format!("projection {s}")),
            }
        }
        Ok((a, meta))
    }

    pub fn check_buf(&mut self, st: &State, a: Addr, len: T, n: T, what: &str) -> bool {
        self.stats.accesses += 1;
        let end = self.tm.add(a.off, n);
        let ok = self.prove(st, a.off) && self.prove_ge(st, len, end);
        if !ok {
            let m = format!("{what} of {} bytes at offset {} of a buffer of {} bytes is not provably in bounds", self.tm.show(n), self.tm.show(a.off), self.tm.show(len));
            self.event(st, EvKind::Oob, m);
        }
        ok
    }

    /// bytes of a destination or of fresh heap memory are not inputs
    fn check_src(&mut self, st: &State, o: &ObjK) {
        if let ObjK::Buf { kind, .. } = o {
            let bad = match kind {
                BufKind::Plane { img, .. } => self.imgs[*img as usize].mutable,
                BufKind::Heap { .. } => true,
                _ => false,
            };
            if bad {
                self.event(st, EvKind::DstRead, "bytes of the destination are read".into());
            }
        }
    }

    pub fn read(&mut self, st: &mut State, a: Addr, size: u64, kind: &Kind) -> Result<T, String> {
        if size == 0 {
            return Ok(self.tm.int(0));
        }
        let Some(o) = self.obj(st, a.obj) else {
            self.event(st, EvKind::Oob, format!("read through an invalid pointer ({})", self.tm.show(a.off)));
            return Err("read through an invalid pointer".into());
        };
        match &*o {
            ObjK::Mem { size: os, cells } => {
                let Some(off) = self.tm.as_int(a.off) else {
                    return Ok(self.read_symbolic(st, a, *os, cells, size, kind));
                };
                if off < 0 || off as u64 + size > *os {
                    self.event(st, EvKind::Oob, format!("read of {size} bytes at offset {off} of an object of {os} bytes"));
                    return Err("out of bounds".into());
                }
                let v = cells_read(&mut self.tm, cells, off as u64, size, kind);
                if let Kind::Int(b, s) = kind {
                    return Ok(self.normal(st, v, *b, *s));
                }
                Ok(v)
            }
            ObjK::Buf { len, .. } => {
                let n = self.tm.int(size as i128);
                // keep going with the value; a violation is recorded
                self.check_buf(st, a, *len, n, "read");
                self.check_src(st, &o);
                let mut acc = self.tm.int(0);
                for i in 0..size {
                    let off = self.tm.addc(a.off, i as i128);
                    let b = self.tm.byte(a.obj, off);
                    let b = self.tm.mulc(b, 1i128 << (8 * i));
                    acc = self.tm.add(acc, b);
                }
                Ok(typed(&mut self.tm, acc, size, kind))
            }
        }
    }
    fn read_symbolic(&mut self, st: &State, a: Addr, os: u64, cells: &Cells, size: u64, kind: &Kind) -> T {
        // bounds
        let n = self.tm.int(size as i128);
        let len = self.tm.int(os as i128);
        self.check_buf(st, a, len, n, "read");
        // all candidate cells equal?
        let same = cells.first().map(|c| c.v).filter(|v| cells.iter().all(|c| c.v == *v && c.size == size) && cells.len() as u64 * size == os);
        match same {
            Some(v) => typed(&mut self.tm, v, size, kind),
            None => match kind {
                Kind::Int(b, s) => {
                    let (lo, hi) = int_range(*b, *s);
                    self.tm.unk("element", lo, hi)
                }
                Kind::Bool => self.tm.unk("element", 0, 1),
                Kind::Float(_) => self.tm.funk(),
                _ => Terms::UNDEF,
            },
        }
    }
    pub fn read_v(&mut self, st: &mut State, a: Addr, ty: TyId) -> Result<V, String> {
        let size = self.size_of(ty);
        let k = kind_of(self.p, ty);
        if k != Kind::Raw {
            return Ok(V::S(self.read(st, a, size, &k)?, size));
        }
        Ok(V::A(self.read_cells(st, a, size)?, size))
    }
    pub fn read_cells(&mut self, st: &mut State, a: Addr, size: u64) -> Result<Cells, String> {
        if size == 0 {
            return Ok(vec![]);
        }
        let Some(o) = self.obj(st, a.obj) else {
            self.event(st, EvKind::Oob, format!("read through an invalid pointer ({})", self.tm.show(a.off)));
            return Err("read through an invalid pointer".into());
        };
        match &*o {
            ObjK::Mem { size: os, cells } => {
                let Some(off) = self.tm.as_int(a.off) else {
                    let n = self.tm.int(size as i128);
                    let len = self.tm.int(*os as i128);
                    self.check_buf(st, a, len, n, "read");
                    return Ok(vec![]);
                };
                if off < 0 || off as u64 + size > *os {
                    self.event(st, EvKind::Oob, format!("read of {size} bytes at offset {off} of an object of {os} bytes"));
                    return Err("out of bounds".into());
                }
                Ok(cells_slice(&mut self.tm, cells, off as u64, size))
            }
            ObjK::Buf { len, .. } => {
                let n = self.tm.int(size as i128);
                self.check_buf(st, a, *len, n, "read");
                self.check_src(st, &o);
                let mut v = Vec::with_capacity(size as usize);
                for i in 0..size {
                    let off = self.tm.addc(a.off, i as i128);
                    let b = self.tm.byte(a.obj, off);
                    v.push(Cell { off: i, size: 1, v: b });
                }
                Ok(v)
            }
        }
    }
    pub fn write_v(&mut self, st: &mut State, a: Addr, v: &V) -> Result<(), String> {
        match v {
            V::S(t, size) => self.write(st, a, &[Cell { off: 0, size: *size, v: *t }], *size, false),
            V::A(c, size) => self.write(st, a, c, *size, true),
        }
    }
    pub fn write_t(&mut self, st: &mut State, a: Addr, t: T, size: u64) -> Result<(), String> {
        self.write(st, a, &[Cell { off: 0, size, v: t }], size, false)
    }
    fn write(&mut self, st: &mut State, a: Addr, c: &[Cell], size: u64, clear: bool) -> Result<(), String> {
        if size == 0 {
            return Ok(());
        }
        let is_mem = match st.objs.get(&a.obj) {
            Some(o) => match &**o {
                ObjK::Mem { size, .. } => Ok(*size),
                ObjK::Buf { len, .. } => Err(*len),
            },
            None => {
                self.event(st, EvKind::Oob, format!("write through an invalid pointer ({})", self.tm.show(a.off)));
                return Err("write through an invalid pointer".into());
            }
        };
        match is_mem {
            Ok(os) => {
                let Some(off) = self.tm.as_int(a.off) else {
                    let n = self.tm.int(size as i128);
                    let len = self.tm.int(os as i128);
                    self.check_buf(st, a, len, n, "write");
                    // weak update: forget the contents
                    if let ObjK::Mem { cells, .. } = Rc::make_mut(st.objs.get_mut(&a.obj).unwrap()) {
                        cells.clear();
                    }
                    return Ok(());
                };
                if off < 0 || off as u64 + size > os {
                    self.event(st, EvKind::Oob, format!("write of {size} bytes at offset {off} of an object of {os} bytes"));
                    return Err("out of bounds".into());
                }
                let off = off as u64;
                let tm = &mut self.tm;
                if let ObjK::Mem { cells, .. } = Rc::make_mut(st.objs.get_mut(&a.obj).unwrap()) {
                    if clear && off == 0 && size == os {
                        *cells = c.to_vec();
                        return Ok(());
                    }
                    if clear {
                        cells_clear(tm, cells, off, size);
                    }
                    for x in c {
                        cells_write(tm, cells, off + x.off, x.size, x.v);
                    }
                }
                Ok(())
            }
            Err(len) => {
                let n = self.tm.int(size as i128);
                self.check_buf(st, a, len, n, "write");
                let site = self.site(st);
                for x in c {
                    let off = self.tm.addc(a.off, x.off as i128);
                    st.log.push(Rc::new(Entry::Store { obj: a.obj, off, size: x.size, val: x.v, site: site.clone() }));
                }
                Ok(())
            }
        }
    }
    /// memcpy with a possibly symbolic byte count
    pub fn copy_bytes(&mut self, st: &mut State, dst: T, src: T, n: T) -> Result<(), String> {
        if self.tm.as_int(n) == Some(0) {
            return Ok(());
        }
        let (d, s) = (self.addr_of(dst), self.addr_of(src));
        let (dk, sk) = (self.obj(st, d.obj), self.obj(st, s.obj));
        let (Some(dk), Some(sk)) = (dk, sk) else {
            let z = self.tm.int(0);
            if self.prove_ge(st, z, n) {
                return Ok(());
            }
            self.event(st, EvKind::Oob, "copy through an invalid pointer".into());
            return Err("copy through an invalid pointer".into());
        };
        if let Some(c) = self.tm.as_int(n) {
            if !(matches!(&*dk, ObjK::Buf { .. }) && matches!(&*sk, ObjK::Buf { .. })) || c <= 64 {
                let cells = self.read_cells(st, s, c as u64)?;
                return self.write(st, d, &cells, c as u64, true);
            }
        }
        if let (ObjK::Buf { len: dl, .. }, ObjK::Buf { len: sl, .. }) = (&*dk, &*sk) {
            self.check_buf(st, s, *sl, n, "read");
            self.check_src(st, &sk);
            self.check_buf(st, d, *dl, n, "write");
            let site = self.site(st);
            st.log.push(Rc::new(Entry::Copy { obj: d.obj, off: d.off, len: n, sobj: s.obj, soff: s.off, site }));
            return Ok(());
        }
        Err("copy of symbolic length involving local memory".into())
    }

    // ------------------------------------------------------------------ operands
    fn const_t(&mut self, c: &Const, size: u64, kind: &Kind) -> T {
        if c.relocs.is_empty() && c.bytes.len() as u64 >= size && size <= 16 {
            if c.bytes.iter().take(size as usize).any(|b| b.is_none()) {
                return Terms::UNDEF;
            }
            let mut v = 0u128;
            for i in 0..size {
                v |= (c.bytes[i as usize].unwrap() as u128) << (8 * i);
            }
            return match kind {
                Kind::Int(bits, true) => {
                    let sh = 128 - *bits as u32;
                    let x = ((v << sh) as i128) >> sh;
                    self.tm.int(x)
                }
                Kind::Float(32) => self.tm.f(f32::from_bits(v as u32)),
                _ => self.tm.int(v as i128),
            };
        }
        let cells = self.const_cells(c);
        cells_read(&mut self.tm, &cells, 0, size, kind)
    }
    pub fn operand(&mut self, st: &mut State, o: &Op) -> Result<V, String> {
        match o {
            Op::Copy(p) | Op::Move(p) => {
                let (a, _) = self.place(st, p)?;
                self.read_v(st, a, p.ty)
            }
            Op::Const(c, ty) => {
                let size = self.size_of(*ty);
                let k = kind_of(self.p, *ty);
                if k != Kind::Raw {
                    Ok(V::S(self.const_t(c, size, &k), size))
                } else if size == 0 {
                    Ok(V::A(vec![], 0))
                } else {
                    Ok(V::A(self.const_cells(c), size))
                }
            }
            Op::Checks(b) => {
                let v = self.tm.int(*b as i128);
                Ok(V::S(v, 1))
            }
        }
    }
    pub fn v_t(&mut self, v: &V, kind: &Kind) -> T {
        match v {
            V::S(t, s) => typed(&mut self.tm, *t, *s, kind),
            V::A(c, s) => {
                if c.len() == 1 && c[0].off == 0 {
                    let x = c[0].clone();
                    typed(&mut self.tm, x.v, x.size, kind)
                } else {
                    cells_read(&mut self.tm, c, 0, *s, kind)
                }
            }
        }
    }
    pub fn op_t(&mut self, st: &mut State, o: &Op) -> Result<T, String> {
        let ty = match o {
            Op::Copy(p) | Op::Move(p) => p.ty,
            Op::Const(_, t) => *t,
            Op::Checks(_) => {
                return match self.operand(st, o)? {
                    V::S(t, _) => Ok(t),
                    _ => unreachable!(),
                }
            }
        };
        let v = self.operand(st, o)?;
        let k = kind_of(self.p, ty);
        Ok(self.v_t(&v, &k))
    }
    pub fn cells_of(v: &V) -> Cells {
        match v {
            V::S(t, s) => vec![Cell { off: 0, size: *s, v: *t }],
            V::A(c, _) => c.clone(),
        }
    }
    pub fn vsize(v: &V) -> u64 {
        match v {
            V::S(_, s) | V::A(_, s) => *s,
        }
    }

    // ------------------------------------------------------------------ arithmetic
    /// the value when it provably fits the type
    pub fn fits(&mut self, st: &State, r: T, bits: u16, signed: bool) -> bool {
        let (lo, hi) = int_range(bits, signed);
        let (l, h) = self.tm.range(r);
        if l >= lo && h <= hi {
            return true;
        }
        if self.tm.is_data(r) {
            return false;
        }
        if l < lo {
            let d = self.tm.addc(r, -lo);
            if !self.prove(st, d) {
                return false;
            }
        }
        if h > hi {
            let d = self.tm.neg(r);
            let d = self.tm.addc(d, hi);
            if !self.prove(st, d) {
                return false;
            }
        }
        true
    }
    /// a value read back at an integer type: only a change of signedness can take it out of range
    fn normal(&mut self, st: &State, v: T, bits: u16, signed: bool) -> T {
        if v == Terms::UNDEF || self.tm.is_data(v) || !self.tm.is_intlike(v) {
            return v;
        }
        let (lo, hi) = int_range(bits, signed);
        let (l, h) = self.tm.range(v);
        if l >= lo && (h <= hi || !signed) {
            return v;
        }
        if self.norm.contains(&(v, bits, signed)) {
            return v;
        }
        if self.fits(st, v, bits, signed) {
            self.norm.insert((v, bits, signed));
            return v;
        }
        self.tm.wrap(v, bits, signed)
    }
    pub fn wrapped(&mut self, st: &State, r: T, bits: u16, signed: bool) -> T {
        if self.fits(st, r, bits, signed) {
            r
        } else {
            self.tm.wrap(r, bits, signed)
        }
    }
    /// comparison operands: pointers into one object compare by offset
    fn cmp_pair(&mut self, a: T, b: T) -> Option<(T, T)> {
        match (self.tm.n(a).clone(), self.tm.n(b).clone()) {
            (N::Ptr(o, x), N::Ptr(p, y)) if o == p => Some((x, y)),
            (N::Ptr(..), _) | (_, N::Ptr(..)) => None,
            (N::VT(_) | N::Fn(_) | N::Foreign(_), _) | (_, N::VT(_) | N::Fn(_) | N::Foreign(_)) => None,
            _ => Some((a, b)),
        }
    }
    pub fn mask_and(&mut self, a: T, m: i128, bits: u16) -> T {
        // union of runs of ones
        let mut acc = self.tm.int(0);
        let mut i = 0u32;
        while (i as u16) < bits {
            if m >> i & 1 == 1 {
                let mut j = i;
                while (j as u16) < bits && m >> j & 1 == 1 {
                    j += 1;
                }
                // bits i..j
                // the operand is already unsigned and `bits` wide
                let hi = if j as u16 >= bits {
                    a
                } else {
                    let k = self.tm.int(1i128 << j);
                    self.tm.modulo(a, k)
                };
                let lo = if i == 0 {
                    self.tm.int(0)
                } else {
                    let k = self.tm.int(1i128 << i);
                    self.tm.modulo(a, k)
                };
                let d = self.tm.sub(hi, lo);
                acc = self.tm.add(acc, d);
                i = j;
            } else {
                i += 1;
            }
        }
        acc
    }
    /// bitwise operations on values already normalised to unsigned `bits`
    pub fn bitop(&mut self, k: IK, a: T, b: T, bits: u16) -> T {
        if self.tm.is_bool(a) && self.tm.is_bool(b) && bits >= 1 {
            match k {
                IK::And => return self.tm.and(a, b),
                IK::Or => return self.tm.or(a, b),
                IK::Xor => {
                    let (na, nb) = (self.tm.not(a), self.tm.not(b));
                    let (x, y) = (self.tm.and(a, nb), self.tm.and(na, b));
                    let r = self.tm.or(x, y);
                    return self.tm.bool_simp(r);
                }
                _ => {}
            }
        }
        let (_, full) = int_range(bits, false);
        for (x, y) in [(a, b), (b, a)] {
            if let N::Sel(c, p, q) = self.tm.n(x).clone() {
                if self.tm.as_int(p).is_some() && self.tm.as_int(q).is_some() {
                    let (p, q) = (self.bitop(k, p, y, bits), self.bitop(k, q, y, bits));
                    return self.tm.sel(c, p, q);
                }
            }
            if let Some(m) = self.tm.as_int(y) {
                if m == 0 {
                    return match k {
                        IK::And => y,
                        _ => x,
                    };
                }
                if m == full && k == IK::And {
                    return x;
                }
                let an = self.mask_and(x, m, bits);
                return match k {
                    IK::And => an,
                    IK::Or => {
                        let s = self.tm.add(x, y);
                        self.tm.sub(s, an)
                    }
                    _ => {
                        let s = self.tm.add(x, y);
                        let t = self.tm.mulc(an, 2);
                        self.tm.sub(s, t)
                    }
                };
            }
            // disjoint bit ranges
            if k != IK::And {
                let (lo, hi) = self.tm.range(y);
                if lo >= 0 && hi < 1i128 << 64 {
                    let mut p2 = 1i128;
                    while p2 <= hi {
                        p2 *= 2;
                    }
                    let pm = self.tm.int(p2);
                    let r = self.tm.modulo(x, pm);
                    if self.tm.as_int(r) == Some(0) {
                        return self.tm.add(x, y);
                    }
                }
            }
        }
        if a == b {
            return match k {
                IK::Xor => self.tm.int(0),
                _ => a,
            };
        }
        self.tm.iop(k, vec![a.min(b), a.max(b)], 0, full)
    }
    pub fn shift(&mut self, st: &State, left: bool, a: T, n: T, bits: u16, signed: bool) -> T {
        if let Some(c) = self.tm.as_int(n) {
            let c = c.rem_euclid(bits as i128);
            return if left {
                let r = self.tm.mulc(a, 1i128 << c);
                self.wrapped(st, r, bits, signed)
            } else {
                self.tm.divc(a, 1i128 << c)
            };
        }
        let (lo, hi) = int_range(bits, signed);
        self.tm.iop(if left { IK::Shl } else { IK::Shr }, vec![a, n], lo, hi)
    }
    pub fn bin(&mut self, st: &mut State, k: Bin, a: T, b: T, ty: TyId) -> Result<T, String> {
        if a == Terms::UNDEF || b == Terms::UNDEF {
            return Ok(Terms::UNDEF);
        }
        let p = self.p;
        if k == Bin::Offset {
            let sz = self.size_of(ty);
            let o = self.tm.mulc(b, sz as i128);
            return Ok(self.ptr_addt(a, o));
        }
        match &p.tys[ty as usize].kind {
            TyKind::Float(32) => {
                return Ok(match k {
                    Bin::Add => self.tm.fop(FK::Add, vec![a, b]),
                    Bin::Sub => self.tm.fop(FK::Sub, vec![a, b]),
                    Bin::Mul => self.tm.fop(FK::Mul, vec![a, b]),
                    Bin::Div => self.tm.fop(FK::Div, vec![a, b]),
                    Bin::Rem => self.tm.fop(FK::Rem, vec![a, b]),
                    Bin::Eq => self.tm.fcmp(FC::Eq, a, b),
                    Bin::Ne => {
                        let c = self.tm.fcmp(FC::Eq, a, b);
                        self.tm.not(c)
                    }
                    Bin::Lt => self.tm.fcmp(FC::Lt, a, b),
                    Bin::Le => self.tm.fcmp(FC::Le, a, b),
                    Bin::Gt => self.tm.fcmp(FC::Lt, b, a),
                    Bin::Ge => self.tm.fcmp(FC::Le, b, a),
                    _ => return Err(format!("float operation {k:?}")),
                })
            }
            TyKind::Float(_) => return Ok(self.tm.funk()),
            _ => {}
        }
        let (bits, signed) = match &p.tys[ty as usize].kind {
            TyKind::Int { bits, signed } => (*bits, *signed),
            TyKind::Bool => (1, false),
            TyKind::Char => (32, false),
            _ => (64, false),
        };
        use Bin::*;
        match k {
            Eq | Ne | Lt | Le | Gt | Ge | Cmp => {
                let pair = match self.cmp_pair(a, b) {
                    Some(p) => p,
                    None => {
                        // a pointer never equals null or a pointer into another object
                        return match k {
                            Eq => Ok(self.tm.int((a == b) as i128)),
                            Ne => Ok(self.tm.int((a != b) as i128)),
                            _ => {
                                // order of an address and an integer: addresses are neither null nor huge
                                if let (N::Ptr(..), Some(c)) = (self.tm.n(a).clone(), self.tm.as_int(b)) {
                                    if c <= 1 {
                                        let v = match k {
                                            Lt => (c > 1) as i128,
                                            Le => 0,
                                            Gt | Ge => 1,
                                            _ => 1,
                                        };
                                        return Ok(self.tm.int(v));
                                    }
                                }
                                Ok(self.tm.unk("address order", 0, 1))
                            }
                        };
                    }
                };
                let (a, b) = pair;
                if !self.tm.is_intlike(a) || !self.tm.is_intlike(b) {
                    return Ok(self.tm.unk("cmp", if k == Cmp { -1 } else { 0 }, 1));
                }
                Ok(match k {
                    Eq => self.tm.eq(a, b),
                    Ne => {
                        let e = self.tm.eq(a, b);
                        self.tm.not(e)
                    }
                    Lt => self.tm.gt(b, a),
                    Le => self.tm.ge(b, a),
                    Gt => self.tm.gt(a, b),
                    Ge => self.tm.ge(a, b),
                    _ => {
                        let g = self.tm.gt(a, b);
                        let l = self.tm.gt(b, a);
                        self.tm.sub(g, l)
                    }
                })
            }
            Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked => {
                if let (N::Ptr(..), true) = (self.tm.n(a).clone(), self.tm.is_intlike(b)) {
                    if matches!(k, Add | AddUnchecked) {
                        return Ok(self.ptr_addt(a, b));
                    }
                    if matches!(k, Sub | SubUnchecked) {
                        let n = self.tm.neg(b);
                        return Ok(self.ptr_addt(a, n));
                    }
                }
                if let (N::Ptr(o, x), N::Ptr(q, y)) = (self.tm.n(a).clone(), self.tm.n(b).clone()) {
                    if o == q && matches!(k, Sub | SubUnchecked) {
                        return Ok(self.tm.sub(x, y));
                    }
                }
                if !self.tm.is_intlike(a) || !self.tm.is_intlike(b) {
                    let (lo, hi) = int_range(bits, signed);
                    return Ok(self.tm.unk("address arithmetic", lo, hi));
                }
                let r = match k {
                    Add | AddUnchecked => self.tm.add(a, b),
                    Sub | SubUnchecked => self.tm.sub(a, b),
                    _ => self.tm.mul(a, b),
                };
                if matches!(k, AddUnchecked | SubUnchecked | MulUnchecked) {
                    // undefined behaviour when it does not fit: the fact may be used afterwards
                    if !self.fits(st, r, bits, signed) {
                        let m = format!("unchecked arithmetic may overflow: {}", self.tm.show(r));
                        self.event(st, EvKind::Oob, m);
                    }
                    return Ok(r);
                }
                Ok(self.wrapped(st, r, bits, signed))
            }
            Div | Rem => {
                let (al, _) = self.tm.range(a);
                let (bl, _) = self.tm.range(b);
                let one = self.tm.int(1);
                let nonneg = al >= 0 || self.prove(st, a);
                let pos = bl >= 1 || self.prove_ge(st, b, one);
                if nonneg && pos {
                    return Ok(if k == Div { self.tm.div(a, b) } else { self.tm.modulo(a, b) });
                }
                if let (Some(x), Some(y)) = (self.tm.as_int(a), self.tm.as_int(b)) {
                    if y != 0 {
                        return Ok(self.tm.int(if k == Div { x / y } else { x % y }));
                    }
                }
                let (lo, hi) = int_range(bits, signed);
                let kk = if k == Div { IK::Other(1) } else { IK::Rem };
                Ok(self.tm.iop(kk, vec![a, b], lo, hi))
            }
            And | Or | Xor => {
                // alignment tests on addresses
                if !self.tm.is_intlike(a) || !self.tm.is_intlike(b) {
                    let m = self.tm.as_int(a).or(self.tm.as_int(b)).unwrap_or(u64::MAX as i128);
                    return Ok(self.tm.unk("address bits", 0, m));
                }
                let kk = match k {
                    And => IK::And,
                    Or => IK::Or,
                    _ => IK::Xor,
                };
                if bits == 1 {
                    return Ok(match k {
                        And => self.tm.and(a, b),
                        Or => self.tm.or(a, b),
                        _ => {
                            let (na, nb) = (self.tm.not(a), self.tm.not(b));
                            let (x, y) = (self.tm.and(a, nb), self.tm.and(na, b));
                            self.tm.or(x, y)
                        }
                    });
                }
                let (ua, ub) = (self.wrapped(st, a, bits, false), self.wrapped(st, b, bits, false));
                let r = self.bitop(kk, ua, ub, bits);
                Ok(self.wrapped(st, r, bits, signed))
            }
            Shl | ShlUnchecked => Ok(self.shift(st, true, a, b, bits, signed)),
            Shr | ShrUnchecked => Ok(self.shift(st, false, a, b, bits, signed)),
            Offset => unreachable!(),
        }
    }

    // ------------------------------------------------------------------ statements
    fn rvalue(&mut self, st: &mut State, rv: &Rv, dty: TyId) -> Result<V, String> {
        let dsize = self.size_of(dty);
        match rv {
            Rv::Use(o) => self.operand(st, o),
            Rv::Repeat(o, n, sz) => {
                let v = self.operand(st, o)?;
                let c = Self::cells_of(&v);
                if n * c.len() as u64 > 1 << 16 {
                    return Err("large array".into());
                }
                let mut out = Vec::with_capacity(*n as usize * c.len());
                for i in 0..*n {
                    for x in &c {
                        out.push(Cell { off: i * sz + x.off, size: x.size, v: x.v });
                    }
                }
                Ok(V::A(out, n * sz))
            }
            Rv::Ref(p) => {
                let (a, meta) = self.place(st, p)?;
                let t = self.to_ptr(a);
                match meta {
                    Some(m) if dsize == 16 => Ok(V::A(vec![Cell { off: 0, size: 8, v: t }, Cell { off: 8, size: 8, v: m }], 16)),
                    _ => Ok(V::S(t, 8)),
                }
            }
            Rv::Bin(k, a, b, ty) => {
                let (x, y) = (self.op_bin(st, a, *ty)?, self.op_bin(st, b, *ty)?);
                Ok(V::S(self.bin(st, *k, x, y, *ty)?, dsize))
            }
            Rv::CheckedBin(k, a, b, ty) => {
                let (x, y) = (self.op_t(st, a)?, self.op_t(st, b)?);
                let sz = self.size_of(*ty);
                let (bits, signed) = match self.p.tys[*ty as usize].kind {
                    TyKind::Int { bits, signed } => (bits, signed),
                    _ => (64, false),
                };
                if x == Terms::UNDEF || y == Terms::UNDEF {
                    return Ok(V::A(vec![], dsize));
                }
                let (val, ov) = self.checked(st, *k, x, y, bits, signed)?;
                let foff = match &self.p.tys[dty as usize].kind {
                    TyKind::Tuple { fields } => (fields[0].0, fields[1].0),
                    _ => (0, sz),
                };
                let mut cells = vec![Cell { off: foff.0, size: sz, v: val }, Cell { off: foff.1, size: 1, v: ov }];
                cells.sort_by_key(|c| c.off);
                Ok(V::A(cells, dsize))
            }
            Rv::Not(o, ty) => {
                let x = self.op_t(st, o)?;
                if x == Terms::UNDEF {
                    return Ok(V::S(x, dsize));
                }
                Ok(V::S(
                    match self.p.tys[*ty as usize].kind {
                        TyKind::Bool => self.tm.not(x),
                        TyKind::Int { bits, signed } => {
                            let n = self.tm.neg(x);
                            if signed {
                                self.tm.addc(n, -1)
                            } else {
                                self.tm.addc(n, (1i128 << bits) - 1)
                            }
                        }
                        _ => return Err("not".into()),
                    },
                    dsize,
                ))
            }
            Rv::Neg(o, ty) => {
                let x = self.op_t(st, o)?;
                if x == Terms::UNDEF {
                    return Ok(V::S(x, dsize));
                }
                Ok(V::S(
                    match self.p.tys[*ty as usize].kind {
                        TyKind::Float(_) => self.tm.fop(FK::Neg, vec![x]),
                        TyKind::Int { bits, signed } => {
                            let r = self.tm.neg(x);
                            self.wrapped(st, r, bits, signed)
                        }
                        _ => return Err("neg".into()),
                    },
                    dsize,
                ))
            }
            Rv::PtrMeta(o) => {
                let v = self.operand(st, o)?;
                match &v {
                    V::A(c, 16) => {
                        let k = if dsize == 8 { Kind::Int(64, false) } else { Kind::Raw };
                        let t = cells_read(&mut self.tm, c, 8, 8, &k);
                        Ok(V::S(t, 8))
                    }
                    _ => Ok(V::A(vec![], 0)),
                }
            }
            Rv::Cast(k, o, from, to) => self.cast(st, *k, o, *from, *to),
            Rv::Reify(f) => Ok(V::S(self.tm.func(*f), 8)),
            Rv::UnsizeDyn(o, a) => {
                let v = self.operand(st, o)?;
                let t = self.v_t(&v, &Kind::Ptr);
                let vt = self.tm.vt(*a);
                Ok(V::A(vec![Cell { off: 0, size: 8, v: t }, Cell { off: 8, size: 8, v: vt }], 16))
            }
            Rv::UnsizeOther(..) => Err("unsizing coercion".into()),
            Rv::Discr(p) => {
                let (a, _) = self.place(st, p)?;
                let t = self.discriminant(st, a, p.ty)?;
                Ok(V::S(t, dsize))
            }
            Rv::Aggregate { fields, variant, ty } => {
                let mut cells: Cells = vec![];
                let size = self.size_of(*ty);
                for (off, o) in fields {
                    let v = self.operand(st, o)?;
                    for c in Self::cells_of(&v) {
                        if c.size > 0 {
                            cells.push(Cell { off: off + c.off, size: c.size, v: c.v });
                        }
                    }
                }
                cells.sort_by_key(|c| c.off);
                if let Some(v) = variant {
                    self.set_tag(&mut cells, *ty, *v);
                }
                if kind_of(self.p, *ty) != Kind::Raw && cells.len() == 1 {
                    return Ok(V::S(cells[0].v, size));
                }
                Ok(V::A(cells, size))
            }
            Rv::RawPtr(p, m) => {
                let x = self.op_t(st, p)?;
                let mv = self.operand(st, m)?;
                if Self::vsize(&mv) == 0 {
                    return Ok(V::S(x, 8));
                }
                let mt = self.v_t(&mv, &Kind::Raw);
                Ok(V::A(vec![Cell { off: 0, size: 8, v: x }, Cell { off: 8, size: 8, v: mt }], 16))
            }
            Rv::Len(p) => {
                let (_, m) = self.place(st, p)?;
                match (m, &self.p.tys[p.ty as usize].kind) {
                    (_, TyKind::Array { len, .. }) => Ok(V::S(self.tm.int(*len as i128), 8)),
                    (Some(m), _) => Ok(V::S(m, 8)),
                    _ => Err("length".into()),
                }
            }
            Rv::Unsupported(s) => Err(format!("rvalue {s}")),
        }
    }
    fn op_bin(&mut self, st: &mut State, o: &Op, _ty: TyId) -> Result<T, String> {
        // fat pointer comparisons use the data pointer
        let v = self.operand(st, o)?;
        let ty = match o {
            Op::Copy(p) | Op::Move(p) => p.ty,
            Op::Const(_, t) => *t,
            Op::Checks(_) => return Ok(self.v_t(&v, &Kind::Bool)),
        };
        let k = kind_of(self.p, ty);
        if let (V::A(c, 16), Kind::Raw) = (&v, &k) {
            return Ok(cells_read(&mut self.tm, c, 0, 8, &Kind::Ptr));
        }
        Ok(self.v_t(&v, &k))
    }
    pub fn checked(&mut self, st: &mut State, k: Bin, x: T, y: T, bits: u16, signed: bool) -> Result<(T, T), String> {
        match k {
            Bin::Shl | Bin::Shr => {
                let n = self.tm.int(bits as i128);
                let ov = self.tm.ge(y, n);
                let r = self.shift(st, k == Bin::Shl, x, y, bits, signed);
                return Ok((r, ov));
            }
            _ => {}
        }
        let r = match k {
            Bin::Add => self.tm.add(x, y),
            Bin::Sub => self.tm.sub(x, y),
            Bin::Mul => self.tm.mul(x, y),
            _ => return Err(format!("checked {k:?}")),
        };
        self.stats.asserts += 1;
        if self.fits(st, r, bits, signed) {
            let z = self.tm.int(0);
            return Ok((r, z));
        }
        let (lo, hi) = int_range(bits, signed);
        let a = self.tm.addc(r, -lo);
        let a = self.tm.ge0(a);
        let b = self.tm.neg(r);
        let b = self.tm.addc(b, hi);
        let b = self.tm.ge0(b);
        let ok = self.tm.and(a, b);
        let ov = self.tm.not(ok);
        if self.tm.is_data(r) {
            return Ok((r, ov));
        }
        let w = self.tm.wrap(r, bits, signed);
        for c in [a, b] {
            let e = self.wraps.entry(c).or_default();
            if !e.contains(&(w, r, bits, signed)) {
                e.push((w, r, bits, signed));
            }
        }
        Ok((w, ov))
    }
    fn cast(&mut self, st: &mut State, k: CastK, o: &Op, from: TyId, to: TyId) -> Result<V, String> {
        let v = self.operand(st, o)?;
        let tsize = self.size_of(to);
        let fk = kind_of(self.p, from);
        let tk = kind_of(self.p, to);
        match k {
            CastK::Int => {
                // enums as integers: through the discriminant
                let x = self.v_t(&v, &fk);
                if x == Terms::UNDEF {
                    return Ok(V::S(x, tsize));
                }
                if matches!(self.p.tys[from as usize].kind, TyKind::Bool) && !self.tm.is_data(x) {
                    if let Some(b) = self.decide(st, x) {
                        return Ok(V::S(self.tm.int(b as i128), tsize));
                    }
                }
                match tk {
                    Kind::Int(b, s) => Ok(V::S(if self.tm.is_intlike(x) { self.wrapped(st, x, b, s) } else { x }, tsize)),
                    _ => Ok(V::S(x, tsize)),
                }
            }
            CastK::FloatToInt => {
                let x = self.v_t(&v, &fk);
                match (fk, tk) {
                    (Kind::Float(32), Kind::Int(b, s)) => {
                        let (lo, hi) = int_range(b, s);
                        Ok(V::S(self.tm.cvt(x, Rnd::Trunc, lo, hi, false), tsize))
                    }
                    (_, Kind::Int(b, s)) => {
                        let (lo, hi) = int_range(b, s);
                        Ok(V::S(self.tm.unk("float", lo, hi), tsize))
                    }
                    _ => Err("cast".into()),
                }
            }
            CastK::IntToFloat => {
                let x = self.v_t(&v, &fk);
                if tk == Kind::Float(32) {
                    Ok(V::S(self.tm.itof(x), tsize))
                } else {
                    Ok(V::S(self.tm.funk(), tsize))
                }
            }
            CastK::FloatToFloat => {
                if fk == tk {
                    Ok(v)
                } else {
                    Ok(V::S(self.tm.funk(), tsize))
                }
            }
            CastK::PtrToPtr | CastK::Reborrow | CastK::ExposeAddr | CastK::FromExposed => {
                if Self::vsize(&v) == 16 && tsize == 8 {
                    let c = Self::cells_of(&v);
                    return Ok(V::S(cells_read(&mut self.tm, &c, 0, 8, &Kind::Ptr), 8));
                }
                Ok(v)
            }
            CastK::UnsizeSlice(n) => {
                let x = self.v_t(&v, &Kind::Ptr);
                let n = self.tm.int(n as i128);
                Ok(V::A(vec![Cell { off: 0, size: 8, v: x }, Cell { off: 8, size: 8, v: n }], 16))
            }
            CastK::Transmute => {
                if tk != Kind::Raw {
                    let t = self.v_t(&v, &tk);
                    let t = match tk {
                        Kind::Int(b, s) => self.normal(st, t, b, s),
                        _ => t,
                    };
                    Ok(V::S(t, tsize))
                } else {
                    Ok(V::A(Self::cells_of(&v), tsize))
                }
            }
        }
    }

    // ------------------------------------------------------------------ enums
    pub fn set_tag(&mut self, cells: &mut Cells, ty: TyId, v: u32) {
        let p = self.p;
        if let TyKind::Enum { variants, tag, .. } = &p.tys[ty as usize].kind {
            match tag {
                Tag::Direct { off, size } => {
                    let m = if *size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                    let d = self.tm.int((variants[v as usize].discr & m) as i128);
                    cells_write(&mut self.tm, cells, *off, *size, d);
                }
                Tag::Niche { off, size, untagged, start, niche_start, .. } if v != *untagged => {
                    let m = if *size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                    let x = niche_start.wrapping_add((v - start) as u128) & m;
                    let d = self.tm.int(x as i128);
                    cells_write(&mut self.tm, cells, *off, *size, d);
                }
                _ => {}
            }
        }
    }
    pub fn discriminant(&mut self, st: &mut State, a: Addr, ty: TyId) -> Result<T, String> {
        let p = self.p;
        let TyKind::Enum { variants, tag, discr_ty_bits, discr_signed, .. } = &p.tys[ty as usize].kind else {
            return Ok(self.tm.int(0));
        };
        let dv = |tm: &mut Terms, v: u32| -> T {
            let d = variants[v as usize].discr as i128;
            let m = 1i128 << *discr_ty_bits;
            let mut x = d.rem_euclid(m);
            if *discr_signed && x >= m / 2 {
                x -= m;
            }
            tm.int(x)
        };
        match tag {
            Tag::Empty => Ok(self.tm.int(0)),
            Tag::Single(v) => Ok(dv(&mut self.tm, *v)),
            Tag::Direct { off, size } => {
                let ta = Addr { obj: a.obj, off: self.tm.addc(a.off, *off as i128) };
                let t = self.read(st, ta, *size, &Kind::Int(*size as u16 * 8, *discr_signed))?;
                Ok(t)
            }
            Tag::Niche { off, size, untagged, start, end, niche_start } => {
                let ta = Addr { obj: a.obj, off: self.tm.addc(a.off, *off as i128) };
                let t = self.read(st, ta, *size, &Kind::Raw)?;
                if t == Terms::UNDEF {
                    return Ok(t);
                }
                let ud = dv(&mut self.tm, *untagged);
                if !self.tm.is_intlike(t) {
                    return Ok(ud);
                }
                let t = self.tm.wrap(t, *size as u16 * 8, false);
                let m = if *size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                let mut r = ud;
                for v in *start..=*end {
                    if v == *untagged {
                        continue;
                    }
                    let nv = niche_start.wrapping_add((v - start) as u128) & m;
                    let nv = self.tm.int(nv as i128);
                    let c = self.tm.eq(t, nv);
                    let d = dv(&mut self.tm, v);
                    r = self.tm.sel(c, d, r);
                }
                Ok(r)
            }
        }
    }

    fn stmt(&mut self, st: &mut State, s: &Stmt) -> Result<(), String> {
        match s {
            Stmt::Assign(pl, rv) => {
                let v = self.rvalue(st, rv, pl.ty)?;
                let (a, _) = self.place(st, pl)?;
                self.write_v(st, a, &v)
            }
            Stmt::SetDiscr(pl, v) => {
                let (a, _) = self.place(st, pl)?;
                let mut c: Cells = vec![];
                self.set_tag(&mut c, pl.ty, *v);
                for x in c {
                    let xa = Addr { obj: a.obj, off: self.tm.addc(a.off, x.off as i128) };
                    self.write_t(st, xa, x.v, x.size)?;
                }
                Ok(())
            }
            Stmt::StorageLive(l) | Stmt::StorageDead(l) => {
                let fr = st.stack.last().unwrap();
                let o = fr.base + l;
                let f = fr.func;
                let e = self.empty_locals(f);
                st.objs.insert(o, e[*l as usize].clone());
                Ok(())
            }
            Stmt::Assume(o) => {
                let c = self.op_t(st, o)?;
                if c != Terms::UNDEF && !self.assume(st, c) {
                    return Err("infeasible".into());
                }
                Ok(())
            }
            Stmt::CopyNonOverlapping { src, dst, count, elem } => {
                let (s, d, n) = (self.op_t(st, src)?, self.op_t(st, dst)?, self.op_t(st, count)?);
                let n = self.tm.mulc(n, *elem as i128);
                self.copy_bytes(st, d, s, n)
            }
            Stmt::Nop => Ok(()),
        }
    }

    // ------------------------------------------------------------------ control flow
    fn block(&mut self, st: State, fid: u32, bb: Bb) -> Vec<(Next, State)> {
        self.block_from(st, fid, bb, 0)
    }
    fn block_from(&mut self, mut st: State, fid: u32, bb: Bb, from: usize) -> Vec<(Next, State)> {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        let b = &f.blocks[bb as usize];
        self.stats.steps += 1 + b.stmts.len() as u64;
        if self.stats.steps > self.step_limit {
            if !self.aborted {
                self.event(&st, EvKind::Unsupported, "step limit".into());
            }
            self.aborted = true;
            return vec![];
        }
        for (i, (s, line)) in b.stmts.iter().enumerate().skip(from) {
            if let Some(fr) = st.stack.last_mut() {
                fr.line = *line;
                fr.file = f.file;
            }
            // a condition used as a number is decided both ways, as a branch would
            if let Stmt::Assign(_, Rv::Cast(CastK::Int, o, ft, _)) = s {
                if matches!(p.tys[*ft as usize].kind, TyKind::Bool) {
                    if let Ok(v) = self.operand(&mut st, o) {
                        let c = self.v_t(&v, &Kind::Bool);
                        if c != Terms::UNDEF && self.tm.as_int(c).is_none() && !self.tm.is_data(c) && self.decide(&st, c).is_none() {
                            let (x, y) = self.fork(st, c);
                            return [x, y].into_iter().flatten().flat_map(|s| self.block_from(s, fid, bb, i)).collect();
                        }
                    }
                }
            }
            if let Err(e) = self.stmt(&mut st, s) {
                if e != "infeasible" && e != "out of bounds" && !e.contains("invalid pointer") {
                    self.event(&st, EvKind::Unsupported, e);
                }
                return vec![];
            }
        }
        if let Some(fr) = st.stack.last_mut() {
            fr.line = b.line;
            fr.file = b.file;
        }
        match self.terminator(st, fid, bb) {
            Ok(v) => v,
            Err((st, e)) => {
                if e != "infeasible" && e != "out of bounds" && !e.contains("invalid pointer") {
                    self.event(&st, EvKind::Unsupported, e);
                }
                vec![]
            }
        }
    }

    /// split a state on a condition
    fn fork(&mut self, st: State, c: T) -> (Option<State>, Option<State>) {
        match self.decide(&st, c) {
            Some(b) => {
                if self.tm.as_int(c).is_none() && !self.tm.is_data(c) {
                    self.decisions += 1;
                }
                if b {
                    (Some(st), None)
                } else {
                    (None, Some(st))
                }
            }
            None => {
                if !self.tm.is_data(c) {
                    self.decisions += 1;
                }
                let nc = self.tm.not(c);
                let mut a = st.clone();
                let mut b = st;
                let fa = self.assume(&mut a, c);
                let fb = self.assume(&mut b, nc);
                (if fa { Some(a) } else { None }, if fb { Some(b) } else { None })
            }
        }
    }
    /// fork, with the values `keep` rewritten by what each side assumes
    pub fn fork_with(&mut self, mut st: State, c: T, keep: &[T]) -> (Option<(State, Vec<T>)>, Option<(State, Vec<T>)>) {
        let n = st.ghosts.len();
        st.ghosts.extend(keep);
        let (a, b) = self.fork(st, c);
        let cut = |s: Option<State>| {
            s.map(|mut s| {
                let v = s.ghosts.split_off(n);
                (s, v)
            })
        };
        (cut(a), cut(b))
    }

    /// a boolean atom or select condition inside an integer term that can be split on
    fn split_atom(&mut self, t: T) -> Option<T> {
        if self.tm.is_bool(t) {
            return Some(t);
        }
        match self.tm.n(t).clone() {
            N::Poly(p) => {
                for (m, _) in p.iter() {
                    for x in m {
                        if *x != 0 {
                            if let N::Sel(c, ..) = self.tm.n(*x) {
                                return Some(*c);
                            }
                            if self.tm.is_bool(*x) {
                                return Some(*x);
                            }
                        }
                    }
                }
                None
            }
            N::Sel(c, _, _) => Some(c),
            _ => None,
        }
    }
    pub fn resolve_with(&mut self, t: T, c: T, v: bool) -> T {
        // replace the condition by its truth value
        let one = self.tm.int(v as i128);
        let mut memo = Default::default();
        let r = self.tm.rewrite(t, c, one, &mut memo);
        let nc = self.tm.not(c);
        let z = self.tm.int(!v as i128);
        let mut memo = Default::default();
        self.tm.rewrite(r, nc, z, &mut memo)
    }

    fn switch(&mut self, st: State, op: T, targets: &[(u128, Bb)], otherwise: Bb, signed_bits: Option<u16>) -> Result<Vec<(Next, State)>, (State, String)> {
        let norm = |v: u128| -> i128 {
            match signed_bits {
                Some(b) if b < 128 => {
                    let sh = 128 - b as u32;
                    ((v << sh) as i128) >> sh
                }
                _ => v as i128,
            }
        };
        if let Some(c) = self.tm.as_int(op) {
            for (v, b) in targets {
                if norm(*v) == c {
                    return Ok(vec![(Next::Goto(*b), st)]);
                }
            }
            return Ok(vec![(Next::Goto(otherwise), st)]);
        }
        if op == Terms::UNDEF {
            return Err((st, "branch on an undefined value".into()));
        }
        if !self.tm.is_intlike(op) {
            // address used as an integer: only equality with null is decided
            return Ok(vec![(Next::Goto(otherwise), st)]);
        }
        if let Some(c) = self.split_atom(op) {
            let (a, b) = self.fork_with(st, c, &[op, c]);
            let mut out = vec![];
            for (s, v) in [(a, true), (b, false)] {
                if let Some((s, k)) = s {
                    let o = self.resolve_with(op, c, v);
                    // what the assumption says about the rest of the value
                    let o = if o == op { k[0] } else { o };
                    out.extend(self.switch(s, o, targets, otherwise, signed_bits)?);
                }
            }
            return Ok(out);
        }
        let mut out = vec![];
        let mut cur = Some((st, op));
        for (v, b) in targets {
            let Some((s, op)) = cur.take() else { break };
            let k = self.tm.int(norm(*v));
            let c = self.tm.eq(op, k);
            let (y, n) = self.fork_with(s, c, &[op]);
            if let Some((y, _)) = y {
                out.push((Next::Goto(*b), y));
            }
            cur = n.map(|(s, k)| (s, k[0]));
        }
        if let Some((s, _)) = cur {
            out.push((Next::Goto(otherwise), s));
        }
        Ok(out)
    }

    fn terminator(&mut self, mut st: State, fid: u32, bb: Bb) -> Result<Vec<(Next, State)>, (State, String)> {
        let p = self.p;
        let term = &p.funcs[fid as usize].blocks[bb as usize].term;
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => return Err((st, e)),
                }
            };
        }
        match term {
            Term::Goto(b) => Ok(vec![(Next::Goto(*b), st)]),
            Term::Return => Ok(vec![(Next::Ret, st)]),
            Term::Unreachable => {
                // reached only if an enum holds an impossible value or after unreachable_unchecked
                let own = p.funcs[fid as usize].krate == p.crate_name;
                let only = p.funcs[fid as usize].blocks[bb as usize].stmts.is_empty();
                if own && only && !self.tm.overflowed {
                    self.event(&st, EvKind::Unreachable, "unreachable code is reachable".into());
                }
                Ok(vec![])
            }
            Term::Resume | Term::Abort => Ok(vec![]),
            Term::Asm(t) => {
                self.event(&st, EvKind::Unsupported, "inline assembly".into());
                Ok(t.iter().map(|t| (Next::Goto(*t), st.clone())).collect())
            }
            Term::Switch { op, ty, targets, otherwise } => {
                let v = tri!(self.op_t(&mut st, op));
                let sb = match p.tys[*ty as usize].kind {
                    TyKind::Int { bits, signed: true } => Some(bits),
                    _ => None,
                };
                self.switch(st, v, targets, *otherwise, sb)
            }
            Term::Assert { cond, expected, kind, ops, target } => {
                let c = tri!(self.op_t(&mut st, cond));
                let c = if *expected { c } else { self.tm.not(c) };
                self.stats.asserts += 1;
                let (ok, bad) = self.fork(st, c);
                if let Some(mut b) = bad {
                    let mut m = kind.clone();
                    for o in ops {
                        if let Ok(t) = self.op_t(&mut b, o) {
                            m.push_str(&format!(" [{}]", self.tm.show(t)));
                        }
                    }
                    self.event(&b, EvKind::Panic, m);
                }
                Ok(ok.into_iter().map(|s| (Next::Goto(*target), s)).collect())
            }
            Term::Drop { place, glue, target } => {
                if let Some(g) = glue {
                    if self.drop_matters(*g) {
                        let (a, meta) = tri!(self.place(&mut st, place));
                        let pt = self.to_ptr(a);
                        let arg = match meta {
                            Some(m) => V::A(vec![Cell { off: 0, size: 8, v: pt }, Cell { off: 8, size: 8, v: m }], 16),
                            None => V::S(pt, 8),
                        };
                        let z = self.tm.int(0);
                        let outs = self.call(st, *g, vec![arg], Addr { obj: NOOBJ, off: z });
                        return Ok(outs.into_iter().map(|s| (Next::Goto(*target), s)).collect());
                    }
                }
                Ok(vec![(Next::Goto(*target), st)])
            }
            Term::Call { callee, args, dest, target } => {
                let mut vals = Vec::with_capacity(args.len());
                for a in args {
                    vals.push(tri!(self.operand(&mut st, a)));
                }
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let t = tri!(self.op_t(&mut st, o));
                        match self.tm.n(t) {
                            N::Fn(f) => *f,
                            _ => return Err((st, "call through an unknown function pointer".into())),
                        }
                    }
                };
                let (d, _) = tri!(self.place(&mut st, dest));
                if target.is_none() && !p.funcs[f as usize].has_body {
                    let m = self.panic_msg(&mut st, f, &vals);
                    self.event(&st, EvKind::Panic, m);
                    return Ok(vec![]);
                }
                // closures receive their argument tuple spread out
                let outs = self.call(st, f, vals, d);
                match target {
                    None => Ok(vec![]),
                    Some(t) => Ok(outs.into_iter().map(|s| (Next::Goto(*t), s)).collect()),
                }
            }
        }
    }
    fn panic_msg(&mut self, st: &mut State, f: u32, args: &[V]) -> String {
        let name = self.p.funcs[f as usize].path.clone();
        // a leading &str argument carries the message
        if let Some(V::A(c, 16)) = args.first() {
            let ptr = cells_read(&mut self.tm, c, 0, 8, &Kind::Ptr);
            let len = cells_read(&mut self.tm, c, 8, 8, &Kind::Int(64, false));
            if let (N::Ptr(o, off), Some(n)) = (self.tm.n(ptr).clone(), self.tm.as_int(len)) {
                if let (Some(ob), Some(off)) = (self.obj(st, o), self.tm.as_int(off)) {
                    if let ObjK::Mem { cells, size } = &*ob {
                        let mut s = vec![];
                        for i in 0..n.clamp(0, 120) {
                            if (off + i) as u64 >= *size {
                                break;
                            }
                            let b = cells_read(&mut self.tm, cells, (off + i) as u64, 1, &Kind::Int(8, false));
                            if let Some(b) = self.tm.as_int(b) {
                                s.push(b as u8);
                            }
                        }
                        return format!("{name}: {}", String::from_utf8_lossy(&s));
                    }
                }
            }
        }
        name
    }
    fn drop_matters(&mut self, g: u32) -> bool {
        if let Some(&b) = self.drop_matters.get(&g) {
            return b;
        }
        let mut seen = FxHashSet::default();
        let mut w = vec![g];
        let mut r = false;
        while let Some(f) = w.pop() {
            if !seen.insert(f) {
                continue;
            }
            let fu = &self.p.funcs[f as usize];
            // a drop that runs code of the crate, or std's guard that writes back a vector's length
            if (fu.krate == self.p.crate_name && fu.kind == FuncKind::Item) || fu.name.contains("SetLenOnDrop") {
                r = true;
                break;
            }
            for b in &fu.blocks {
                match &b.term {
                    Term::Call { callee: Callee::Direct(c), .. } => w.push(*c),
                    Term::Drop { glue: Some(c), .. } => w.push(*c),
                    _ => {}
                }
            }
        }
        self.drop_matters.insert(g, r);
        r
    }

    /// call a function; returns the states after it returned, with the result stored at `dest`
    pub fn call(&mut self, st: State, fid: u32, args: Vec<V>, dest: Addr) -> Vec<State> {
        if self.aborted {
            return vec![];
        }
        let fid = match self.redirect {
            Some((a, b)) if a == fid => b,
            _ => fid,
        };
        let p = self.p;
        let f = &p.funcs[fid as usize];
        self.stats.calls += 1;
        if !f.target_features.is_empty() {
            let missing: Vec<&String> = f.target_features.iter().filter(|x| !self.features.contains(*x)).collect();
            if !missing.is_empty() {
                let m = format!("call of {} which needs the CPU features {:?} that were not detected", f.name, missing);
                self.event(&st, EvKind::Feature, m);
            }
        }
        match self.model(st, fid, args, dest) {
            Ok(v) => v,
            Err((st, args)) => {
                let f = &p.funcs[fid as usize];
                if !f.has_body {
                    self.event(&st, EvKind::Unsupported, format!("no body for {} ({:?})", f.name, f.kind));
                    return vec![];
                }
                if self.depth > 180 {
                    self.event(&st, EvKind::Unsupported, "recursion".into());
                    return vec![];
                }
                self.enter(st, fid, args, dest)
            }
        }
    }

    fn enter(&mut self, mut st: State, fid: u32, mut args: Vec<V>, dest: Addr) -> Vec<State> {
        let p = self.p;
        let f = &p.funcs[fid as usize];
        self.stats.funcs.insert(fid);
        let base = self.next_obj;
        self.next_obj += f.locals.len() as u32;
        let e = self.empty_locals(fid);
        for (i, o) in e.iter().enumerate() {
            st.objs.insert(base + i as u32, o.clone());
        }
        // untuple for closures
        if args.len() != f.argc as usize {
            if args.len() >= 1 && (f.argc as usize) + 1 >= args.len() {
                let t = args.pop().unwrap();
                let cells = Self::cells_of(&t);
                let k = args.len();
                let rest = &f.locals[k + 1..=f.argc as usize];
                // field offsets of the tuple: recompute from the callee's parameter types
                let offs = self.tuple_offsets(&rest.iter().map(|l| l.ty).collect::<Vec<_>>(), Self::vsize(&t));
                match offs {
                    Some(offs) => {
                        for (l, o) in rest.iter().zip(offs) {
                            let sz = self.size_of(l.ty);
                            let c = cells_slice(&mut self.tm, &cells, o, sz);
                            args.push(V::A(c, sz));
                        }
                    }
                    None => {
                        self.event(&st, EvKind::Unsupported, format!("argument tuple of {}", f.name));
                        return vec![];
                    }
                }
            }
            if args.len() != f.argc as usize {
                self.event(&st, EvKind::Unsupported, format!("arity of {}: {} given", f.name, args.len()));
                return vec![];
            }
        }
        st.stack.push(Frame { func: fid, base, dobj: dest.obj, doff: dest.off, file: f.file, line: f.line });
        let z = self.tm.int(0);
        for (i, a) in args.iter().enumerate() {
            let sz = self.size_of(f.locals[i + 1].ty);
            if sz == 0 {
                continue;
            }
            let k = kind_of(p, f.locals[i + 1].ty);
            let a = if k != Kind::Raw {
                V::S(self.v_t(a, &k), sz)
            } else {
                V::A(Self::cells_of(a), sz)
            };
            if let Err(er) = self.write_v(&mut st, Addr { obj: base + 1 + i as u32, off: z }, &a) {
                self.event(&st, EvKind::Unsupported, er);
                return vec![];
            }
        }
        if self.trace {
            eprintln!("{}> {} {:?}", " ".repeat(self.depth as usize), f.name, args.iter().map(|a| self.show_v(a)).collect::<Vec<_>>());
        }
        self.depth += 1;
        let out = self.region(st, fid, 0, None);
        self.depth -= 1;
        let rty = f.locals[0].ty;
        let rsize = self.size_of(rty);
        let mut res = vec![];
        for mut s in out.rets {
            let fr = s.stack.last().unwrap().clone();
            let v = if rsize == 0 {
                V::A(vec![], 0)
            } else {
                match self.read_v(&mut s, Addr { obj: base, off: z }, rty) {
                    Ok(v) => v,
                    Err(e) => {
                        self.event(&s, EvKind::Unsupported, e);
                        continue;
                    }
                }
            };
            s.stack.pop();
            for i in 0..f.locals.len() as u32 {
                s.objs.remove(&(base + i));
            }
            if self.trace {
                eprintln!("{}< {} = {}", " ".repeat(self.depth as usize), f.name, self.show_v(&v));
            }
            if rsize > 0 && fr.dobj != NOOBJ {
                if let Err(e) = self.write_v(&mut s, Addr { obj: fr.dobj, off: fr.doff }, &v) {
                    self.event(&s, EvKind::Unsupported, e);
                    continue;
                }
            }
            res.push(s);
        }
        res
    }
    pub fn show_v(&self, v: &V) -> String {
        match v {
            V::S(t, _) => self.tm.show_d(*t, 4),
            V::A(c, n) => format!("<{n}>{{{}}}", c.iter().take(8).map(|c| format!("{}:{}", c.off, self.tm.show_d(c.v, 4))).collect::<Vec<_>>().join(", ")),
        }
    }
    fn tuple_offsets(&self, tys: &[TyId], size: u64) -> Option<Vec<u64>> {
        if tys.is_empty() {
            return Some(vec![]);
        }
        for t in &self.p.tys {
            if let TyKind::Tuple { fields } = &t.kind {
                if t.size == Some(size) && fields.len() == tys.len() && fields.iter().zip(tys).all(|(a, b)| a.1 == *b) {
                    return Some(fields.iter().map(|f| f.0).collect());
                }
            }
        }
        None
    }

    /// interpret the blocks of a function (or of one loop body) from `entry`
    fn region(&mut self, st: State, fid: u32, entry: Bb, lp: Option<usize>) -> Out {
        let cfg = self.cfg(fid);
        let mut out = Out::default();
        let mut pending: BTreeMap<usize, (Bb, Vec<State>)> = BTreeMap::new();
        pending.insert(cfg.rpo[entry as usize], (entry, vec![st]));
        let mut first = true;
        while let Some((&k, _)) = pending.iter().next() {
            let (bb, states) = pending.remove(&k).unwrap();
            if self.aborted {
                return out;
            }
            let states = if states.len() > 1 { self.join(states, fid, bb) } else { states };
            if states.len() > 3 && self.trace {
                for x in &states[1..] {
                    let y = &states[0];
                    let d = self.diff_cells(y, x).map(|d| d.iter().take(6).map(|x| format!("{}@{} {} / {}", x.0, x.1, self.tm.show_d(x.3, 4), self.tm.show_d(x.4, 4))).collect::<Vec<_>>());
                    let pr: Vec<String> = x.params.iter().zip(&y.params).filter(|(a, b)| a != b).map(|(a, b)| format!("{} / {}", self.tm.show(*a), self.tm.show(*b))).collect();
                    eprintln!("STATES {} {} bb{bb} eqs {:?} ghosts {} log {} {} params {pr:?} {d:?} ", states.len(), self.p.funcs[fid as usize].name, x.eqs.iter().map(|(a, b)| format!("{}={}", self.tm.show(*a), self.tm.show_d(*b, 5))).collect::<Vec<_>>(), x.ghosts == y.ghosts, x.log.len(), x.log == y.log);
                }
            }
            if states.len() > 64 {
                self.event(&states[0], EvKind::Unsupported, format!("{} abstract states at one program point", states.len()));
                return out;
            }
            for s in states {
                let is_header = cfg.header_of[bb as usize];
                if let (Some(l), false) = (is_header, lp.is_some() && first) {
                    let o = self.run_loop(s, fid, l);
                    for (b, s) in o.exits {
                        self.route(&cfg, lp, b, s, &mut out, &mut pending);
                    }
                    out.rets.extend(o.rets);
                    continue;
                }
                for (n, s) in self.block(s, fid, bb) {
                    match n {
                        Next::Ret => out.rets.push(s),
                        Next::Goto(b) => self.route(&cfg, lp, b, s, &mut out, &mut pending),
                    }
                }
            }
            first = false;
        }
        out
    }
    fn route(&mut self, cfg: &Cfg, lp: Option<usize>, b: Bb, s: State, out: &mut Out, pending: &mut BTreeMap<usize, (Bb, Vec<State>)>) {
        if let Some(l) = lp {
            if b == cfg.loops[l].header {
                out.backs.push(s);
                return;
            }
            if !cfg.loops[l].blocks.contains(&b) {
                out.exits.push((b, s));
                return;
            }
        }
        pending.entry(cfg.rpo[b as usize]).or_insert_with(|| (b, vec![])).1.push(s);
    }

    // ------------------------------------------------------------------ joins
    fn drop_dead(&mut self, st: &mut State, fid: u32, bb: Bb) {
        let cfg = self.cfg(fid);
        let base = st.stack.last().unwrap().base;
        let e = self.empty_locals(fid);
        for i in 0..e.len() {
            if !cfg.live[bb as usize][i] && !cfg.taken[i] {
                st.objs.insert(base + i as u32, e[i].clone());
            }
        }
        // an address-taken local that nothing mentions any more is dead once no reachable pointer leads to it
        let mut cand: FxHashSet<Obj> = (0..e.len())
            .filter(|i| cfg.taken[*i] && !cfg.live[bb as usize][*i])
            .map(|i| base + i as u32)
            .filter(|o| matches!(st.objs.get(o).map(|r| &**r), Some(ObjK::Mem { cells, .. }) if !cells.is_empty()))
            .collect();
        if cand.is_empty() {
            return;
        }
        let mut work: Vec<Obj> = st.objs.keys().copied().filter(|o| !cand.contains(o)).collect();
        for g in &st.ghosts {
            for o in self.tm.objs_of(*g).iter() {
                if cand.remove(o) {
                    work.push(*o);
                }
            }
        }
        for fr in &st.stack {
            if cand.remove(&fr.dobj) {
                work.push(fr.dobj);
            }
        }
        while let Some(o) = work.pop() {
            if cand.is_empty() {
                return;
            }
            if let Some(ObjK::Mem { cells, .. }) = st.objs.get(&o).map(|r| &**r) {
                for c in cells {
                    for q in self.tm.objs_of(c.v).iter() {
                        if cand.remove(q) {
                            work.push(*q);
                        }
                    }
                }
            }
        }
        for o in cand {
            st.objs.insert(o, e[(o - base) as usize].clone());
        }
    }
    fn join(&mut self, mut states: Vec<State>, fid: u32, bb: Bb) -> Vec<State> {
        for s in states.iter_mut() {
            self.drop_dead(s, fid, bb);
        }
        self.join_all(states)
    }
    pub fn join_all(&mut self, states: Vec<State>) -> Vec<State> {
        let mut res: Vec<State> = vec![];
        let mut work = states;
        work.reverse();
        'next: while let Some(s) = work.pop() {
            for i in 0..res.len() {
                let mut m = self.merge(&res[i], &s);
                if m.is_none() {
                    m = self.absorb(&res[i], &s);
                }
                if m.is_none() {
                    m = self.absorb(&s, &res[i]);
                }
                if let Some(m) = m {
                    res.remove(i);
                    work.push(m);
                    continue 'next;
                }
            }
            res.push(s);
        }
        res
    }
    /// in every run that `a` stands for, do the writes of `y` amount to those of `x`?
    fn same_log(&mut self, a: &State, x: &[Rc<Entry>], y: &[Rc<Entry>]) -> bool {
        let (mut i, mut j) = (0, 0);
        while j < y.len() {
            if i < x.len() && (Rc::ptr_eq(&x[i], &y[j]) || self.same_entry(a, &x[i], &y[j])) {
                i += 1;
                j += 1;
            } else if self.no_op(a, &y[j]) {
                j += 1;
            } else if i < x.len() && self.no_op(a, &x[i]) {
                i += 1;
            } else {
                return false;
            }
        }
        x[i..].iter().all(|e| self.no_op(a, e))
    }
    fn equal(&mut self, a: &State, x: T, y: T) -> bool {
        if x == y {
            return true;
        }
        if !self.tm.is_intlike(x) || !self.tm.is_intlike(y) || self.tm.is_data(x) || self.tm.is_data(y) {
            return false;
        }
        self.prove_ge(a, x, y) && self.prove_ge(a, y, x)
    }
    fn same_entry(&mut self, a: &State, x: &Entry, y: &Entry) -> bool {
        if x == y {
            return true;
        }
        match (x, y) {
            (Entry::Loop { k: k1, count: c1, body: b1 }, Entry::Loop { k: k2, count: c2, body: b2 }) => k1 == k2 && b1 == b2 && self.equal(a, *c1, *c2),
            (Entry::Copy { obj: o1, off: f1, len: l1, sobj: s1, soff: g1, site: t1 }, Entry::Copy { obj: o2, off: f2, len: l2, sobj: s2, soff: g2, site: t2 }) => {
                o1 == o2 && s1 == s2 && t1 == t2 && self.equal(a, *f1, *f2) && self.equal(a, *l1, *l2) && self.equal(a, *g1, *g2)
            }
            _ => false,
        }
    }
    fn no_op(&mut self, a: &State, e: &Entry) -> bool {
        match e {
            Entry::Loop { count, body, .. } => {
                let n = self.tm.neg(*count);
                self.prove(a, n) || body.iter().all(|e| self.no_op(a, e))
            }
            Entry::Copy { len, .. } | Entry::Fill { len, .. } => {
                let n = self.tm.neg(*len);
                self.prove(a, n)
            }
            Entry::Task { body, .. } => body.iter().all(|e| self.no_op(a, e)),
            _ => false,
        }
    }
    /// the value that is `x` if the condition holds and `y` otherwise, where that is a minimum or maximum
    fn picked(&mut self, c: T, a: &State, x: T, b: &State, y: T) -> Option<T> {
        if self.tm.as_int(x).is_some() || self.tm.as_int(y).is_some() || !self.tm.is_intlike(x) || !self.tm.is_intlike(y) {
            return None;
        }
        let N::Ge(d) = *self.tm.n(c) else { return None };
        let xy = self.tm.sub(x, y);
        let yx = self.tm.neg(xy);
        let e = self.tm.addc(d, 1);
        let max = match (d == xy || e == xy, d == yx || e == yx) {
            (true, _) => true,
            (_, true) => false,
            _ => return None,
        };
        let lo = if self.prove(a, x) && self.prove(b, y) { 0 } else { i128::MIN };
        Some(self.tm.minmax(max, x, y, lo))
    }
    fn merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.stack.len() != b.stack.len() || a.ghosts != b.ghosts || a.params != b.params {
            return None;
        }
        for (x, y) in a.stack.iter().zip(&b.stack) {
            if x.func != y.func || x.base != y.base || x.dobj != y.dobj || x.doff != y.doff {
                return None;
            }
        }
        let mut pre = 0;
        while pre < a.conds.len() && pre < b.conds.len() && a.conds[pre] == b.conds[pre] {
            pre += 1;
        }
        let one = self.tm.int(1);
        let mut ca = one;
        for c in &a.conds[pre..] {
            ca = self.tm.and(ca, *c);
        }
        let mut cb = one;
        for c in &b.conds[pre..] {
            cb = self.tm.and(cb, *c);
        }
        let nb = self.tm.not(cb);
        let sel_cond = if self.tm.as_int(ca).is_some() { nb } else { ca };
        let data = self.tm.is_data(sel_cond);
        // the two sides of a comparison that picks the smaller or the larger of two numbers
        let mut pick: Option<(T, T, T)> = None;
        // objects
        let mut diff: Vec<(Obj, Cells)> = vec![];
        let mut only_b: Vec<Obj> = vec![];
        let mut buflen = vec![];
        for (o, x) in &a.objs {
            match b.objs.get(o) {
                None => {}
                Some(y) if Rc::ptr_eq(x, y) => {}
                Some(y) => match (&**x, &**y) {
                    (ObjK::Mem { cells: c, size: s1 }, ObjK::Mem { cells: d, size: s2 }) => {
                        if s1 != s2 {
                            return None;
                        }
                        if c == d {
                            continue;
                        }
                        if c.len() != d.len() {
                            return None;
                        }
                        let mut m = Vec::with_capacity(c.len());
                        for (p, q) in c.iter().zip(d) {
                            if p.off != q.off || p.size != q.size {
                                return None;
                            }
                            if p.v == q.v {
                                m.push(p.clone());
                                continue;
                            }
                            let num = (self.tm.is_intlike(p.v) && self.tm.is_intlike(q.v)) || (self.tm.is_float(p.v) && self.tm.is_float(q.v));
                            if !num {
                                return None;
                            }
                            if !data {
                                match pick {
                                    None => pick = Some((p.v, q.v, self.picked(sel_cond, a, p.v, b, q.v)?)),
                                    Some(x) if (x.0, x.1) == (p.v, q.v) => {}
                                    _ => return None,
                                }
                            }
                            m.push(Cell { off: p.off, size: p.size, v: 0 });
                        }
                        diff.push((*o, m));
                    }
                    (x1, y1) => {
                        if x1 != y1 {
                            return None;
                        }
                        buflen.push(*o);
                    }
                },
            }
        }
        for o in b.objs.keys() {
            if !a.objs.contains_key(o) {
                only_b.push(*o);
            }
        }
        let mut log = None;
        let same_log = a.log.len() == b.log.len() && a.log.iter().zip(&b.log).all(|(x, y)| Rc::ptr_eq(x, y) || x == y);
        if !same_log {
            if self.same_log(a, &a.log, &b.log) {
                log = Some(b.log.clone());
            } else if !self.same_log(b, &b.log, &a.log) {
                return None;
            }
        }
        // commit
        let mut r = a.clone();
        if let Some(l) = log {
            r.log = l;
        }
        for o in only_b {
            r.objs.insert(o, b.objs[&o].clone());
        }
        for (o, m) in diff {
            let (ObjK::Mem { cells: c, size }, ObjK::Mem { cells: d, .. }) = (&*a.objs[&o], &*b.objs[&o]) else { unreachable!() };
            let mut out = Vec::with_capacity(m.len());
            for ((p, q), mm) in c.iter().zip(d).zip(m) {
                let v = match pick {
                    _ if p.v == q.v => p.v,
                    Some(x) => x.2,
                    None => self.tm.sel(sel_cond, p.v, q.v),
                };
                out.push(Cell { off: mm.off, size: mm.size, v });
            }
            r.objs.insert(o, Rc::new(ObjK::Mem { size: *size, cells: out }));
        }
        let or = self.tm.or(ca, cb);
        let or = self.tm.bool_simp(or);
        r.conds.truncate(pre);
        if self.tm.as_int(or).is_none() {
            r.conds.push(or);
        }
        // facts: keep the common ones, and those one side implies
        let mut facts = vec![];
        for f in &a.facts {
            if b.facts.contains(f) {
                facts.push(*f);
            }
        }
        if self.trace {
            let tm = &self.tm;
            for (n, o) in [(a, b), (b, a)] {
                eprintln!("MERGE drops {:?}", n.facts.iter().filter(|f| !o.facts.contains(f)).map(|f| tm.show(*f)).collect::<Vec<_>>());
            }
        }
        r.facts = facts;
        r.eqs.truncate(common(&a.eqs, &b.eqs));
        Some(r)
    }
    /// `a` as an instance of `b`: what holds in `a` follows from `b` by the equalities `a` has assumed
    fn absorb(&mut self, a: &State, b: &State) -> Option<State> {
        let pre = common(&a.eqs, &b.eqs);
        let n = a.eqs.len() - pre;
        if n == 0 || n > 4 || a.eqs.len() == b.eqs.len() || b.eqs.len() != pre || a.stack.len() != b.stack.len() {
            return None;
        }
        let mut i = b.clone();
        let mut l = State { log: a.log.clone(), ..State::new() };
        for (f, t) in &a.eqs[pre..] {
            i.subst(&mut self.tm, *f, *t);
            l.subst(&mut self.tm, *f, *t);
        }
        if a.ghosts != i.ghosts || a.params != i.params {
            return None;
        }
        for (x, y) in a.stack.iter().zip(&i.stack) {
            if x.func != y.func || x.base != y.base || x.dobj != y.dobj || x.doff != y.doff {
                return None;
            }
        }
        for (o, x) in &a.objs {
            if i.objs.get(o).is_some_and(|y| x != y) {
                return None;
            }
        }
        if !self.same_log(a, &l.log, &i.log) {
            return None;
        }
        let mut r = b.clone();
        for (o, x) in &a.objs {
            if !r.objs.contains_key(o) {
                r.objs.insert(*o, x.clone());
            }
        }
        let mut cp = 0;
        while cp < a.conds.len() && cp < b.conds.len() && a.conds[cp] == b.conds[cp] {
            cp += 1;
        }
        let one = self.tm.int(1);
        let (mut ca, mut cb) = (one, one);
        for c in &a.conds[cp..] {
            ca = self.tm.and(ca, *c);
        }
        for (f, t) in &a.eqs[pre..] {
            let d = self.tm.sub(*f, *t);
            let e = self.tm.eq0(d);
            ca = self.tm.and(ca, e);
        }
        for c in &b.conds[cp..] {
            cb = self.tm.and(cb, *c);
        }
        let or = self.tm.or(ca, cb);
        let or = self.tm.bool_simp(or);
        r.conds.truncate(cp);
        if self.tm.as_int(or).is_none() {
            r.conds.push(or);
        }
        r.facts.clear();
        for f in &b.facts {
            let mut g = *f;
            for (x, y) in &a.eqs[pre..] {
                g = self.tm.rewrite(g, *x, *y, &mut FxHashMap::default());
            }
            if a.facts.contains(f) || self.prove(a, g) {
                r.facts.push(*f);
            }
        }
        Some(r)
    }

    // ------------------------------------------------------------------ loops
    fn run_loop(&mut self, st: State, fid: u32, l: usize) -> Out {
        self.stats.loops += 1;
        let cfg = self.cfg(fid);
        let header = cfg.loops[l].header;
        let mut cur = st;
        let mut out = Out::default();
        let mut tried = false;
        let mut iters = 0;
        loop {
            iters += 1;
            if self.aborted {
                return out;
            }
            self.drop_dead(&mut cur, fid, header);
            let ev0 = self.events.len();
            let d0 = self.decisions;
            let snapshot = cur.clone();
            let mut o = self.region(cur, fid, header, Some(l));
            let symbolic = self.decisions != d0;
            if o.backs.len() > 1 {
                o.backs = self.join(std::mem::take(&mut o.backs), fid, header);
            }
            if symbolic && !o.backs.is_empty() && !tried {
                // try to accelerate from the state before this iteration
                let evs = self.events.split_off(ev0);
                match self.accelerate(snapshot, &o.backs[0], fid, l) {
                    Some(acc) => {
                        out.exits.extend(acc.exits);
                        out.rets.extend(acc.rets);
                        return out;
                    }
                    None => {
                        self.events.truncate(ev0);
                        self.events.extend(evs);
                        // iterations are unrolled; try again only once more after the first iteration
                        tried = iters >= 2;
                    }
                }
            }
            out.exits.extend(o.exits);
            out.rets.extend(o.rets);
            match o.backs.len() {
                0 => return out,
                1 => cur = o.backs.pop().unwrap(),
                n => {
                    if self.trace {
                        eprintln!("PART {n} {} depth {}", self.p.funcs[fid as usize].name, out.exits.len());
                        for b in &o.backs {
                            eprintln!("   FACTS {:?}", b.facts.iter().map(|c| self.tm.show(*c)).collect::<Vec<_>>());
                            eprintln!("   {:?}", b.conds.iter().map(|c| self.tm.show(*c)).collect::<Vec<_>>());
                        }
                        for i in 1..n {
                            let d = self.diff_cells(&o.backs[0], &o.backs[i]);
                            eprintln!("   diff {:?}", d.map(|d| d.iter().map(|x| format!("{}@{} {} / {}", x.0, x.1, self.tm.show_d(x.3, 4), self.tm.show_d(x.4, 4))).collect::<Vec<_>>()));
                        }
                    }
                    // partitioned iterations: follow each separately
                    self.parts += n as u32;
                    if self.parts > 200 {
                        self.event(&o.backs[0], EvKind::Unsupported, "too many loop iterations with several abstract states".into());
                        return out;
                    }
                    for b in o.backs {
                        if iters > 8 {
                            self.event(&b, EvKind::Unsupported, format!("loop with {n} abstract states per iteration"));
                            return out;
                        }
                        let o2 = self.run_loop(b, fid, l);
                        out.exits.extend(o2.exits);
                        out.rets.extend(o2.rets);
                    }
                    return out;
                }
            }
            let lim = if symbolic { 70 } else { 20000 };
            if iters > lim {
                self.event(&cur, EvKind::Unsupported, "loop without a derivable trip count".into());
                return out;
            }
        }
    }

    /// cells that differ between two states, for objects that exist in both
    fn diff_cells(&self, a: &State, b: &State) -> Option<Vec<(Obj, u64, u64, T, T)>> {
        let mut out = vec![];
        for (o, x) in &a.objs {
            let Some(y) = b.objs.get(o) else { return None };
            if Rc::ptr_eq(x, y) || x == y {
                continue;
            }
            match (&**x, &**y) {
                (ObjK::Mem { cells: c, .. }, ObjK::Mem { cells: d, .. }) => {
                    let mut i = 0;
                    let mut j = 0;
                    while i < c.len() || j < d.len() {
                        if i < c.len() && j < d.len() && c[i].off == d[j].off && c[i].size == d[j].size {
                            if c[i].v != d[j].v {
                                out.push((*o, c[i].off, c[i].size, c[i].v, d[j].v));
                            }
                            i += 1;
                            j += 1;
                        } else if j >= d.len() || (i < c.len() && c[i].off < d[j].off) {
                            out.push((*o, c[i].off, c[i].size, c[i].v, Terms::UNDEF));
                            i += 1;
                        } else if i >= c.len() || d[j].off < c[i].off {
                            out.push((*o, d[j].off, d[j].size, Terms::UNDEF, d[j].v));
                            j += 1;
                        } else {
                            out.push((*o, c[i].off, c[i].size, c[i].v, Terms::UNDEF));
                            i += 1;
                            j += 1;
                        }
                    }
                }
                _ => return None,
            }
        }
        out.sort_unstable();
        Some(out)
    }
    fn delta(&mut self, a: T, b: T) -> Option<T> {
        match (self.tm.n(a).clone(), self.tm.n(b).clone()) {
            (N::Ptr(o, x), N::Ptr(p, y)) if o == p => Some(self.tm.sub(y, x)),
            (N::Ptr(..), _) | (_, N::Ptr(..)) => None,
            _ if self.tm.is_intlike(a) && self.tm.is_intlike(b) && !self.tm.is_data(a) && !self.tm.is_data(b) => Some(self.tm.sub(b, a)),
            _ => None,
        }
    }
    fn set_cell(&mut self, st: &mut State, o: Obj, off: u64, size: u64, v: T) {
        let tm = &mut self.tm;
        if let Some(rc) = st.objs.get_mut(&o) {
            if let ObjK::Mem { cells, .. } = Rc::make_mut(rc) {
                if v == Terms::UNDEF {
                    cells_clear(tm, cells, off, size);
                } else {
                    cells_write(tm, cells, off, size, v);
                }
            }
        }
    }
    fn get_cell(&self, st: &State, o: Obj, off: u64, size: u64) -> T {
        match st.objs.get(&o).map(|x| &**x) {
            Some(ObjK::Mem { cells, .. }) => cells.iter().find(|c| c.off == off && c.size == size).map(|c| c.v).unwrap_or(Terms::UNDEF),
            _ => Terms::UNDEF,
        }
    }

    /// a step of +-min(p, x) where x itself shrinks by that minimum
    fn clamp_of(&mut self, st: &State, d: T, now: &[(T, T)]) -> Option<(T, T, i128)> {
        let v = self.tm.poly(d);
        let [(m, s)] = v[..] else { return None };
        if m[1] != 0 || m[0] == 0 || s.abs() != 1 {
            return None;
        }
        let N::IOp { k: IK::Min, a, .. } = self.tm.n(m[0]).clone() else { return None };
        let [a, b] = a[..] else { return None };
        let neg = self.tm.neg(m[0]);
        for (p, x) in [(a, b), (b, a)] {
            if now.iter().any(|(i, d)| *i == x && *d == neg) && self.prove(st, x) {
                return Some((p, x, s));
            }
        }
        None
    }
    fn few(&mut self, st: &State, b: T) -> bool {
        let n = self.tm.neg(b);
        let n = self.tm.addc(n, 64);
        self.prove(st, n)
    }
    /// d = 0, deciding each minimum in it both ways
    fn zero_by_cases(&mut self, st: &State, d: T, depth: u32) -> bool {
        let n = self.tm.neg(d);
        if self.prove(st, d) && self.prove(st, n) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        let mut todo = vec![d];
        let mut seen: FxHashSet<T> = Default::default();
        let mut mins = vec![];
        while let Some(t) = todo.pop() {
            if seen.insert(t) {
                if matches!(self.tm.n(t), N::IOp { k: IK::Min, a, .. } if a.len() == 2) {
                    mins.push(t);
                }
                todo.extend(self.tm.children(t));
            }
        }
        let Some(m) = mins.into_iter().min() else { return false };
        let N::IOp { a, .. } = self.tm.n(m).clone() else { return false };
        for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
            let mut s = st.clone();
            let g = self.tm.sub(y, x);
            self.add_fact(&mut s, g);
            let An { tm, .. } = self;
            s.subst(tm, m, x);
            let e = tm.rewrite(d, m, x, &mut FxHashMap::default());
            if !self.zero_by_cases(&s, e, depth - 1) {
                return false;
            }
        }
        true
    }
    /// b - min(a, b) >= c > 0: the minimum is a;  min(a, b) >= b: it is b
    fn pin_min(&mut self, st: &mut State, p: T) {
        let v = self.tm.poly(p);
        for (m, k) in v {
            if m[1] != 0 || m[0] == 0 || k.abs() != 1 {
                continue;
            }
            let N::IOp { k: IK::Min, a, .. } = self.tm.n(m[0]).clone() else { continue };
            if a.len() != 2 || a.iter().any(|x| self.tm.as_int(*x).is_some()) {
                continue;
            }
            for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                // p = y - m - c
                let by = if k < 0 { self.tm.add(p, m[0]) } else { self.tm.sub(p, m[0]) };
                let r = if k < 0 { self.tm.sub(by, y) } else { self.tm.add(by, y) };
                let Some(r) = self.tm.as_int(r) else { continue };
                if k < 0 && r < 0 {
                    st.subst(&mut self.tm, m[0], x);
                    return;
                }
                if k > 0 && r <= 0 {
                    let g = self.tm.sub(x, y);
                    self.add_fact(st, g);
                    st.subst(&mut self.tm, m[0], y);
                    return;
                }
            }
        }
    }

    fn accelerate(&mut self, s0: State, s1: &State, fid: u32, l: usize) -> Option<Out> {
        self.acc_depth += 1;
        let r = self.accelerate_(s0, s1, fid, l);
        self.acc_depth -= 1;
        r
    }
    fn accelerate_(&mut self, s0: State, s1: &State, fid: u32, l: usize) -> Option<Out> {
        let cfg = self.cfg(fid);
        let header = cfg.loops[l].header;
        let diffs = self.diff_cells(&s0, s1)?;
        // classify
        #[derive(Clone)]
        struct C {
            o: Obj,
            off: u64,
            size: u64,
            init: T,
            delta: Option<T>,
            /// the value is init + s * min(k * c, x): what is consumed in pieces of c out of x
            clamp: Option<(T, T, i128)>,
            /// part of the induction hypothesis: the value stays within its type
            inrange: Option<(i128, i128)>,
        }
        fn closed(an: &mut An, c: &C, d: T, k: T) -> T {
            match c.clamp {
                None => {
                    let kd = an.tm.mul(k, d);
                    an.ptr_addt(c.init, kd)
                }
                Some((p, x, s)) => {
                    let kc = an.tm.mul(k, p);
                    let m = an.tm.minmax(false, kc, x, 0);
                    let m = an.tm.mulc(m, s);
                    an.ptr_addt(c.init, m)
                }
            }
        }
        let mut cells: Vec<C> = vec![];
        for (o, off, size, a, b) in diffs {
            let delta = self.delta(a, b);
            let inrange = match delta {
                Some(_) if self.tm.is_intlike(a) && size <= 8 => {
                    let bits = size as u16 * 8;
                    let (ul, uh) = int_range(bits, false);
                    let (sl, sh) = int_range(bits, true);
                    if self.tm.range(a).0 >= 0 {
                        let ok = self.fits(&s0, a, bits, false);
                        ok.then_some((ul, uh))
                    } else if self.fits(&s0, a, bits, false) {
                        Some((ul, uh))
                    } else if self.fits(&s0, a, bits, true) {
                        Some((sl, sh))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            cells.push(C { o, off, size, init: a, delta, clamp: None, inrange });
        }
        let now: Vec<(T, T)> = cells.iter().filter_map(|c| c.delta.map(|d| (c.init, d))).collect();
        for c in &mut cells {
            if let Some(d) = c.delta {
                c.clamp = self.clamp_of(&s0, d, &now);
            }
        }
        if !cells.iter().any(|c| c.delta.is_some()) {
            return None;
        }
        let k = self.tm.sym("k", 0, (1i128 << 64) - 1);
        let mut bounds: Vec<T> = vec![]; // header facts k <= bound
        let mut have_bounds = false;
        let mut rounds = 0;
        let ev0 = self.events.len();
        loop {
            rounds += 1;
            if rounds > 8 {
                return None;
            }
            self.events.truncate(ev0);
            let mut h = s0.clone();
            h.log = vec![];
            for c in &cells {
                let v = match c.delta {
                    Some(d) => closed(self, c, d, k),
                    None => {
                        if c.init == Terms::UNDEF {
                            Terms::UNDEF
                        } else if self.tm.is_float(c.init) {
                            self.tm.funk()
                        } else if self.tm.is_intlike(c.init) && c.size <= 8 {
                            let (lo, hi) = int_range(c.size as u16 * 8, self.tm.range(c.init).0 < 0);
                            self.tm.unk("havoc", lo, hi)
                        } else {
                            Terms::UNDEF
                        }
                    }
                };
                self.set_cell(&mut h, c.o, c.off, c.size, v);
                if let (Some((lo, hi)), Some(_)) = (c.inrange, c.delta) {
                    let f = self.tm.addc(v, -lo);
                    self.add_fact(&mut h, f);
                    let f = self.tm.neg(v);
                    let f = self.tm.addc(f, hi);
                    self.add_fact(&mut h, f);
                }
            }
            for b in &bounds {
                let f = self.tm.sub(*b, k);
                self.add_fact(&mut h, f);
            }
            // ghosts: everything the verification below refers to
            let gbase = h.ghosts.len();
            h.ghosts.push(k);
            for c in &cells {
                h.ghosts.push(match c.delta {
                    Some(d) => {
                        let k1 = self.tm.addc(k, 1);
                        closed(self, c, d, k1)
                    }
                    None => Terms::UNDEF,
                });
            }
            let hfacts = h.facts.clone();
            let hconds = h.conds.len();
            let href = h.clone();
            let d0 = self.decisions;
            let mut o = self.region(h, fid, header, Some(l));
            let _ = d0;
            if self.aborted {
                return None;
            }
            if o.backs.len() > 1 {
                o.backs = self.join(std::mem::take(&mut o.backs), fid, header);
            }
            if o.backs.len() > 1 {
                return None;
            }
            if o.backs.is_empty() {
                return None;
            }
            let mut s2 = o.backs.pop().unwrap();
            self.drop_dead(&mut s2, fid, header);
            // verify induction
            let mut ok = true;
            // the values at the start of the iteration and how the iteration changed them
            let mut steps: Vec<Option<(T, T)>> = vec![];
            for c in &cells {
                let cur = self.get_cell(&href, c.o, c.off, c.size);
                let got = self.get_cell(&s2, c.o, c.off, c.size);
                let kk = s2.ghosts[gbase];
                steps.push(match c.delta {
                    Some(_) if kk == k && cur != Terms::UNDEF && got != Terms::UNDEF => self.delta(cur, got).map(|d| (cur, d)),
                    _ => None,
                });
            }
            let inits: Vec<T> = cells.iter().map(|c| c.init).collect();
            for (i, c) in cells.iter_mut().enumerate() {
                if c.delta.is_some() {
                    let want = s2.ghosts[gbase + 1 + i];
                    let mut got = self.get_cell(&s2, c.o, c.off, c.size);
                    if let N::IOp { k: IK::Wrap { bits, signed }, a, .. } = self.tm.n(got).clone() {
                        if self.fits(&s2, a[0], bits, signed) {
                            got = a[0];
                        }
                    }
                    if let Some((lo, hi)) = c.inrange {
                        let a = self.tm.addc(want, -lo);
                        let b = self.tm.neg(want);
                        let b = self.tm.addc(b, hi);
                        if !self.prove(&s2, a) || !self.prove(&s2, b) {
                            c.inrange = None;
                            ok = false;
                        }
                    }
                    if got != want {
                        // maybe equal under the facts
                        let eq = match self.delta(want, got) {
                            Some(d) => {
                                let n = self.tm.neg(d);
                                self.prove(&s2, d) && self.prove(&s2, n) || c.clamp.is_some() && self.zero_by_cases(&s2, d, 4)
                            }
                            None => false,
                        };
                        if !eq {
                            // consumed in pieces, the last of which may be shorter
                            let mut cl = None;
                            if let (None, Some((_, d))) = (c.clamp, steps[i]) {
                                let now: Vec<(T, T)> = steps.iter().flatten().copied().collect();
                                if let Some((p, x, s)) = self.clamp_of(&s2, d, &now) {
                                    let j = steps.iter().position(|y| y.is_some_and(|y| y.0 == x));
                                    if let Some(j) = j {
                                        let x0 = inits[j];
                                        if self.prove(&s0, x0) && !self.tm.has(p, k) {
                                            cl = Some((p, x0, s));
                                        }
                                    }
                                }
                            }
                            match cl {
                                Some(_) => c.clamp = cl,
                                None => c.delta = None,
                            }
                            ok = false;
                        }
                    }
                }
            }
            // every other cell unchanged
            let again = self.diff_cells(&href, &s2)?;
            for (o2, off, size, a, b) in again {
                if !cells.iter().any(|c| c.o == o2 && c.off == off && c.size == size) {
                    let _ = (a, b);
                    // cells that only change in later iterations
                    let init = self.get_cell(&s0, o2, off, size);
                    cells.push(C { o: o2, off, size, init, delta: None, clamp: None, inrange: None });
                    ok = false;
                }
            }
            if !ok {
                bounds.clear();
                have_bounds = false;
                continue;
            }
            // trip count from the facts gained before the back edge
            if !have_bounds {
                let kk = s2.ghosts[gbase];
                if kk != k {
                    return None;
                }
                let mut cand = vec![];
                for f in &s2.facts {
                    if hfacts.contains(f) {
                        continue;
                    }
                    let pl = self.tm.poly(*f);
                    let mut ck = 0;
                    let mut bad = false;
                    for (m, c) in &pl {
                        if *m == [k, 0, 0, 0] {
                            ck = *c;
                        } else if m.iter().any(|x| *x != 0 && self.tm.has(*x, k)) {
                            bad = true;
                        }
                    }
                    if bad || ck >= 0 {
                        continue;
                    }
                    let rest: Vec<(Mono, i128)> = pl.iter().filter(|x| x.0 != [k, 0, 0, 0]).cloned().collect();
                    // depends only on values that exist before the loop
                    let a = self.tm.mk_poly(rest);
                    let c = -ck;
                    let ac = self.tm.addc(a, c);
                    let kb = self.tm.divc(ac, c);
                    if self.prove(&s0, kb) {
                        cand.push(kb);
                    }
                }
                // each of them holds at the header; the ones that depend on the input are the interesting ones
                cand.sort_by_key(|b| self.tm.as_int(*b).is_some());
                cand.dedup();
                cand.truncate(4);
                have_bounds = true;
                let pieces = cells.iter().any(|c| c.clamp.is_some());
                if !cand.is_empty() {
                    if cand.iter().any(|b| self.tm.as_int(*b).is_some_and(|n| n <= 64)) || pieces && cand.iter().any(|b| self.few(&s0, *b)) {
                        // constant trip count: unroll instead
                        return None;
                    }
                    bounds = cand;
                    continue;
                }
                if pieces {
                    return None;
                }
                // no bound found: accept without one
            }
            // body log with its own bound variable
            // (the same one for every loop at this nesting, so that logs of equal effect are equal)
            let kb = self.tm.bound_var(self.acc_depth);
            if cells.iter().any(|c| c.clamp.is_some()) {
                crate::conv::resolve_minmax(self, &mut s2);
            }
            let mut memo = FxHashMap::default();
            let mut body = vec![];
            for e in &s2.log {
                let tm = &mut self.tm;
                let n = rewrite_entry(e, &mut |t| tm.rewrite(t, k, kb, &mut memo));
                body.push(n.map(Rc::new).unwrap_or_else(|| e.clone()));
            }
            let body = Rc::new(body);
            let finish = |an: &mut Self, mut s: State| -> Option<State> {
                let kk = s.ghosts[gbase];
                s.ghosts.truncate(gbase);
                let partial = std::mem::take(&mut s.log);
                s.log = s0.log.clone();
                if !body.is_empty() {
                    s.log.push(Rc::new(Entry::Loop { k: kb, count: kk, body: body.clone() }));
                }
                s.log.extend(partial);
                // drop conditions about the iteration that no longer matter
                let _ = hconds;
                if kk == k {
                    for b in &bounds {
                        let d = an.tm.sub(k, *b);
                        if an.prove(&s, d) {
                            s.subst(&mut an.tm, k, *b);
                            break;
                        }
                    }
                }
                Some(s)
            };
            // s0's log may mention symbols that were substituted inside the loop: only the exit states matter
            let mut res = Out::default();
            for (b, s) in o.exits {
                if let Some(s) = finish(self, s) {
                    res.exits.push((b, s));
                }
            }
            for s in o.rets {
                if let Some(s) = finish(self, s) {
                    res.rets.push(s);
                }
            }
            return Some(res);
        }
    }
}
