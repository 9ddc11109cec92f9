//! Abstract machine state: memory objects, path facts, the log of writes to image buffers.
use crate::term::*;
use rustc_hash::FxHashMap;
use std::rc::Rc;

pub type Obj = u32;

#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub off: u64,
    pub size: u64,
    pub v: T,
}
pub type Cells = Vec<Cell>;

#[derive(Clone, Debug, PartialEq)]
pub enum BufKind {
    /// caller-provided image plane
    Plane { img: u32, plane: u32 },
    /// caller-provided memory of another kind
    Param(u32),
    Heap { zeroed: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub enum ObjK {
    Mem { size: u64, cells: Cells },
    Buf { len: T, kind: BufKind },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Site {
    pub func: u32,
    pub file: u32,
    pub line: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Store { obj: Obj, off: T, size: u64, val: T, site: Site },
    Copy { obj: Obj, off: T, len: T, sobj: Obj, soff: T, site: Site },
    Fill { obj: Obj, off: T, len: T, val: T, site: Site },
    Loop { k: T, count: T, body: Rc<Vec<Rc<Entry>>> },
    /// writes of one parallel task
    Task { id: T, body: Rc<Vec<Rc<Entry>>> },
    /// call into a modelled external component
    Ext { name: String, args: Vec<T>, site: Site },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub func: u32,
    pub base: Obj,
    pub dobj: Obj,
    pub doff: T,
    /// current location
    pub file: u32,
    pub line: u32,
}

#[derive(Clone)]
pub struct State {
    pub objs: FxHashMap<Obj, Rc<ObjK>>,
    pub facts: Vec<T>,
    pub conds: Vec<T>,
    pub log: Vec<Rc<Entry>>,
    pub stack: Vec<Frame>,
    pub ghosts: Vec<T>,
    pub params: Vec<T>,
    /// equalities that have been used to rewrite this state
    pub eqs: Vec<(T, T)>,
}

impl State {
    pub fn new() -> State {
        State { objs: Default::default(), facts: vec![], conds: vec![], log: vec![], stack: vec![], ghosts: vec![], params: vec![], eqs: vec![] }
    }
    pub fn subst(&mut self, tm: &mut Terms, from: T, to: T) {
        self.eqs.push((from, to));
        let mut memo = FxHashMap::default();
        let mut rw = |t: T| tm.rewrite(t, from, to, &mut memo);
        let mut changed = false;
        for f in self.facts.iter_mut() {
            let n = rw(*f);
            changed |= n != *f;
            *f = n;
        }
        for c in self.conds.iter_mut().chain(self.ghosts.iter_mut()).chain(self.params.iter_mut()) {
            *c = rw(*c);
        }
        for fr in self.stack.iter_mut() {
            fr.doff = rw(fr.doff);
        }
        for o in self.objs.values_mut() {
            let dirty = match &**o {
                ObjK::Mem { cells, .. } => cells.iter().any(|c| rw(c.v) != c.v),
                ObjK::Buf { len, .. } => rw(*len) != *len,
            };
            if dirty {
                match Rc::make_mut(o) {
                    ObjK::Mem { cells, .. } => {
                        for c in cells.iter_mut() {
                            c.v = rw(c.v);
                        }
                    }
                    ObjK::Buf { len, .. } => *len = rw(*len),
                }
            }
        }
        for e in self.log.iter_mut() {
            if let Some(n) = rewrite_entry(e, &mut rw) {
                *e = Rc::new(n);
            }
        }
        if changed {
            self.facts.retain(|f| tm.range(*f).0 < 0);
        }
        self.conds.retain(|c| tm.as_int(*c) != Some(1));
    }
}

pub fn rewrite_entry(e: &Entry, rw: &mut dyn FnMut(T) -> T) -> Option<Entry> {
    match e {
        Entry::Store { obj, off, size, val, site } => {
            let (o, v) = (rw(*off), rw(*val));
            if (o, v) == (*off, *val) {
                None
            } else {
                Some(Entry::Store { obj: *obj, off: o, size: *size, val: v, site: site.clone() })
            }
        }
        Entry::Copy { obj, off, len, sobj, soff, site } => {
            let (o, l, s) = (rw(*off), rw(*len), rw(*soff));
            if (o, l, s) == (*off, *len, *soff) {
                None
            } else {
                Some(Entry::Copy { obj: *obj, off: o, len: l, sobj: *sobj, soff: s, site: site.clone() })
            }
        }
        Entry::Fill { obj, off, len, val, site } => {
            let (o, l, s) = (rw(*off), rw(*len), rw(*val));
            if (o, l, s) == (*off, *len, *val) {
                None
            } else {
                Some(Entry::Fill { obj: *obj, off: o, len: l, val: s, site: site.clone() })
            }
        }
        Entry::Loop { k, count, body } => {
            let c = rw(*count);
            let mut ch = c != *count;
            let b: Vec<Rc<Entry>> = body
                .iter()
                .map(|e| match rewrite_entry(e, rw) {
                    Some(n) => {
                        ch = true;
                        Rc::new(n)
                    }
                    None => e.clone(),
                })
                .collect();
            if ch {
                Some(Entry::Loop { k: *k, count: c, body: Rc::new(b) })
            } else {
                None
            }
        }
        Entry::Task { id, body } => {
            let c = rw(*id);
            let mut ch = c != *id;
            let b: Vec<Rc<Entry>> = body
                .iter()
                .map(|e| match rewrite_entry(e, rw) {
                    Some(n) => {
                        ch = true;
                        Rc::new(n)
                    }
                    None => e.clone(),
                })
                .collect();
            if ch {
                Some(Entry::Task { id: c, body: Rc::new(b) })
            } else {
                None
            }
        }
        Entry::Ext { name, args, site } => {
            let a: Vec<T> = args.iter().map(|x| rw(*x)).collect();
            if a == *args {
                None
            } else {
                Some(Entry::Ext { name: name.clone(), args: a, site: site.clone() })
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Int(u16, bool),
    Bool,
    Float(u16),
    Ptr,
    Raw,
}

/// sorted-cells helpers
pub fn cells_overlap(cells: &[Cell], off: u64, size: u64) -> (usize, usize) {
    let a = cells.partition_point(|c| c.off + c.size <= off);
    let mut b = a;
    while b < cells.len() && cells[b].off < off + size {
        b += 1;
    }
    (a, b)
}

pub fn cells_read(tm: &mut Terms, cells: &[Cell], off: u64, size: u64, kind: &Kind) -> T {
    let (a, b) = cells_overlap(cells, off, size);
    let raw = if b - a == 1 && cells[a].off == off && cells[a].size == size {
        cells[a].v
    } else if a == b {
        return Terms::UNDEF;
    } else {
        // assemble
        let mut acc = tm.int(0);
        let mut covered = 0;
        for c in &cells[a..b] {
            let lo = c.off.max(off);
            let hi = (c.off + c.size).min(off + size);
            covered += hi - lo;
            if c.v == Terms::UNDEF {
                return Terms::UNDEF;
            }
            let v = part(tm, c, lo - c.off, hi - lo);
            let v = to_uint(tm, v, hi - lo);
            let v = tm.mulc(v, 1i128 << (8 * (lo - off)));
            acc = tm.add(acc, v);
        }
        if covered != size {
            return Terms::UNDEF;
        }
        acc
    };
    typed(tm, raw, size, kind)
}

pub fn to_uint(tm: &mut Terms, v: T, size: u64) -> T {
    if tm.is_float(v) {
        return tm.fbits(v);
    }
    if tm.is_intlike(v) {
        return tm.wrap(v, 8 * size as u16, false);
    }
    tm.unk("bytes", 0, if size >= 8 { u64::MAX as i128 } else { (1i128 << (8 * size)) - 1 })
}

/// bytes [from, from+n) of a cell
pub fn part(tm: &mut Terms, c: &Cell, from: u64, n: u64) -> T {
    if from == 0 && n == c.size {
        return c.v;
    }
    if c.v == Terms::UNDEF {
        return c.v;
    }
    let v = to_uint(tm, c.v, c.size);
    let v = if from > 0 { tm.divc(v, 1i128 << (8 * from)) } else { v };
    let (lo, hi) = tm.range(v);
    if lo >= 0 && hi < 1i128 << (8 * n) {
        v
    } else {
        let m = tm.int(1i128 << (8 * n));
        tm.modulo(v, m)
    }
}

pub fn typed(tm: &mut Terms, v: T, size: u64, kind: &Kind) -> T {
    if v == Terms::UNDEF {
        return v;
    }
    match kind {
        Kind::Int(bits, signed) => {
            if tm.is_float(v) {
                let b = tm.fbits(v);
                return tm.wrap(b, *bits, *signed);
            }
            // index arithmetic is kept in normal form by the operations that produce it
            if tm.is_intlike(v) && (tm.is_data(v) || tm.as_int(v).is_some()) {
                return tm.wrap(v, *bits, *signed);
            }
            v
        }
        Kind::Float(32) => {
            if tm.is_float(v) {
                return v;
            }
            if tm.is_intlike(v) {
                let u = tm.wrap(v, 32, false);
                return tm.frombits(u);
            }
            v
        }
        _ => {
            let _ = size;
            v
        }
    }
}

pub fn cells_write(tm: &mut Terms, cells: &mut Cells, off: u64, size: u64, v: T) {
    // fast path
    let (a, b) = cells_overlap(cells, off, size);
    if b - a == 1 && cells[a].off == off && cells[a].size == size {
        cells[a].v = v;
        return;
    }
    cells_clear_range(tm, cells, a, b, off, size);
    let i = cells.partition_point(|c| c.off < off);
    cells.insert(i, Cell { off, size, v });
}
fn cells_clear_range(tm: &mut Terms, cells: &mut Cells, a: usize, b: usize, off: u64, size: u64) {
    if a == b {
        return;
    }
    let mut keep = vec![];
    for c in &cells[a..b] {
        if c.off < off {
            let n = off - c.off;
            let v = part(tm, c, 0, n);
            keep.push(Cell { off: c.off, size: n, v });
        }
        if c.off + c.size > off + size {
            let from = off + size - c.off;
            let n = c.size - from;
            let v = part(tm, c, from, n);
            keep.push(Cell { off: off + size, size: n, v });
        }
    }
    cells.splice(a..b, keep);
}
pub fn cells_clear(tm: &mut Terms, cells: &mut Cells, off: u64, size: u64) {
    let (a, b) = cells_overlap(cells, off, size);
    cells_clear_range(tm, cells, a, b, off, size);
}
/// extract [off, off+size) as cells relative to 0
pub fn cells_slice(tm: &mut Terms, cells: &[Cell], off: u64, size: u64) -> Cells {
    let (a, b) = cells_overlap(cells, off, size);
    let mut out = Vec::with_capacity(b - a);
    for c in &cells[a..b] {
        let lo = c.off.max(off);
        let hi = (c.off + c.size).min(off + size);
        let v = part(tm, c, lo - c.off, hi - lo);
        out.push(Cell { off: lo - off, size: hi - lo, v });
    }
    out
}
