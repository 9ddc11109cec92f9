//! Per-function control flow facts: reverse post order, natural loops, liveness, address-taken locals.
use crate::ir::*;
use std::collections::BTreeSet;

pub struct Loop {
    pub header: Bb,
    pub blocks: BTreeSet<Bb>,
}
pub struct Cfg {
    pub rpo: Vec<usize>,
    pub loops: Vec<Loop>,
    pub header_of: Vec<Option<usize>>,
    /// live-in locals per block (bitset), address-taken ones excluded
    pub live: Vec<Vec<bool>>,
    pub taken: Vec<bool>,
}

pub fn succs(t: &Term) -> Vec<Bb> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { targets, otherwise, .. } => targets.iter().map(|x| x.1).chain([*otherwise]).collect(),
        Term::Drop { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        Term::Asm(t) => t.iter().copied().collect(),
        _ => vec![],
    }
}
fn op_uses(o: &Op, f: &mut dyn FnMut(Local)) {
    match o {
        Op::Copy(p) | Op::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(Local)) {
    f(p.local);
    for e in &p.proj {
        if let Proj::Index { local, .. } = e {
            f(*local)
        }
    }
}
fn rv_uses(r: &Rv, f: &mut dyn FnMut(Local)) {
    match r {
        Rv::Use(o) | Rv::Repeat(o, ..) | Rv::Not(o, _) | Rv::Neg(o, _) | Rv::PtrMeta(o) | Rv::Cast(_, o, _, _) | Rv::UnsizeDyn(o, _) | Rv::UnsizeOther(o, ..) => op_uses(o, f),
        Rv::Ref(p) | Rv::Discr(p) | Rv::Len(p) => place_uses(p, f),
        Rv::Bin(_, a, b, _) | Rv::CheckedBin(_, a, b, _) | Rv::RawPtr(a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        }
        Rv::Aggregate { fields, .. } => fields.iter().for_each(|x| op_uses(&x.1, f)),
        Rv::Reify(_) | Rv::Unsupported(_) => {}
    }
}

pub fn build(f: &Func) -> Cfg {
    let n = f.blocks.len();
    let su: Vec<Vec<Bb>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    // post order
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st: Vec<(Bb, usize)> = vec![];
    if n > 0 {
        st.push((0, 0));
        seen[0] = true;
    }
    while let Some((b, i)) = st.pop() {
        if i < su[b as usize].len() {
            st.push((b, i + 1));
            let s = su[b as usize][i];
            if !seen[s as usize] {
                seen[s as usize] = true;
                st.push((s, 0));
            }
        } else {
            post.push(b);
        }
    }
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in post.iter().rev().enumerate() {
        rpo[*b as usize] = i;
    }
    let order: Vec<Bb> = post.iter().rev().copied().collect();
    // dominators
    let mut pred: Vec<Vec<Bb>> = vec![vec![]; n];
    for b in &order {
        for s in &su[*b as usize] {
            pred[*s as usize].push(*b);
        }
    }
    let mut idom: Vec<Option<Bb>> = vec![None; n];
    if n > 0 {
        idom[0] = Some(0);
    }
    let mut ch = true;
    while ch {
        ch = false;
        for b in order.iter().skip(1) {
            let mut new: Option<Bb> = None;
            for p in &pred[*b as usize] {
                if idom[*p as usize].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => *p,
                    Some(mut x) => {
                        let mut y = *p;
                        while x != y {
                            while rpo[x as usize] > rpo[y as usize] {
                                x = idom[x as usize].unwrap();
                            }
                            while rpo[y as usize] > rpo[x as usize] {
                                y = idom[y as usize].unwrap();
                            }
                        }
                        x
                    }
                });
            }
            if new != idom[*b as usize] {
                idom[*b as usize] = new;
                ch = true;
            }
        }
    }
    let dom = |a: Bb, mut b: Bb| -> bool {
        loop {
            if a == b {
                return true;
            }
            match idom[b as usize] {
                Some(x) if x != b => b = x,
                _ => return false,
            }
        }
    };
    let mut loops: Vec<Loop> = vec![];
    let mut header_of = vec![None; n];
    for b in &order {
        for s in &su[*b as usize] {
            if dom(*s, *b) {
                let i = match header_of[*s as usize] {
                    Some(i) => i,
                    None => {
                        loops.push(Loop { header: *s, blocks: [*s].into_iter().collect() });
                        header_of[*s as usize] = Some(loops.len() - 1);
                        loops.len() - 1
                    }
                };
                let mut w = vec![*b];
                while let Some(x) = w.pop() {
                    if loops[i].blocks.insert(x) {
                        w.extend(pred[x as usize].iter().copied());
                    }
                }
            }
        }
    }
    // address-taken
    let nl = f.locals.len();
    let mut taken = vec![false; nl];
    for b in &f.blocks {
        for (s, _) in &b.stmts {
            if let Stmt::Assign(_, Rv::Ref(p)) = s {
                if !p.proj.iter().any(|e| matches!(e, Proj::Deref(_))) {
                    taken[p.local as usize] = true;
                }
            }
        }
        if let Term::Drop { place, .. } = &b.term {
            if !place.proj.iter().any(|e| matches!(e, Proj::Deref(_))) {
                // drop glue takes the address but does not keep it
            }
        }
    }
    // liveness
    let mut live = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for b in order.iter().rev() {
            let bl = &f.blocks[*b as usize];
            let mut l = vec![false; nl];
            for s in &su[*b as usize] {
                for i in 0..nl {
                    l[i] |= live[*s as usize][i];
                }
            }
            match &bl.term {
                Term::Switch { op, .. } => op_uses(op, &mut |x| l[x as usize] = true),
                Term::Drop { place, .. } => place_uses(place, &mut |x| l[x as usize] = true),
                Term::Call { callee, args, dest, .. } => {
                    if dest.proj.is_empty() {
                        l[dest.local as usize] = false;
                    } else {
                        place_uses(dest, &mut |x| l[x as usize] = true);
                    }
                    for a in args {
                        op_uses(a, &mut |x| l[x as usize] = true);
                    }
                    if let Callee::Indirect(o) = callee {
                        op_uses(o, &mut |x| l[x as usize] = true);
                    }
                }
                Term::Assert { cond, ops, .. } => {
                    op_uses(cond, &mut |x| l[x as usize] = true);
                    for a in ops {
                        op_uses(a, &mut |x| l[x as usize] = true);
                    }
                }
                Term::Return => l[0] = true,
                _ => {}
            }
            for (s, _) in bl.stmts.iter().rev() {
                match s {
                    Stmt::Assign(p, r) => {
                        if p.proj.is_empty() {
                            l[p.local as usize] = false;
                        } else {
                            place_uses(p, &mut |x| l[x as usize] = true);
                        }
                        rv_uses(r, &mut |x| l[x as usize] = true);
                    }
                    Stmt::SetDiscr(p, _) => place_uses(p, &mut |x| l[x as usize] = true),
                    Stmt::StorageLive(x) | Stmt::StorageDead(x) => l[*x as usize] = false,
                    Stmt::Assume(o) => op_uses(o, &mut |x| l[x as usize] = true),
                    Stmt::CopyNonOverlapping { src, dst, count, .. } => {
                        op_uses(src, &mut |x| l[x as usize] = true);
                        op_uses(dst, &mut |x| l[x as usize] = true);
                        op_uses(count, &mut |x| l[x as usize] = true);
                    }
                    Stmt::Nop => {}
                }
            }
            if l != live[*b as usize] {
                live[*b as usize] = l;
                ch = true;
            }
        }
    }
    Cfg { rpo, loops, header_of, live, taken }
}
