//! Smaller versions of a failing run that fail the same way.
use std::time::{Duration, Instant};

use crate::{ops::*, plan::*};

pub fn shrink(p: &Plan, acts: Vec<Act>, class: &str, budget: Duration) -> Vec<Act> {
    let end = Instant::now() + budget;
    let mut best = acts;
    let fails = |a: &Vec<Act>| -> bool {
        let q = Plan { acts: Some(a.clone()), ..p.clone() };
        run(&q).viol.is_some_and(|v| v.class == class)
    };
    if class == "hang" || !fails(&best) {
        return best;
    }
    // drop runs of actions
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.len() && Instant::now() < end {
            let mut c = best.clone();
            c.drain(i..(i + size).min(best.len()));
            if fails(&c) {
                best = c;
                any = true;
            } else {
                i += size;
            }
        }
        if Instant::now() >= end {
            return best;
        }
        if size == 1 && !any {
            break;
        }
        size = if size == 1 { 1 } else { (size / 2).max(1) };
    }
    // simplify single actions
    let mut again = true;
    while again && Instant::now() < end {
        again = false;
        for i in 0..best.len() {
            for s in simpler(&best[i]) {
                if Instant::now() >= end {
                    return best;
                }
                let mut c = best.clone();
                c[i] = s;
                if fails(&c) {
                    best = c;
                    again = true;
                    break;
                }
            }
        }
    }
    best
}

fn simpler(a: &Act) -> Vec<Act> {
    let mut out = vec![];
    match a {
        Act::Db(s) => {
            for i in 0..s.faults.len() {
                let mut t = s.clone();
                t.faults.remove(i);
                out.push(Act::Db(t));
            }
            for (i, (at, f)) in s.faults.iter().enumerate() {
                if let Fault::Run(steps) = f {
                    for j in 0..steps.len() {
                        let mut v = steps.clone();
                        v.remove(j);
                        let mut t = s.clone();
                        t.faults[i] = (*at, Fault::Run(v));
                        out.push(Act::Db(t));
                    }
                }
            }
            if let Op::TamperProof { q, edits } = &s.op {
                if edits.len() > 1 {
                    for e in edits {
                        let op = Op::TamperProof { q: q.clone(), edits: vec![e.clone()] };
                        out.push(Act::Db(Step { op, faults: s.faults.clone() }));
                    }
                }
            }
            let mut push = |op| out.push(Act::Db(Step { op, faults: s.faults.clone() }));
            if let Op::Chunks(p) = &s.op {
                for i in 0..p.edits.len() {
                    let mut q = p.clone();
                    q.edits.remove(i);
                    push(Op::Chunks(q));
                }
            }
            if let Op::Corrupt(p) = &s.op {
                for i in 0..p.dmg.len() {
                    let mut q = p.clone();
                    q.dmg.remove(i);
                    push(Op::Corrupt(q));
                }
                for i in 0..p.pqs.len() {
                    let mut q = p.clone();
                    q.pqs.remove(i);
                    push(Op::Corrupt(q));
                }
                for i in 0..p.qs.len() {
                    let mut q = p.clone();
                    q.qs.remove(i);
                    push(Op::Corrupt(q));
                }
            }
            if let Op::Replicas(p) = &s.op {
                for i in 0..p.plans.len() {
                    if p.plans.len() > 2 {
                        let mut q = p.clone();
                        q.plans.remove(i);
                        push(Op::Replicas(q));
                    }
                    for j in 0..p.plans[i].ev.len() {
                        let mut q = p.clone();
                        q.plans[i].ev.remove(j);
                        push(Op::Replicas(q));
                    }
                    for j in 0..p.plans[i].fail.len() {
                        let mut q = p.clone();
                        q.plans[i].fail.remove(j);
                        push(Op::Replicas(q));
                    }
                    if p.plans[i].tx.len() > 1 {
                        let mut q = p.clone();
                        q.plans[i].tx.truncate(1);
                        push(Op::Replicas(q));
                    }
                }
                for i in 0..p.ws.len() {
                    let mut q = p.clone();
                    q.ws.remove(i);
                    for x in &mut q.plans {
                        x.ev.iter_mut().for_each(|e| e.0 -= (e.0 as usize > i) as u16);
                        x.fail.iter_mut().for_each(|e| e.0 -= (e.0 as usize > i) as u16);
                    }
                    push(Op::Replicas(q));
                    for w in simpler_w(&p.ws[i]) {
                        let mut q = p.clone();
                        q.ws[i] = w;
                        push(Op::Replicas(q));
                    }
                }
            }
            if let Op::W { tx, w } = &s.op {
                for w in simpler_w(w) {
                    out.push(Act::Db(Step { op: Op::W { tx: *tx, w }, faults: s.faults.clone() }));
                }
                if tx.is_some() {
                    out.push(Act::Db(Step { op: Op::W { tx: None, w: w.clone() }, faults: s.faults.clone() }));
                }
            }
        }
        Act::C(c) => {
            if c.fail.is_some() {
                out.push(Act::C(crate::comp::CAct { fail: None, ..c.clone() }));
            }
            for i in 0..c.n.len() {
                for v in [0, 1, c.n[i] / 2] {
                    if v < c.n[i] {
                        let mut d = c.clone();
                        d.n[i] = v;
                        out.push(Act::C(d));
                    }
                }
            }
        }
    }
    out
}

fn simpler_w(w: &W) -> Vec<W> {
    let mut out = vec![];
    match w {
        W::Batch(ops) => {
            for i in 0..ops.len() {
                if ops.len() > 1 {
                    let mut o = ops.clone();
                    o.remove(i);
                    out.push(W::Batch(o));
                }
            }
            for i in 0..ops.len() {
                if let Some(e) = ops[i].inserted() {
                    if !e.el.is_tree() {
                        for s in simpler_e(e) {
                            let mut o = ops.clone();
                            match &mut o[i].k {
                                BKind::InsertOrReplace(x)
                                | BKind::InsertOnly(x)
                                | BKind::InsertKnownNew(x)
                                | BKind::InsertIfNotExists(x)
                                | BKind::InsertIfNotExistsSkip(x)
                                | BKind::Replace(x)
                                | BKind::Patch(x) => *x = s,
                                _ => {}
                            }
                            out.push(W::Batch(o));
                        }
                    }
                }
            }
        }
        W::NoBatch(ops) => {
            for i in 0..ops.len() {
                if ops.len() > 1 {
                    let mut o = ops.clone();
                    o.remove(i);
                    out.push(W::NoBatch(o));
                }
            }
        }
        W::Insert { path, key, el, no_override, no_override_tree } => {
            for s in simpler_e(el) {
                out.push(W::Insert {
                    path: path.clone(),
                    key: key.clone(),
                    el: s,
                    no_override: *no_override,
                    no_override_tree: *no_override_tree,
                });
            }
        }
        _ => {}
    }
    out
}

fn simpler_e(e: &ElF) -> Vec<ElF> {
    let mut out = vec![];
    if e.fl.is_some() {
        out.push(ElF { fl: None, ..e.clone() });
    }
    match &e.el {
        El::Item(b) if b.len() > 1 => out.push(ElF { el: El::Item(vec![1]), fl: e.fl.clone() }),
        El::Sum(v) if *v != 1 => out.push(ElF { el: El::Sum(1), fl: e.fl.clone() }),
        El::ItemSum(..) | El::Ref(..) => out.push(ElF { el: El::Item(vec![1]), fl: e.fl.clone() }),
        _ => {}
    }
    out
}
