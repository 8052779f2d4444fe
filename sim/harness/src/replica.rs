//! Replicas: copies of this node that do the same work under different
//! circumstances, and must come out the same to the last byte.
use std::collections::BTreeMap;

use grovedb_costs::OperationCost;
use serde::{Deserialize, Serialize};

use crate::{check::*, gen_::Gen, model::*, node::*, ops::*, rng::*, sim::*};

/// what befalls one replica
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rev {
    Reopen,
    Flush,
    /// the process dies; nothing is lost
    Crash,
    /// power is lost after everything was flushed
    Power(u16),
    Check,
    Query(crate::query::Q),
    Prove(crate::query::Q, u8),
    /// other work in a transaction that is rolled back or dropped
    Undone(Vec<W>, bool),
    /// work that is refused
    Refused(W),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct RPlan {
    /// how many writes each transaction holds, in turn; 0: one direct call
    pub tx: Vec<u8>,
    /// before the n-th write
    pub ev: Vec<(u16, Rev)>,
    /// the n-th write fails or dies first and is repeated
    pub fail: Vec<(u16, u32, Fault)>,
    /// the operations of every batch in another order
    pub shuffle: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Replicas {
    pub ws: Vec<W>,
    pub plans: Vec<RPlan>,
}

/// the same batch, told in another order; what concerns one place stays in order
pub fn shuffled(w: &W, seed: u64) -> W {
    let W::Batch(ops) = w else { return w.clone() };
    let mut r = Rng::new(seed ^ ops.len() as u64);
    let mut order: Vec<usize> = (0..ops.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    // hand the places' own operations out in their old order
    let mut queue: BTreeMap<(&Path, &B), std::collections::VecDeque<usize>> = BTreeMap::new();
    for (i, o) in ops.iter().enumerate() {
        queue.entry((&o.path, &o.key)).or_default().push_back(i);
    }
    W::Batch(
        order
            .into_iter()
            .map(|i| {
                let j = queue.get_mut(&(&ops[i].path, &ops[i].key)).unwrap().pop_front().unwrap();
                ops[j].clone()
            })
            .collect(),
    )
}

fn event(f: &mut Sim, e: &Rev) -> V {
    let op = match e {
        Rev::Reopen => Op::Reopen,
        Rev::Flush => Op::Flush,
        Rev::Crash => Op::CrashProcess,
        Rev::Power(k) => {
            f.step(&Step { op: Op::Flush, faults: vec![] })?;
            Op::CrashPower(*k)
        }
        Rev::Check => Op::Check { tx: None },
        Rev::Query(q) => Op::Query { tx: None, q: q.clone() },
        Rev::Prove(q, v) => Op::Prove { q: q.clone(), v: *v },
        Rev::Undone(ws, roll) => {
            f.step(&Step { op: Op::Begin(1), faults: vec![] })?;
            for w in ws {
                f.step(&Step { op: Op::W { tx: Some(1), w: w.clone() }, faults: vec![] })?;
            }
            if *roll {
                f.step(&Step { op: Op::Rollback(1), faults: vec![] })?;
            }
            Op::DropTx(1)
        }
        Rev::Refused(w) => {
            let d = f.now();
            let mut t = f.m.clone();
            take_tag();
            let res = t.apply(w).0;
            if take_tag().is_some() || res != Exp::Err {
                return Ok(());
            }
            f.step(&Step { op: Op::W { tx: None, w: w.clone() }, faults: vec![] })?;
            if f.now() != d {
                return viol("error-effect", "a refused write changed the database");
            }
            return Ok(());
        }
    };
    f.step(&Step { op, faults: vec![] })
}

fn rough(c: &OperationCost) -> OperationCost {
    let mut c = c.clone();
    c.storage_loaded_bytes = 0;
    c.storage_cost.removed_bytes = Default::default();
    c
}

/// how many writes, in turn, take effect together
fn grouping(p: &RPlan, ws: &[W]) -> Vec<usize> {
    let (mut i, mut out) = (0, vec![]);
    while i < ws.len() {
        let k = (p.tx.get(out.len() % p.tx.len().max(1)).copied().unwrap_or(0) as usize).min(ws.len() - i);
        // a direct list of operations takes effect one by one
        out.push(if matches!(ws[i], W::NoBatch(_)) { k } else { k.max(1) });
        i += k.max(1);
    }
    out
}

struct Out {
    root: [u8; 32],
    digest: u64,
    /// cost of every write that was accepted
    costs: Vec<Option<OperationCost>>,
    m: Model,
}

fn one(f: &mut Sim, ws: &[W], p: &RPlan) -> V<Out> {
    let mut costs: Vec<Option<OperationCost>> = vec![];
    let mut i = 0;
    let mut group = 0;
    while i < ws.len() {
        let k = p.tx.get(group % p.tx.len().max(1)).copied().unwrap_or(0) as usize;
        group += 1;
        // a lost transaction is started over
        'again: for attempt in 0..4 {
            let mut got = vec![];
            if k > 0 {
                f.step(&Step { op: Op::Begin(0), faults: vec![] })?;
            }
            let end = if k == 0 { i + 1 } else { (i + k).min(ws.len()) };
            for (n, w) in ws.iter().enumerate().take(end).skip(i) {
                if attempt == 0 {
                    for (_, e) in p.ev.iter().filter(|e| e.0 as usize == n) {
                        if k > 0 && n > i && matches!(e, Rev::Reopen | Rev::Crash | Rev::Power(_)) {
                            // the transaction is gone
                            event(f, e)?;
                            f.st.ev("replica transactions lost");
                            continue 'again;
                        }
                        event(f, e)?;
                        if k > 0 && f.txs[0].is_none() {
                            f.step(&Step { op: Op::Begin(0), faults: vec![] })?;
                        }
                    }
                }
                let w = match p.shuffle {
                    Some(x) => shuffled(w, x),
                    None => w.clone(),
                };
                f.last_cost = None;
                let faults: Vec<(u32, Fault)> = if attempt == 0 { p.fail.iter().filter(|x| x.0 as usize == n).map(|x| (x.1, x.2.clone())).collect() } else { vec![] };
                let dies = !faults.is_empty();
                let pre = f.digest;
                let tx = (k > 0).then_some(0);
                f.step(&Step { op: Op::W { tx, w: w.clone() }, faults })?;
                if dies && k > 0 && f.txs[0].is_none() {
                    // it died in there
                    continue 'again;
                }
                if dies && k == 0 && f.last_cost.is_none() && f.digest == pre {
                    // it died before it took effect
                    f.step(&Step { op: Op::W { tx, w }, faults: vec![] })?;
                }
                got.push(f.last_cost.take());
                if f.over {
                    break;
                }
            }
            if k > 0 {
                f.step(&Step { op: Op::Commit(0), faults: vec![] })?;
            }
            i = end;
            costs.extend(got);
            break;
        }
    }
    f.full(None)?;
    let root = match f.node.db().root_hash(None, gv()).value {
        Ok(h) => h,
        Err(e) => return viol("read-error", format!("root hash: {e}")),
    };
    Ok(Out { root, digest: f.now(), costs, m: f.m.clone() })
}

pub fn run(s: &mut Sim, p: &Replicas) -> V {
    if s.nested() {
        return Ok(());
    }
    let mut first: Option<Out> = None;
    for (n, plan) in p.plans.iter().enumerate() {
        let mut f = s.fork("r")?;
        let dir = f.node.dir.clone();
        let res = one(&mut f, &p.ws, plan);
        let fst = std::mem::take(&mut f.st);
        let over = f.over;
        let (t, runs) = (s.st.trace, s.st.runs);
        s.st.merge(Stats { runs: 0, steps: 0, ..fst });
        (s.st.trace, s.st.runs) = (t, runs);
        let _ = guard(move || drop(f));
        let dump = s.world.dump(&dir);
        s.world.remove(&dir);
        let out = res.map_err(|v| Viol { class: v.class, msg: format!("replica {n}: {}", v.msg) })?;
        if over {
            return Ok(());
        }
        s.st.ev("replicas");
        match &first {
            None => {
                s.dump = dump;
                first = Some(out)
            }
            Some(a) => {
                if a.m != out.m {
                    if plan.shuffle.is_some() {
                        s.st.ev("orders that don't mean the same");
                        continue;
                    }
                    return viol("replica", "the same work was taken differently by two replicas");
                }
                if a.root != out.root {
                    return viol("replica", format!("two replicas with the same contents have the root hashes {} and {}", hx(&a.root), hx(&out.root)));
                }
                if plan.shuffle.is_some() || p.plans[0].shuffle.is_some() {
                    continue;
                }
                if a.digest != out.digest {
                    let d = s.dump.iter().find(|x| !dump.contains(x)).or_else(|| dump.iter().find(|x| !s.dump.contains(x)));
                    return viol("replica-bytes", format!("two replicas with the same root hash store different bytes, at {:?}", d.map(|d| (&d.0, hx(&d.1), hx(&d.2)))));
                }
                let same = grouping(&p.plans[0], &p.ws) == grouping(plan, &p.ws);
                for (i, (x, y)) in a.costs.iter().zip(&out.costs).enumerate() {
                    if let (Some(x), Some(y)) = (x, y) {
                        // the bytes a cleanup frees are told from what is
                        // committed, so they depend on what shares a transaction
                        let (x, y) = if same { (x.clone(), y.clone()) } else { (rough(x), rough(y)) };
                        if x != y {
                            return viol("replica-cost", format!("{} cost {x:?} on one replica, {y:?} on another", short(&p.ws[i])));
                        }
                        s.st.ev("costs compared");
                    }
                }
            }
        }
    }
    s.dump.clear();
    Ok(())
}

pub fn gen_replicas(g: &mut Gen, s: &Sim) -> Replicas {
    let mut m = s.m.clone();
    let mut ws = vec![];
    let n = g.r.range(2, 10);
    let mut states = vec![m.clone()];
    while ws.len() < n {
        let w = g.write(&m);
        take_tag();
        let mut next = m.clone();
        let exp = next.apply(&w).0;
        if take_tag().is_some() || exp != Exp::Ok {
            if g.r.chance(1, 20) {
                break;
            }
            continue;
        }
        m = next;
        states.push(m.clone());
        ws.push(w);
    }
    let count = g.r.range(2, 3);
    let mut first = vec![0];
    let plans = (0..count)
        .map(|i| {
            let tx = match g.r.below(6) {
                4 | 5 if i > 0 => first.clone(),
                0 => vec![0],
                1 => vec![100],
                _ => (0..g.r.range(1, 3)).map(|_| g.r.below(5) as u8).collect(),
            };
            if i == 0 {
                first = tx.clone();
            }
            let mut ev = vec![];
            for _ in 0..g.r.below(4) {
                let at = g.r.below(ws.len().max(1));
                let m = &states[at];
                let e = match g.r.below(12) {
                    0 | 1 => Rev::Reopen,
                    2 => Rev::Flush,
                    3 | 4 => Rev::Crash,
                    5 => Rev::Power(*g.r.pick(&[0, 500, 1000])),
                    6 => Rev::Check,
                    7 => Rev::Query(crate::query::gen_q(&mut g.r, m)),
                    8 => Rev::Prove(crate::prove::gen_pq(&mut g.r, m), 0),
                    9 => Rev::Refused(g.write(m)),
                    _ => {
                        let k = g.r.range(1, 3);
                        Rev::Undone((0..k).map(|_| g.write(m)).collect(), g.r.chance(1, 2))
                    }
                };
                ev.push((at as u16, e));
            }
            let mut fail = vec![];
            for _ in 0..g.r.below(3) {
                let at = g.r.below(ws.len().max(1));
                if let Some(w) = ws.get(at) {
                    if matches!(w, W::NoBatch(_)) {
                        continue;
                    }
                    let len = s.lens.get(w_kind(w)).copied().unwrap_or(12).max(1);
                    let f = g.r.pick(&[Fault::FailIo, Fault::FailBusy, Fault::FailNoSpace, Fault::CrashBefore]).clone();
                    fail.push((at as u16, g.r.below(len as usize + 1) as u32, f));
                }
            }
            let shuffle = (i > 0 && g.r.chance(1, 3)).then(|| g.r.next() >> 1);
            RPlan { tx, ev, fail, shuffle }
        })
        .collect();
    Replicas { ws, plans }
}
