//! What a change costs to store, worked out from the reference model alone:
//! every element has a price, and a write reports exactly the prices of what
//! it added and removed.
use grovedb_costs::OperationCost;

use crate::{check::*, model::*, node::*, ops::*, sim::{short, w_kind}};

/// bytes a length takes in front of what it counts
fn varint(n: u64) -> u64 {
    (1..10).find(|i| n < 1 << (7 * i)).unwrap_or(10)
}

/// bytes of the aggregate every node of such a tree carries (charged at its
/// largest, whatever the value)
fn feature(k: Kind) -> u64 {
    match k {
        Kind::Normal => 1,
        Kind::Sum | Kind::Count | Kind::PCount => 9,
        Kind::BigSum | Kind::CountSum | Kind::PCountSum => 17,
    }
}

/// an element's own price beside its key, if it does not depend on its value
fn fixed(v: &Val) -> Option<u64> {
    Some(match v {
        Val::Sum(_) => 11,
        Val::ItemSum(b, _) => 11 + b.len() as u64 + varint(b.len() as u64),
        Val::Tree(s) => match s.kind {
            Kind::Normal => 3,
            Kind::Sum | Kind::Count | Kind::PCount => 12,
            Kind::CountSum | Kind::PCountSum => 21,
            Kind::BigSum => 19,
        },
        Val::Mmr(_) => 11,
        Val::Bulk(..) | Val::Commit(..) => 12,
        Val::Dense(..) => 6,
        Val::Item(_) | Val::Ref(..) => return None,
    })
}

/// (key, value) price of an element under a key in a subtree of some kind
pub fn price(kind: Kind, key: &[u8], e: &Ent) -> (u64, u64) {
    let f = feature(kind);
    let k = 32 + key.len() as u64;
    let k = k + varint(k);
    // the parent's link: the key with its length, the hash, two heights and
    // the aggregate
    let link = key.len() as u64 + 1 + 32 + 2 + f;
    let fl = e.fl.as_ref().map_or(0, |b| b.len() as u64 + varint(b.len() as u64));
    let v = match fixed(&e.v) {
        Some(n) => {
            let n = n + fl;
            if e.v.is_tree() {
                // the hash of the value is paid by the link to the subtree
                n + f + 32 + 2
            } else {
                let n = n + f + 64;
                n + varint(n)
            }
        }
        None => {
            let n = el(e).serialize(gv()).map_or(0, |b| b.len() as u64) + f + 64;
            n + varint(n)
        }
    };
    (k, v + link)
}

fn el(e: &Ent) -> grovedb::Element {
    let el = match &e.v {
        Val::Item(b) => El::Item(b.clone()),
        Val::Ref(r, n) => El::Ref(r.clone(), *n),
        _ => unreachable!(),
    };
    to_el(&ElF { el, fl: e.fl.clone() })
}

#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct Bill {
    pub added: u64,
    pub removed: u64,
    /// rows below a deleted subtree: the library gives back what their rows
    /// take, read after the fact, whatever their prices were
    pub nested: u64,
    pub nested_min: u64,
}

/// what the rows of a subtree take, within the two links a node may have
fn rows(s: &Sub, out: &mut Bill) {
    // the row that says which key the root has
    out.nested += 32 + 2 + 256 + 2;
    for (k, e) in &s.map {
        let (a, b) = price(s.kind, k, e);
        // the length of the whole row may take a byte more, with its links in it
        out.nested += a + b + if e.v.is_tree() { 64 + 256 } else { 2 };
        let own = match &e.v {
            Val::Item(v) | Val::ItemSum(v, _) => v.len(),
            _ => 0,
        } as u64;
        out.nested_min += 32 + k.len() as u64 + 64 + own + e.fl.as_ref().map_or(0, |f| f.len() as u64);
        if let Val::Tree(t) = &e.v {
            rows(t, out);
        }
    }
}

fn whole(s: &Sub, add: &mut dyn FnMut(u64)) {
    for (k, e) in &s.map {
        let (a, b) = price(s.kind, k, e);
        add(a + b);
        if let Val::Tree(t) = &e.v {
            whole(t, add);
        }
    }
}

fn diff(a: &Sub, b: &Sub, out: &mut Bill) {
    for (k, e) in &a.map {
        let (pk, pv) = price(a.kind, k, e);
        match b.map.get(k) {
            None => {
                out.removed += pk + pv;
                if let Val::Tree(t) = &e.v {
                    rows(t, out);
                }
            }
            Some(n) => {
                let (_, nv) = price(b.kind, k, n);
                out.added += nv.saturating_sub(pv);
                out.removed += pv.saturating_sub(nv);
                match (&e.v, &n.v) {
                    (Val::Tree(x), Val::Tree(y)) => {
                        if !std::sync::Arc::ptr_eq(x, y) {
                            diff(x, y, out)
                        }
                    }
                    (Val::Tree(x), _) => rows(x, out),
                    (_, Val::Tree(y)) => whole(y, &mut |n| out.added += n),
                    _ => {}
                }
            }
        }
    }
    for (k, e) in &b.map {
        if !a.map.contains_key(k) {
            let (pk, pv) = price(b.kind, k, e);
            out.added += pk + pv;
            if let Val::Tree(t) = &e.v {
                whole(t, &mut |n| out.added += n);
            }
        }
    }
}

pub fn bill(a: &Model, b: &Model) -> Bill {
    let mut o = Bill::default();
    diff(&a.root, &b.root, &mut o);
    o
}

pub fn check(in_tx: bool, w: &W, before: &Model, after: &Model, cost: &OperationCost) -> V {
    // rows beside the elements: aux data, logs of append-only trees
    match w {
        W::PutAux { .. } | W::DelAux { .. } => return Ok(()),
        W::MmrAppend { .. } | W::BulkAppend { .. } | W::DenseInsert { .. } | W::CommitInsert { .. } => return Ok(()),
        _ => {}
    }
    let want = bill(before, after);
    let s = &cost.storage_cost;
    if let W::NoBatch(l) = w {
        if l.len() > 1 {
            // one after the other: what one adds another may take back
            let net = s.added_bytes as i64 - s.removed_bytes.total_removed_bytes() as i64;
            if want.nested == 0 && !l.iter().any(|o| matches!(o.k, BKind::DeleteTree(..))) && net != want.added as i64 - want.removed as i64 {
                return viol("cost", format!("no_batch reported a net change of {net} bytes, expected {want:?}; {}", short(w)));
            }
            return Ok(());
        }
    }
    let (added, removed) = (s.added_bytes as u64, s.removed_bytes.total_removed_bytes() as u64);
    // inside a transaction a cleared subtree's rows are measured as committed
    // before it, whatever the transaction made of them since
    let (least, most) = match (want.nested, in_tx) {
        (0, _) => (want.removed, want.removed),
        (_, true) => (want.removed, u64::MAX),
        (n, false) => (want.removed + want.nested_min, want.removed + n),
    };
    if added != want.added || removed < least || removed > most {
        return viol("cost", format!("{} reported {added} bytes added and {removed} removed, expected {want:?}; {}", w_kind(w), short(w)));
    }
    Ok(())
}
