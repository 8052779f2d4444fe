//! What a batch means in terms of the reference model, and its translation
//! into the library's operations.
use std::collections::{BTreeMap, BTreeSet};

use grovedb::batch::{QualifiedGroveDbOp, SubelementsDeletionBehavior};
use grovedb_merk::tree_type::TreeType;

use crate::{model::*, node::*, ops::*};

pub fn to_tree_type(e: &El) -> TreeType {
    match e {
        El::Tree(Kind::Sum) => TreeType::SumTree,
        El::Tree(Kind::BigSum) => TreeType::BigSumTree,
        El::Tree(Kind::Count) => TreeType::CountTree,
        El::Tree(Kind::CountSum) => TreeType::CountSumTree,
        El::Tree(Kind::PCount) => TreeType::ProvableCountTree,
        El::Tree(Kind::PCountSum) => TreeType::ProvableCountSumTree,
        El::Mmr => TreeType::MmrTree,
        El::Bulk(c) => TreeType::BulkAppendTree(*c),
        El::Dense(h) => TreeType::DenseAppendOnlyFixedSizeTree(*h),
        El::Commit(c) => TreeType::CommitmentTree(*c),
        _ => TreeType::NormalTree,
    }
}

pub fn tree_el(v: &Val) -> Option<El> {
    Some(match v {
        Val::Tree(s) => El::Tree(s.kind),
        Val::Mmr(_) => El::Mmr,
        Val::Bulk(c, _) => El::Bulk(*c),
        Val::Dense(h, _) => El::Dense(*h),
        Val::Commit(c, _) => El::Commit(*c),
        _ => return None,
    })
}

pub fn to_op(o: &BOp) -> QualifiedGroveDbOp {
    type Q = QualifiedGroveDbOp;
    let (p, k) = (o.path.clone(), o.key.clone());
    let tree_path = || {
        let mut p = o.path.clone();
        p.push(o.key.clone());
        p
    };
    match &o.k {
        BKind::InsertOrReplace(e) => Q::insert_or_replace_op(p, k, to_el(e)),
        #[allow(deprecated)]
        BKind::InsertOnly(e) => Q::insert_only_op(p, k, to_el(e)),
        BKind::InsertKnownNew(e) => Q::insert_only_known_to_not_already_exist_op(p, k, to_el(e)),
        BKind::InsertIfNotExists(e) => Q::insert_if_not_exists_op(p, k, to_el(e)),
        BKind::InsertIfNotExistsSkip(e) => Q::insert_if_not_exists_or_skip_op(p, k, to_el(e)),
        BKind::Replace(e) => Q::replace_op(p, k, to_el(e)),
        BKind::Patch(e) => Q::patch_op(p, k, to_el(e), 0),
        BKind::RefreshRef { r, hop, fl, trust } => {
            Q::refresh_reference_op(p, k, to_ref(r), *hop, fl.clone(), *trust)
        }
        BKind::Delete => Q::delete_op(p, k),
        BKind::DeleteTree(b, t) => Q::delete_tree_op(
            p,
            k,
            to_tree_type(t),
            match b {
                0 => SubelementsDeletionBehavior::Error,
                1 => SubelementsDeletionBehavior::Skip,
                2 => SubelementsDeletionBehavior::DeleteChildren,
                _ => SubelementsDeletionBehavior::DontCheckWithNoCleanup,
            },
        ),
        BKind::MmrAppend(v) => Q::mmr_tree_append_op(tree_path(), v.clone()),
        BKind::BulkAppend(v) => Q::bulk_append_op(tree_path(), v.clone()),
        BKind::DenseInsert(v) => Q::dense_tree_insert_op(tree_path(), v.clone()),
        BKind::CommitInsert(n) => Q::commitment_tree_insert_op(
            tree_path(),
            crate::component::note_cmx(n),
            crate::component::note_rho(n),
            crate::component::note_ct(n),
        ),
    }
}

pub fn to_ops(ops: &[BOp]) -> Vec<QualifiedGroveDbOp> {
    ops.iter().map(to_op).collect()
}

impl BOp {
    pub fn is_append(&self) -> bool {
        matches!(
            self.k,
            BKind::MmrAppend(_) | BKind::BulkAppend(_) | BKind::DenseInsert(_) | BKind::CommitInsert(_)
        )
    }
    pub fn is_delete(&self) -> bool {
        matches!(self.k, BKind::Delete | BKind::DeleteTree(..))
    }
    pub fn inserted(&self) -> Option<&ElF> {
        match &self.k {
            BKind::InsertOrReplace(e)
            | BKind::InsertOnly(e)
            | BKind::InsertKnownNew(e)
            | BKind::InsertIfNotExists(e)
            | BKind::InsertIfNotExistsSkip(e)
            | BKind::Replace(e)
            | BKind::Patch(e) => Some(e),
            _ => None,
        }
    }
    pub fn q(&self) -> Path {
        let mut p = self.path.clone();
        p.push(self.key.clone());
        p
    }
}

fn append_w(o: &BOp) -> W {
    let (path, key) = (o.path.clone(), o.key.clone());
    match &o.k {
        BKind::MmrAppend(v) => W::MmrAppend { path, key, val: v.clone() },
        BKind::BulkAppend(v) => W::BulkAppend { path, key, val: v.clone() },
        BKind::DenseInsert(v) => W::DenseInsert { path, key, val: v.clone() },
        BKind::CommitInsert(n) => W::CommitInsert { path, key, note: n.clone() },
        _ => unreachable!(),
    }
}

pub fn apply_batch(m: &mut Model, ops: &[BOp]) -> Exp {
    let pre = m.clone();
    let r = batch_inner(m, ops);
    if r == Exp::Err {
        *m = pre;
    }
    r
}

fn batch_inner(m: &mut Model, ops: &[BOp]) -> Exp {
    let pre = m.clone();
    let mut any = false;
    // ---- consistency
    for (i, a) in ops.iter().enumerate() {
        for b in &ops[..i] {
            if a == b {
                return Exp::Err;
            }
            if a.path == b.path && a.key == b.key {
                match (a.is_append(), b.is_append()) {
                    (false, false) => return Exp::Err,
                    (true, true) => {}
                    _ => {
                        if a.is_delete() || b.is_delete() {
                            return Exp::Err;
                        }
                        tag("append-and-keyed-op-on-one-tree");
                        return Exp::Any;
                    }
                }
            }
        }
    }
    let deleted: BTreeSet<Path> = ops.iter().filter(|o| o.is_delete()).map(|o| o.q()).collect();
    for o in ops {
        if o.inserted().is_some() && (1..=o.path.len()).any(|n| deleted.contains(&o.path[..n])) {
            return Exp::Err;
        }
    }
    if ops.iter().any(|o| !o.is_append() && o.key.len() > 255) {
        return Exp::Err;
    }
    let created: BTreeMap<Path, &ElF> =
        ops.iter().filter_map(|o| o.inserted().filter(|e| e.el.is_tree()).map(|e| (o.q(), e))).collect();
    if ops.iter().any(|o| {
        !o.is_append()
            && (1..=o.path.len()).any(|n| {
                created.get(&o.path[..n]).is_some_and(|e| !matches!(e.el, El::Tree(_)) && e.el.is_tree())
            })
    }) {
        // accepted (the library's own tests have it), for no use
        tag("element-under-append-tree-created-in-batch");
        return Exp::Any;
    }
    // ---- appends see the state before the batch
    for o in ops.iter().filter(|o| o.is_append()) {
        let q = o.q();
        if pre.at(&q).is_none() && created.contains_key(&q) {
            tag("append-to-tree-created-in-batch");
            return Exp::Any;
        }
        if m.apply(&append_w(o)).0 == Exp::Err {
            return Exp::Err;
        }
    }
    // ---- trees first, parents before children
    let mut ins: Vec<&BOp> = ops.iter().filter(|o| o.inserted().is_some()).collect();
    ins.sort_by_key(|o| (o.path.len(), o.path.clone(), o.key.clone()));
    let is_ref = |o: &BOp| matches!(o.inserted().map(|e| &e.el), Some(El::Ref(..)));
    for o in ins.iter().filter(|o| !is_ref(o)) {
        let e = o.inserted().unwrap();
        let Some(sub) = m.sub(&o.path) else { return Exp::Err };
        let old = sub.map.get(&o.key).cloned();
        let kind = sub.kind;
        let pre_old = pre.at(&o.q());
        if pre_old.is_some() {
            match &o.k {
                BKind::InsertIfNotExists(_) => {
                    if e.el.is_tree() && ops.iter().any(|x| x.path.starts_with(&o.q())) {
                        tag("batch-conditional-tree-with-children");
                    }
                    return Exp::Err;
                }
                BKind::InsertIfNotExistsSkip(_) => {
                    if !e.el.is_tree() && ops.iter().any(|x| x.path.starts_with(&o.q())) {
                        // other operations go below what it would put there
                        any = true;
                    }
                    if e.el.is_tree() && ops.iter().any(|x| x.path.starts_with(&o.q())) {
                        tag("batch-conditional-tree-with-children");
                    }
                    continue;
                }
                BKind::InsertKnownNew(_) | BKind::InsertOnly(_) => {
                    // the caller promised the key was new
                    tag("broken-promise");
                }
                _ => {}
            }
        }
        if old.as_ref().is_some_and(|x| x.v.is_tree()) {
            tag("replace-tree");
        }
        if matches!(e.el, El::Sum(_) | El::ItemSum(..)) && !kind.allows_sum() {
            tag("batch-sum-item-in-plain-tree");
            return Exp::Err;
        }
        if let El::Dense(c) | El::Bulk(c) | El::Commit(c) = e.el {
            if c == 0 || c > 16 {
                tag("bad-tree-config");
                return Exp::Any;
            }
        }
        if let Err(x) = m.put_ent(&o.path, &o.key, e) {
            return x;
        }
    }
    // ---- references
    let mut refs: Vec<(&BOp, ElF)> = vec![];
    for o in ops {
        match &o.k {
            BKind::RefreshRef { r, hop, fl, trust } => {
                if deleted.iter().any(|d| o.path.starts_with(d)) {
                    tag("refresh-under-deleted");
                    return Exp::Any;
                }
                let Some(sub) = m.sub(&o.path) else { return Exp::Err };
                match sub.map.get(&o.key) {
                    Some(Ent { v: Val::Ref(r0, h0), fl: f0, .. }) => {
                        let e = if *trust {
                            ElF { el: El::Ref(r.clone(), *hop), fl: fl.clone() }
                        } else {
                            ElF { el: El::Ref(r0.clone(), *h0), fl: f0.clone() }
                        };
                        refs.push((o, e));
                    }
                    _ => {
                        if *trust {
                            tag("broken-promise");
                            return Exp::Any;
                        }
                        return Exp::Err;
                    }
                }
            }
            _ if is_ref(o) => {
                let e = o.inserted().unwrap();
                let Some(sub) = m.sub(&o.path) else { return Exp::Err };
                if let Some(old) = pre.at(&o.q()) {
                    match &o.k {
                        BKind::InsertIfNotExists(_) => return Exp::Err,
                        BKind::InsertIfNotExistsSkip(_) => {
                            if ops.iter().any(|x| x.path.starts_with(&o.q())) {
                                any = true;
                            }
                            continue;
                        }
                        BKind::InsertKnownNew(_) | BKind::InsertOnly(_) => tag("broken-promise"),
                        _ => {}
                    }
                    if old.v.is_tree() {
                        tag("replace-tree");
                    }
                }
                let _ = sub;
                refs.push((o, e.clone()));
            }
            _ => {}
        }
    }
    for (o, e) in &refs {
        let El::Ref(r, h) = &e.el else { unreachable!() };
        // (the tree it goes into can be gone again in batches that are not accepted anyway)
        if let Some(sub) = m.sub_mut(&o.path) {
            sub.map.insert(o.key.clone(), Ent { v: Val::Ref(r.clone(), *h), fl: e.fl.clone(), bound: None });
        }
    }
    // every written reference must resolve in the state after the batch
    let mut bounds = vec![];
    for (o, e) in &refs {
        let El::Ref(r, h) = &e.el else { unreachable!() };
        if h.is_some_and(|h| (h as usize) < MAX_HOPS) {
            tag("batch-hop-limit");
        }
        let Some(start) = ref_target(r, &o.path, &o.key) else { return Exp::Err };
        if start.is_empty() {
            return Exp::Err;
        }
        // hops through something this batch deletes are refused
        let mut cur = start.clone();
        for _ in 0..MAX_HOPS {
            if deleted.contains(&cur) {
                return Exp::Err;
            }
            if deleted.iter().any(|d| cur.starts_with(d)) {
                any = true;
            }
            if ops.iter().any(|x| {
                matches!(x.k, BKind::InsertIfNotExistsSkip(_))
                    && cur.len() > x.q().len()
                    && cur.starts_with(&x.q())
                    && pre.at(&x.q()).is_some()
            }) {
                tag("batch-reference-to-skipped-insert");
                return Exp::Any;
            }
            if let (Some(x), Some(was)) = (ops.iter().find(|x| x.q() == cur && x.inserted().is_some()), pre.at(&cur)) {
                if matches!(x.k, BKind::InsertIfNotExistsSkip(_)) {
                    tag("batch-reference-to-skipped-insert");
                    return Exp::Any;
                }
                let new = x.inserted().unwrap();
                if matches!(new.el, El::Sum(_) | El::ItemSum(..))
                    && new.fl.is_some()
                    && was.fl.is_some()
                    && was.fl != new.fl
                {
                    tag("batch-reference-to-sum-item-changing-flags");
                }
                // changing between these two is documented as not supported
                let sum = |v: &El| matches!(v, El::Sum(_) | El::ItemSum(..));
                let was_sum = matches!(was.v, Val::Sum(_) | Val::ItemSum(..));
                if sum(&x.inserted().unwrap().el) != was_sum {
                    any = true;
                }
            }
            match m.at(&cur) {
                Some(Ent { v: Val::Ref(r, _), .. }) => {
                    let (k, p) = cur.split_last().unwrap();
                    match ref_target(r, p, k) {
                        Some(t) => cur = t,
                        None => return Exp::Err,
                    }
                }
                _ => break,
            }
        }
        match m.follow_q(start) {
            Ok((t, _)) => {
                if t.v.is_tree() {
                    tag("batch-reference-to-tree");
                    any = true;
                }
                bounds.push((o.path.clone(), o.key.clone(), t.clone()));
            }
            Err(RErr::Limit) => {
                // hops are counted slightly differently; near the limit both
                // answers are legitimate, beyond it only refusal
                return Exp::Err;
            }
            Err(_) if any => {}
            Err(_) => return Exp::Err,
        }
    }
    for (p, k, t) in bounds {
        if let Some(e) = m.sub_mut(&p).and_then(|s| s.map.get_mut(&k)) {
            e.bound = Some(Box::new(Bound { target: t }));
        }
    }
    // ---- deletions, deepest first
    let mut dels: Vec<&BOp> = ops.iter().filter(|o| o.is_delete()).collect();
    dels.sort_by_key(|o| std::cmp::Reverse(o.path.len()));
    // what a non-empty check sees: the state before, without keys deleted here
    let would_skip = |o: &BOp| -> Option<bool> {
        // Some(true): not empty
        let e = pre.at(&o.q())?;
        Some(match &e.v {
            Val::Tree(s) => s.map.keys().any(|k| {
                !dels.iter().any(|d| {
                    d.path == o.q() && d.key == *k && !matches!(d.k, BKind::DeleteTree(1, _))
                })
            }),
            v => !v.empty_tree(),
        })
    };
    for o in &dels {
        match &o.k {
            BKind::Delete => {
                if pre.sub(&o.path).is_none() && m.sub(&o.path).is_none() {
                    return Exp::Err;
                }
                match pre.at(&o.q()) {
                    Some(e) if e.v.is_tree() => {
                        tag("plain-delete-of-tree");
                        return Exp::Any;
                    }
                    Some(_) => {
                        if let Some(s) = m.sub_mut(&o.path) {
                            s.map.remove(&o.key);
                        }
                    }
                    None => any = true,
                }
            }
            BKind::DeleteTree(b, t) => {
                let Some(e) = pre.at(&o.q()) else {
                    any = true;
                    continue;
                };
                if tree_el(&e.v).as_ref() != Some(t) {
                    tag("delete-tree-of-wrong-kind");
                    return Exp::Any;
                }
                let full = would_skip(o) == Some(true);
                match b {
                    0 if full => return Exp::Err,
                    1 if full => continue,
                    3 if !e.v.empty_tree() => {
                        tag("unchecked-delete-of-non-empty");
                        return Exp::Any;
                    }
                    _ => {}
                }
                // work below a deleted tree must leave it empty
                let touched = ops.iter().any(|x| {
                    x.q() != o.q() && x.q().starts_with(&o.q())
                });
                if touched {
                    if let Some(Ent { v: Val::Tree(s), .. }) = m.at(&o.q()) {
                        if !s.map.is_empty() {
                            any = true;
                        }
                    }
                }
                if let Some(s) = m.sub_mut(&o.path) {
                    s.map.remove(&o.key);
                }
            }
            _ => {}
        }
    }
    match m.overflow() {
        Exp::Ok if any => Exp::Any,
        x => x,
    }
}

/// the single-call equivalent of a batch operation
pub fn as_single(o: &BOp) -> Option<W> {
    let (path, key) = (o.path.clone(), o.key.clone());
    Some(match &o.k {
        BKind::InsertOrReplace(e) | BKind::Replace(e) | BKind::InsertOnly(e) | BKind::InsertKnownNew(e) => {
            W::Insert { path, key, el: e.clone(), no_override: false, no_override_tree: true }
        }
        BKind::InsertIfNotExists(e) => {
            W::Insert { path, key, el: e.clone(), no_override: true, no_override_tree: true }
        }
        BKind::InsertIfNotExistsSkip(e) => W::InsertIfNot { path, key, el: e.clone() },
        BKind::Patch(_) | BKind::RefreshRef { .. } => return None,
        BKind::Delete => W::Delete { path, key, allow: false, err: true },
        BKind::DeleteTree(b, _) => W::Delete { path, key, allow: *b >= 2, err: *b == 0 },
        _ => append_w(o),
    })
}

/// operations applied one at a time by the library
pub fn apply_seq(m: &mut Model, ops: &[BOp]) -> Exp {
    let mut any = false;
    for (i, o) in ops.iter().enumerate() {
        let r = match as_single(o) {
            Some(w) => m.apply(&w).0,
            None => Exp::Err,
        };
        match r {
            Exp::Ok => {}
            Exp::Err if i == 0 => return Exp::Err,
            Exp::Any => {
                tag("partial");
                any = true
            }
            Exp::Err => {
                tag("partial");
                return Exp::Any;
            }
        }
    }
    if any { Exp::Any } else { Exp::Ok }
}
