//! Comparison of everything a database (or one transaction's view of it)
//! shows with the reference model.
use std::collections::BTreeSet;

use grovedb::{PathQuery, SizedQuery, Transaction, query_result_type::QueryResultType};
use grovedb_query::{Query, QueryItem};

use crate::{model::*, node::*, ops::*, query, rng::Rng, roots, structure};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type V<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> V<T> {
    Err(Viol { class: class.into(), msg: msg.into() })
}

#[derive(Default, Clone, Copy)]
pub struct Opt {
    /// how many single reads to sample per subtree (0: none)
    pub samples: usize,
    pub verify: bool,
}

macro_rules! want {
    ($class:expr, $what:expr, $got:expr, $exp:expr) => {{
        match $got {
            Ok(g) => {
                if g != $exp {
                    return viol($class, format!("{}: got {:?}, expected {:?}", $what, g, $exp));
                }
            }
            Err(e) => return viol("read-error", format!("{}: {e}", $what)),
        }
    }};
}

pub use crate::paths::sp;

/// does the class of a same_element message belong to aggregates
fn el_class(m: &str) -> &'static str {
    if m.starts_with("aggregate") { "agg" } else { "state" }
}

/// every element, subtree by subtree
pub fn view(db: &Db, tx: Option<&Transaction>, m: &Model, r: &mut Rng, o: Opt) -> V {
    let v = gv();
    for (path, kind) in m.subtrees() {
        let sub = m.sub(&path).unwrap();
        let mut q = Query::new();
        q.insert_item(QueryItem::RangeFull(..));
        let pq = PathQuery::new(path.clone(), SizedQuery::new(q, None, None));
        let els = match db
            .query_raw(&pq, true, true, true, QueryResultType::QueryKeyElementPairResultType, tx, v)
            .value
        {
            Ok((e, _)) => query::flatten(e),
            Err(e) => return viol("read-error", format!("listing {}: {e}", pp(&path))),
        };
        let mut it = sub.map.iter();
        for (_, k, e) in &els {
            let k = k.as_ref().unwrap();
            match it.next() {
                None => return viol("state", format!("{} holds unexpected key {} ({e})", pp(&path), hx(k))),
                Some((mk, me)) => {
                    if mk != k {
                        return viol(
                            "state",
                            format!("{} lists key {} where {} is expected", pp(&path), hx(k), hx(mk)),
                        );
                    }
                    if let Val::Ref(..) = me.v {
                        // listed with an absolute path
                        let row = query::Row { path: path.clone(), key: k.clone(), e: me };
                        if let Err(x) = query::same_row(&row, e) {
                            return viol("state", format!("{} key {}: {x}", pp(&path), hx(k)));
                        }
                    } else if let Err(x) = same_element(me, e) {
                        return viol(el_class(&x), format!("{} key {}: {x}", pp(&path), hx(k)));
                    }
                }
            }
        }
        if let Some((k, _)) = it.next() {
            return viol("state", format!("{} lacks key {}", pp(&path), hx(k)));
        }
        want!(
            "state",
            format!("is_empty_tree {}", pp(&path)),
            db.is_empty_tree(crate::paths::sp(&path), tx, v).value,
            sub.map.is_empty()
        );
        // single reads
        let keys: Vec<&B> = sub.map.keys().collect();
        for _ in 0..o.samples {
            let k = query::near_key(r, &keys);
            if k.len() > 255 {
                continue;
            }
            read(db, tx, m, &path, &k)?;
        }
        let _ = kind;
        for (k, e) in &sub.map {
            match &e.v {
                Val::Ref(..) => read(db, tx, m, &path, k)?,
                Val::Mmr(_) | Val::Bulk(..) | Val::Dense(..) | Val::Commit(..) => {
                    append_tree(db, tx, &path, k, e, r)?
                }
                _ => {}
            }
        }
    }
    for (k, val) in &m.aux {
        want!("aux", format!("get_aux {}", hx(k)), db.get_aux(k, tx).value, Some(val.clone()));
    }
    if o.samples > 0 {
        let ks: Vec<&B> = m.aux.keys().collect();
        let k = query::near_key(r, &ks);
        want!("aux", format!("get_aux {}", hx(&k)), db.get_aux(&k, tx).value, m.aux.get(&k).cloned());
        find_subtrees(db, tx, m, r)?;
    }
    if o.verify {
        verify(db, tx, m, r.chance(1, 2))?;
    }
    Ok(())
}

/// one key through every single-element entry point
pub fn read(db: &Db, tx: Option<&Transaction>, m: &Model, path: &[B], k: &B) -> V {
    let v = gv();
    let at = || format!("{} key {}", pp(path), hx(k));
    let ent = m.get(path, k);
    want!("state", format!("has_raw {}", at()), db.has_raw(path, k, tx, v).value, ent.is_some());
    let raw = db.get_raw(sp(path), k, tx, v).value;
    let opt = db.get_raw_optional(sp(path), k, tx, v).value;
    match ent {
        None => {
            if let Ok(e) = raw {
                return viol("state", format!("get_raw {} returned {e}, nothing is there", at()));
            }
            want!("state", format!("get_raw_optional {}", at()), opt, None::<grovedb::Element>);
            if let Ok(e) = db.get(path, k, tx, v).value {
                return viol("state", format!("get {} returned {e}, nothing is there", at()));
            }
        }
        Some(e) => {
            for (what, r) in [("get_raw", raw), ("get_raw_optional", opt.map(|o| o.unwrap_or(grovedb::Element::Item(b"<none>".to_vec(), None))))] {
                match r {
                    Err(x) => return viol("read-error", format!("{what} {}: {x}", at())),
                    Ok(g) => {
                        if let Err(x) = same_element(e, &g) {
                            return viol(el_class(&x), format!("{what} {}: {x}", at()));
                        }
                    }
                }
            }
            let got = db.get(path, k, tx, v).value;
            match &e.v {
                Val::Ref(r, _) => match (m.follow(r, path, k), got) {
                    (Ok((t, _)), Ok(g)) => {
                        if let Err(x) = same_element(t, &g) {
                            return viol("ref", format!("get through reference {}: {x}", at()));
                        }
                    }
                    (Ok(_), Err(x)) => return viol("read-error", format!("get through reference {}: {x}", at())),
                    (Err(why), Ok(g)) => {
                        return viol("ref", format!("get through reference {} ({why:?}) returned {g}", at()));
                    }
                    (Err(_), Err(_)) => {}
                },
                _ => match got {
                    Err(x) => return viol("read-error", format!("get {}: {x}", at())),
                    Ok(g) => {
                        if let Err(x) = same_element(e, &g) {
                            return viol(el_class(&x), format!("get {}: {x}", at()));
                        }
                    }
                },
            }
        }
    }
    Ok(())
}

fn append_tree(db: &Db, tx: Option<&Transaction>, path: &[B], k: &B, e: &Ent, r: &mut Rng) -> V {
    let v = gv();
    let at = format!("{} key {}", pp(path), hx(k));
    // positions to look at: ends, boundaries and a few in between
    let pos = |n: usize, r: &mut Rng| -> BTreeSet<u64> {
        let mut s: BTreeSet<u64> = [0, n.saturating_sub(1) as u64, n as u64].into();
        for _ in 0..3 {
            s.insert(r.below(n + 2) as u64);
        }
        s
    };
    match &e.v {
        Val::Mmr(x) => {
            want!("append", format!("mmr_tree_leaf_count {at}"), db.mmr_tree_leaf_count(path, k, tx, v).value, x.len() as u64);
            if !x.is_empty() {
                want!("append", format!("mmr_tree_root_hash {at}"), db.mmr_tree_root_hash(path, k, tx, v).value, roots::mmr(x));
            }
            for p in pos(x.len(), r) {
                want!(
                    "append",
                    format!("mmr_tree_get_value {at} {p}"),
                    db.mmr_tree_get_value(path, k, p, tx, v).value,
                    x.get(p as usize).cloned()
                );
            }
        }
        Val::Bulk(pw, x) => {
            let n = 1usize << *pw;
            want!("append", format!("bulk_count {at}"), db.bulk_count(path, k, tx, v).value, x.len() as u64);
            want!("append", format!("bulk_chunk_count {at}"), db.bulk_chunk_count(path, k, tx, v).value, (x.len() / n) as u64);
            want!(
                "append",
                format!("bulk_get_buffer {at}"),
                db.bulk_get_buffer(path, k, tx, v).value,
                x[x.len() / n * n..].to_vec()
            );
            for p in pos(x.len(), r) {
                want!(
                    "append",
                    format!("bulk_get_value {at} {p}"),
                    db.bulk_get_value(path, k, p, tx, v).value,
                    x.get(p as usize).cloned()
                );
            }
            for c in 0..x.len() / n {
                want!(
                    "append",
                    format!("bulk_get_chunk {at} {c}"),
                    db.bulk_get_chunk(path, k, c as u64, tx, v).value,
                    Some(roots::blob(&x[c * n..(c + 1) * n]))
                );
            }
            want!(
                "append",
                format!("bulk_get_chunk {at} past the end"),
                db.bulk_get_chunk(path, k, (x.len() / n) as u64, tx, v).value,
                None::<B>
            );
        }
        Val::Dense(h, x) => {
            want!("append", format!("dense_tree_count {at}"), db.dense_tree_count(path, k, tx, v).value, x.len() as u16);
            want!(
                "append",
                format!("dense_tree_root_hash {at}"),
                db.dense_tree_root_hash(path, k, tx, v).value,
                roots::dense(x, *h)
            );
            for p in pos(x.len(), r) {
                want!(
                    "append",
                    format!("dense_tree_get {at} {p}"),
                    db.dense_tree_get(path, k, p as u16, tx, v).value,
                    x.get(p as usize).cloned()
                );
            }
        }
        Val::Commit(_, x) => {
            want!("append", format!("commitment_tree_count {at}"), db.commitment_tree_count(path, k, tx, v).value, x.len() as u64);
            want!(
                "append",
                format!("commitment_tree_anchor {at}"),
                db.commitment_tree_anchor(path, k, tx, v).value.map(|a| a.to_bytes()),
                roots::anchor_of(x)
            );
            for p in pos(x.len(), r) {
                want!(
                    "append",
                    format!("commitment_tree_get_value {at} {p}"),
                    db.commitment_tree_get_value(path, k, p, tx, v).value,
                    x.get(p as usize).map(crate::component::note_bytes)
                );
            }
        }
        _ => {}
    }
    Ok(())
}

fn has_append_tree(s: &Sub) -> bool {
    s.map.values().any(|e| match &e.v {
        Val::Tree(c) => has_append_tree(c),
        v => v.is_tree(),
    })
}

fn find_subtrees(db: &Db, tx: Option<&Transaction>, m: &Model, r: &mut Rng) -> V {
    let subs = m.subtrees();
    let from = subs[r.below(subs.len())].0.clone();
    // rows of append-only trees are not elements and confuse the walk
    if has_append_tree(m.sub(&from).unwrap()) {
        return Ok(());
    }
    let want: BTreeSet<Path> = subs.iter().map(|s| s.0.clone()).filter(|p| p.starts_with(&from)).collect();
    match db.find_subtrees(&sp(&from), tx, gv()).value {
        Err(e) => viol("read-error", format!("find_subtrees {}: {e}", pp(&from))),
        Ok(g) => {
            let n = g.len();
            let g: BTreeSet<Path> = g.into_iter().collect();
            if g != want || n != want.len() {
                return viol(
                    "state",
                    format!("find_subtrees {}: {n} found, {} expected", pp(&from), want.len()),
                );
            }
            Ok(())
        }
    }
}

/// the built-in integrity check
pub fn verify(db: &Db, tx: Option<&Transaction>, m: &Model, cache: bool) -> V {
    let mut broken = false;
    let mut stale: BTreeSet<Path> = BTreeSet::new();
    for (p, k, e) in m.elements() {
        if let Val::Ref(r, _) = &e.v {
            broken |= m.follow(r, &p, &k).is_err();
            if structure::stale(m, &p, &k, e, r) {
                let mut q = p.clone();
                q.push(k.clone());
                stale.insert(q);
            }
        }
    }
    match db.verify_grovedb(tx, !broken, cache, gv()) {
        Err(e) => viol("verify", format!("verify_grovedb failed: {e}")),
        Ok(issues) => {
            if let Some(p) = issues.keys().find(|p| !stale.contains(*p)) {
                return viol(
                    "verify",
                    format!("verify_grovedb reports {} problems on a healthy database, at {}", issues.len(), pp(p)),
                );
            }
            Ok(())
        }
    }
}

/// the stored bytes of the committed state
pub fn stored(db: &Db, dump: &[(String, B, B)], m: &Model) -> V<structure::H> {
    let (problems, root) = structure::check(dump, m);
    if let Some(p) = problems.first() {
        return viol(p.class, format!("{} ({} problems)", p.msg, problems.len()));
    }
    match db.root_hash(None, gv()).value {
        Err(e) => viol("read-error", format!("root_hash: {e}")),
        Ok(h) => {
            if h != root {
                return viol("structure", "root_hash differs from the hash recomputed from the stored rows");
            }
            Ok(root)
        }
    }
}
