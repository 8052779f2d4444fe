//! Proofs: what an honest one must say, and the oracle that carries it over
//! the simulated network and hands it to every verifier.
use std::collections::BTreeMap;

use grovedb::{
    Element, GroveDb, PathQuery, VerifyOptions,
    operations::proof::ProveOptions,
    query_result_type::PathKeyOptionalElementTrio,
};
use grovedb_merk::TreeFeatureType;
use grovedb_version::version::{GroveVersion, v1::GROVE_V1, v2::GROVE_V2};

use crate::{check::*, model::*, node::*, ops::*, query::*, rng::Rng, sim::Sim};

#[derive(Clone, Debug, PartialEq)]
pub enum PVal<'a> {
    /// an element; a reference stands for what it leads to
    E(&'a Ent),
    /// an entry of an append-only tree
    Bytes(B),
}

#[derive(Clone, Debug)]
pub struct PRow<'a> {
    pub path: Path,
    pub key: B,
    pub val: PVal<'a>,
    /// the element is reached through a reference
    pub via_ref: bool,
    /// put in front of the rows of a subtree on request
    pub parent: bool,
}

#[derive(Default)]
pub struct PAns<'a> {
    pub rows: Vec<PRow<'a>>,
    /// the answer is not specified
    pub open: bool,
    /// an honest prover may be unable to answer (broken reference, reference
    /// to a tree, nothing selected in an append-only tree)
    pub soft: bool,
    /// append-only trees were looked into
    pub appends: bool,
    /// a reference is still bound to an earlier value of its target: the
    /// proof does not fit the root
    pub stale: bool,
    /// an empty sub-answer used up some of the limit
    pub dec: bool,
    /// more subtrees are looked into at one level than a proof has room for
    pub wide: bool,
}

/// what lies under a key
enum Next<'q> {
    No,
    /// the next key of a subquery path, the rest of it, what follows
    Step(&'q [B], Option<&'q QQ>),
    Sub(&'q QQ),
}

fn next<'q>(b: &'q SubB) -> Next<'q> {
    match (&b.path, &b.q) {
        (None, None) => Next::No,
        (Some(p), q) if !p.is_empty() => Next::Step(p, q.as_deref()),
        (_, Some(q)) => Next::Sub(q),
        (Some(_), None) => Next::No,
    }
}

struct Ev<'a> {
    m: &'a Model,
    limit: Option<u16>,
    a: PAns<'a>,
}

pub fn peval<'a>(m: &'a Model, q: &Q) -> PAns<'a> {
    let mut e = Ev { m, limit: q.limit, a: PAns::default() };
    match m.sub(&q.path) {
        Some(s) => e.level(&q.path, s, &q.q),
        None => {
            // through an append-only tree, through something else, or nowhere
            if let Some((k, front)) = q.path.split_last() {
                if let Some(Ent { v, .. }) = m.sub(front).and_then(|s| s.map.get(k)) {
                    if v.is_tree() {
                        e.append(&q.path, v, &q.q.items);
                    } else {
                        e.a.open = true;
                    }
                } else {
                    for n in 1..q.path.len() {
                        if m.at(&q.path[..n]).is_some_and(|x| !matches!(x.v, Val::Tree(_))) {
                            e.a.open = true;
                        }
                    }
                }
            }
        }
    }
    e.a
}

impl<'a> Ev<'a> {
    fn used(&mut self) {
        self.limit = self.limit.map(|x| x.saturating_sub(1));
    }

    fn row(&mut self, path: &[B], key: &B, x: &'a Ent) {
        let mut via_ref = false;
        let mut t = x;
        if let Val::Ref(r, _) = &x.v {
            via_ref = true;
            self.a.stale |= crate::structure::stale(self.m, path, key, x, r);
            match ref_target(r, path, key).and_then(|p| self.m.follow_q(p).ok()) {
                Some((e, _)) => {
                    t = e;
                    if e.v.is_tree() {
                        // references are for items
                        self.a.open = true;
                        self.a.stale = true;
                    }
                }
                None => self.a.soft = true,
            }
        }
        self.a.rows.push(PRow { path: path.to_vec(), key: key.clone(), val: PVal::E(t), via_ref, parent: false });
        self.used();
    }

    fn level(&mut self, path: &[B], sub: &'a Sub, q: &QQ) {
        let start = self.limit;
        let hits: Vec<&'a B> = sub.map.keys().filter(|k| q.items.iter().any(|i| i.has(k))).collect();
        let order: Vec<&'a B> = if q.ltr { hits } else { hits.into_iter().rev().collect() };
        let mut any = false;
        let mut below = 0;
        for k in order {
            if self.limit == Some(0) || self.a.open {
                return;
            }
            let x = &sub.map[k];
            below += (x.v.is_tree() && !x.v.empty_tree() && !matches!(next(q.branch(k)), Next::No)) as usize;
            self.a.wide |= below > 128;
            any |= self.hit(path, k, x, next(q.branch(k)), q.add_parent);
        }
        let _ = start;
        if !any && self.limit != Some(0) {
            self.a.dec = true;
            self.used();
        }
    }

    /// one selected element; true: it counted against the limit
    fn hit(&mut self, path: &[B], k: &B, x: &'a Ent, n: Next, add_parent: bool) -> bool {
        if !x.v.is_tree() || matches!(n, Next::No) {
            self.row(path, k, x);
            return true;
        }
        let mut p = path.to_vec();
        p.push(k.clone());
        if let Val::Tree(s) = &x.v {
            if s.map.is_empty() {
                self.a.dec = true;
                self.used();
                return true;
            }
        }
        if add_parent {
            self.a.rows.push(PRow { path: p.clone(), key: k.clone(), val: PVal::E(x), via_ref: false, parent: true });
        }
        let before = self.limit;
        match (&x.v, n) {
            (Val::Tree(s), Next::Sub(q)) => self.level(&p, s, q),
            (Val::Tree(s), Next::Step(sp, q)) => self.step(&p, s, sp, q),
            (v, Next::Sub(q)) => {
                self.append(&p, v, &q.items);
                return true;
            }
            (v, Next::Step(sp, q)) => {
                if sp.len() > 1 || q.is_some() {
                    // a path through an entry
                    self.a.open = true;
                } else {
                    self.append(&p, v, &[QI::Key(sp[0].clone())]);
                }
                return true;
            }
            (_, Next::No) => unreachable!(),
        }
        self.limit != before
    }

    /// inside a subquery path
    fn step(&mut self, path: &[B], s: &'a Sub, sp: &[B], q: Option<&QQ>) {
        let any = match s.map.get(&sp[0]) {
            None => false,
            Some(x) => {
                let n = match (&sp[1..], q) {
                    ([], None) => Next::No,
                    ([], Some(q)) => Next::Sub(q),
                    (r, q) => Next::Step(r, q),
                };
                // something else than a tree in the middle of a path
                if !x.v.is_tree() && !matches!(n, Next::No) {
                    self.a.open = true;
                    return;
                }
                self.hit(path, &sp[0], x, n, false)
            }
        };
        if !any && self.limit != Some(0) {
            self.a.dec = true;
            self.used();
        }
    }

    fn append(&mut self, path: &[B], v: &'a Val, items: &[QI]) {
        self.a.appends = true;
        let (n, width): (usize, usize) = match v {
            Val::Mmr(x) => (x.len(), 8),
            Val::Bulk(_, x) => (x.len(), 8),
            Val::Commit(_, x) => (x.len(), 8),
            Val::Dense(_, x) => (x.len(), 2),
            _ => {
                self.a.open = true;
                return;
            }
        };
        if !items.iter().all(|i| i.bounds().iter().all(|b| b.len() == width)) {
            self.a.open = true;
            return;
        }
        let mut any = false;
        for i in 0..n {
            let key: B = (i as u64).to_be_bytes()[8 - width..].to_vec();
            if !items.iter().any(|q| q.has(&key)) {
                continue;
            }
            if self.limit == Some(0) {
                break;
            }
            any = true;
            let b = match v {
                Val::Mmr(x) | Val::Bulk(_, x) | Val::Dense(_, x) => x[i].clone(),
                Val::Commit(_, x) => note_value(&x[i]),
                _ => unreachable!(),
            };
            self.a.rows.push(PRow { path: path.to_vec(), key, val: PVal::Bytes(b), via_ref: false, parent: false });
            self.used();
        }
        if !any {
            // whether nothing can be proved about an append-only tree is open,
            // and what that does to a limit
            self.a.soft = true;
            self.a.open |= self.limit.is_some();
        }
    }
}

pub fn same_pval(v: &PVal, e: &Element) -> Result<(), String> {
    match v {
        PVal::E(x) => same_element(x, e),
        PVal::Bytes(b) => match e {
            Element::Item(c, None) if b == c => Ok(()),
            _ => Err(format!("entry is {e}, expected {}", hx(b))),
        },
    }
}

pub fn compare(rows: &[&PRow], got: &[PathKeyOptionalElementTrio], what: &str) -> Result<(), String> {
    if rows.len() != got.len() {
        let list: Vec<String> = rows.iter().take(8).map(|r| format!("{}:{}", pp(&r.path), hx(&r.key))).collect();
        return Err(format!(
            "{what}: {} elements, {} expected ({}); got {:?}",
            got.len(),
            rows.len(),
            list.join(" "),
            got.iter().take(8).map(|g| format!("{}:{}", pp(&g.0), hx(&g.1))).collect::<Vec<_>>()
        ));
    }
    for (r, (p, k, e)) in rows.iter().zip(got) {
        if p != &r.path || k != &r.key {
            return Err(format!("{what}: got {} {}, expected {} {}", pp(p), hx(k), pp(&r.path), hx(&r.key)));
        }
        match e {
            None => return Err(format!("{what}: no element at {} {}", pp(p), hx(k))),
            Some(e) => same_pval(&r.val, e).map_err(|m| format!("{what}: at {} {}: {m}", pp(p), hx(k)))?,
        }
    }
    Ok(())
}

pub fn version(v: u8) -> &'static GroveVersion {
    match v % 8 {
        6 => &GROVE_V1,
        7 => &GROVE_V2,
        _ => gv(),
    }
}

pub const ALL: VerifyOptions = VerifyOptions {
    absence_proofs_for_non_existing_searched_keys: false,
    verify_proof_succinctness: true,
    include_empty_trees_in_result: true,
};

pub fn opts(absence: bool, succinct: bool, empty: bool) -> VerifyOptions {
    VerifyOptions {
        absence_proofs_for_non_existing_searched_keys: absence,
        verify_proof_succinctness: succinct,
        include_empty_trees_in_result: empty,
    }
}

/// an empty plain tree that is a result
pub fn plain_empty(r: &PRow) -> bool {
    !r.parent && matches!(r.val, PVal::E(Ent { v: Val::Tree(s), .. }) if s.kind == Kind::Normal && s.map.is_empty())
}

type R<T> = Result<T, String>;

/// an error without the query it repeats
fn es(e: &grovedb::Error) -> String {
    match e {
        grovedb::Error::InvalidProof(_, m) => format!("InvalidProof {m}"),
        e => format!("{e:?}"),
    }
}

pub fn prove(s: &mut Sim, q: &Q, v: u8) -> V {
    if q.limit == Some(0) || q.offset.is_some() {
        return Ok(());
    }
    s.st.queries += 1;
    let m = s.expected();
    let g = version(v);
    let a = peval(&m, q);
    let old = g.grovedb_versions.operations.proof.prove_query_non_serialized == 0;
    // nothing can be proved about an empty database
    let mut soft = a.soft || a.wide && !s.allow.contains("wide-proof") || a.stale || (old && a.appends) || m.root.map.is_empty();
    let pq = q.to();
    let o = match v / 8 % 4 {
        0 => None,
        1 => Some(ProveOptions::default()),
        _ => {
            let o = ProveOptions { decrease_limit_on_empty_sub_query_result: false };
            // the verifier of such a proof assumes the default
            soft |= q.limit.is_some() && a.dec && !old;
            Some(o)
        }
    };
    let open = a.open || (o.as_ref().is_some_and(|o| !o.decrease_limit_on_empty_sub_query_result) && a.dec && q.limit.is_some());
    let root = match s.node.db().root_hash(None, g).value {
        Ok(h) => h,
        Err(e) => return viol("read-error", format!("root hash failed: {e:?}")),
    };
    let proof = match s.node.db().prove_query(&pq, o, g).value {
        Ok(p) => p,
        Err(e) if soft || open => {
            let _ = e;
            s.st.ev("queries no proof can answer");
            return Ok(());
        }
        Err(e) => return viol("read-error", format!("prove_query failed: {e:?}; query {}", show_q(q))),
    };
    s.st.rows += a.rows.len() as u64;
    s.st.ev("proofs carried");
    match guard(|| verify_all(&proof, q, &pq, &a, &m, root, g, soft, open, old, v)) {
        Caught::Done(Ok(())) => Ok(()),
        Caught::Done(Err(e)) => viol("proof", format!("{e}; query {}; {}", show_q(q), if old { "V0" } else { "V1" })),
        Caught::Panicked(e) => viol("panic", format!("verifying an honest proof panicked: {e}; query {}", show_q(q))),
        Caught::Crashed => Ok(()),
    }
}

/// is this proof right for that state; None: not specified
pub fn carried(proof: &[u8], m: &Model, q: &Q, v: u8, root: [u8; 32]) -> Option<R<()>> {
    if q.limit == Some(0) || q.offset.is_some() {
        return None;
    }
    let g = version(v);
    let a = peval(m, q);
    let old = g.grovedb_versions.operations.proof.prove_query_non_serialized == 0;
    if a.soft || a.open || a.wide || a.stale || (old && a.appends) || m.root.map.is_empty() {
        return None;
    }
    if proof.is_empty() {
        return Some(Err("no proof".into()));
    }
    Some(match guard(|| verify_all(proof, q, &q.to(), &a, m, root, g, false, false, old, v)) {
        Caught::Done(r) => r,
        Caught::Panicked(e) => Err(format!("verifying panicked: {e}")),
        Caught::Crashed => Ok(()),
    })
}

fn verify_all(
    proof: &[u8],
    q: &Q,
    pq: &PathQuery,
    a: &PAns,
    m: &Model,
    root: [u8; 32],
    g: &GroveVersion,
    soft: bool,
    open: bool,
    old: bool,
    v: u8,
) -> R<()> {
    let rows: Vec<&PRow> = a.rows.iter().collect();
    let judge = |what: &str, rows: &[&PRow], r: Result<([u8; 32], Vec<PathKeyOptionalElementTrio>), grovedb::Error>| -> R<()> {
        match r {
            Err(_) if soft || open => Ok(()),
            Err(e) => Err(format!("{what}: an honest proof is refused: {}", es(&e))),
            Ok((h, got)) => {
                // an answer that is not specified may involve such a reference
                // without the oracle having looked at it
                if open || h != root && a.stale {
                    return Ok(());
                }
                if h != root {
                    return Err(format!("{what}: root {} instead of {}", hx(&h), hx(&root)));
                }
                compare(rows, &got, what)
            }
        }
    };
    judge("verify", &rows, GroveDb::verify_query_with_options(proof, pq, ALL, g))?;
    judge("verify (subset)", &rows, GroveDb::verify_query_with_options(proof, pq, opts(false, false, true), g))?;
    let raw = GroveDb::verify_query_raw(proof, pq, g).map(|(h, rows)| {
        (h, rows.into_iter().map(|r| (r.path, r.key, Element::deserialize(&r.value, g).ok())).collect::<Vec<_>>())
    });
    judge("verify_query_raw", &rows, raw)?;
    let fewer: Vec<&PRow> = rows.iter().filter(|r| !plain_empty(r)).copied().collect();
    // a dropped empty tree leaves room the prover did not fill
    if q.limit.is_none() || fewer.len() == rows.len() {
        judge("verify_query", &fewer, GroveDb::verify_query(proof, pq, g))?;
        judge("verify_subset_query", &fewer, GroveDb::verify_subset_query(proof, pq, g))?;
    } else if let Ok((h, got)) = GroveDb::verify_query(proof, pq, g) {
        if h == root && !open {
            let _ = got;
        }
    }
    if open || a.stale {
        return Ok(());
    }
    absence(proof, q, a, m, root, g, soft)?;
    parent_info(proof, q, pq, &rows, m, root, g, soft)?;
    subset(proof, q, m, root, g, soft, old, v)
}

/// absent keys are reported as absent
fn absence(proof: &[u8], q: &Q, a: &PAns, m: &Model, root: [u8; 32], g: &GroveVersion, soft: bool) -> R<()> {
    let Some(l) = q.limit else { return Ok(()) };
    if q.q.has_sub() || q.q.items.iter().any(|i| !i.is_key()) || m.sub(&q.path).is_none() {
        return Ok(());
    }
    let mut keys: Vec<&B> = q
        .q
        .items
        .iter()
        .map(|i| match i {
            QI::Key(k) => k,
            _ => unreachable!(),
        })
        .collect();
    keys.sort();
    keys.dedup();
    let r = GroveDb::verify_query_with_options(proof, &q.to(), opts(true, true, true), g);
    if keys.len() > l as usize {
        // the list of searched keys does not fit the limit
        return Ok(());
    }
    let sub = m.sub(&q.path).unwrap();
    match r {
        Err(_) if soft => Ok(()),
        Err(e) => Err(format!("verify with absence: an honest proof is refused: {}", es(&e))),
        Ok((h, got)) => {
            if h != root {
                return Err("verify with absence: wrong root".into());
            }
            let mut seen: BTreeMap<B, Option<Element>> = BTreeMap::new();
            for (p, k, e) in &got {
                if p != &q.path || seen.insert(k.clone(), e.clone()).is_some() {
                    return Err(format!("verify with absence: unexpected {} {}", pp(p), hx(k)));
                }
            }
            if seen.keys().collect::<Vec<_>>() != keys {
                return Err(format!("verify with absence: keys {:?}, expected {keys:?}", seen.keys().map(|k| hx(k)).collect::<Vec<_>>()));
            }
            for (k, e) in &seen {
                match (sub.map.get(k), e) {
                    (None, None) => {}
                    (Some(_), Some(e)) => {
                        let Some(r) = a.rows.iter().find(|r| &r.key == k) else { continue };
                        same_pval(&r.val, e).map_err(|x| format!("verify with absence: at {}: {x}", hx(k)))?;
                    }
                    (x, _) => {
                        return Err(format!("verify with absence: key {} is {}, told {e:?}", hx(k), if x.is_some() { "there" } else { "absent" }));
                    }
                }
            }
            Ok(())
        }
    }
}

fn feature(s: &Sub) -> TreeFeatureType {
    let a = s.agg();
    match s.kind {
        Kind::Normal => TreeFeatureType::BasicMerkNode,
        Kind::Sum => TreeFeatureType::SummedMerkNode(a.sum as i64),
        Kind::BigSum => TreeFeatureType::BigSummedMerkNode(a.sum),
        Kind::Count => TreeFeatureType::CountedMerkNode(a.count),
        Kind::CountSum => TreeFeatureType::CountedSummedMerkNode(a.count, a.sum as i64),
        Kind::PCount => TreeFeatureType::ProvableCountedMerkNode(a.count),
        Kind::PCountSum => TreeFeatureType::ProvableCountedSummedMerkNode(a.count, a.sum as i64),
    }
}

fn parent_info(
    proof: &[u8],
    q: &Q,
    pq: &PathQuery,
    rows: &[&PRow],
    m: &Model,
    root: [u8; 32],
    g: &GroveVersion,
    soft: bool,
) -> R<()> {
    if q.q.has_sub() || q.path.is_empty() {
        return Ok(());
    }
    let Some(s) = m.sub(&q.path) else { return Ok(()) };
    if s.map.is_empty() {
        return Ok(());
    }
    match GroveDb::verify_query_get_parent_tree_info_with_options(proof, pq, ALL, g) {
        Err(_) if soft => Ok(()),
        Err(e) => Err(format!("parent tree info: an honest proof is refused: {}", es(&e))),
        Ok((h, t, got)) => {
            if h != root {
                return Err("parent tree info: wrong root".into());
            }
            if t != feature(s) {
                return Err(format!("parent tree info: {t:?}, expected {:?}", feature(s)));
            }
            compare(rows, &got, "parent tree info")
        }
    }
}

/// a smaller query answered from the same proof
fn subset(proof: &[u8], q: &Q, m: &Model, root: [u8; 32], g: &GroveVersion, soft: bool, old: bool, v: u8) -> R<()> {
    if q.limit.is_some() || q.q.add_parent {
        return Ok(());
    }
    let mut small = q.clone();
    let n = q.q.items.len();
    let Some(sub) = m.sub(&q.path) else { return Ok(()) };
    let mut r = Rng::new(v as u64 ^ (proof.len() as u64) << 8);
    let hits: Vec<&B> = sub.map.keys().filter(|k| q.q.items.iter().any(|i| i.has(k))).collect();
    match r.below(3) {
        0 if n > 1 => {
            small.q.items.remove(r.below(n));
        }
        1 | 0 if !hits.is_empty() => small.q.items = vec![QI::Key((*r.pick(&hits)).clone())],
        _ => {
            // an absent key the query covers
            let k = near_key(&mut r, &hits);
            if !q.q.items.iter().any(|i| i.has(&k)) {
                return Ok(());
            }
            small.q.items = vec![QI::Key(k)];
        }
    }
    let a = peval(m, &small);
    if a.open {
        return Ok(());
    }
    let rows: Vec<&PRow> = a.rows.iter().collect();
    let soft = soft || a.soft || (old && a.appends);
    match GroveDb::verify_query_with_options(proof, &small.to(), opts(false, false, true), g) {
        Err(_) if soft => Ok(()),
        Err(e) => Err(format!("subset {}: an honest proof is refused: {}", show_q(&small), es(&e))),
        Ok((h, got)) => {
            if h != root {
                return Err("subset: wrong root".into());
            }
            compare(&rows, &got, &format!("subset {}", show_q(&small)))
        }
    }?;
    chained(proof, &small, &a, q, m, root, g, soft)
}

/// a chain of queries answered from the same proof
fn chained(proof: &[u8], first: &Q, a: &PAns, q: &Q, m: &Model, root: [u8; 32], g: &GroveVersion, soft: bool) -> R<()> {
    let b = peval(m, q);
    if b.open || soft || b.soft || a.soft {
        return Ok(());
    }
    let fewer = |x: &PAns<'_>| x.rows.iter().filter(|r| !plain_empty(r)).cloned().collect::<Vec<_>>().len();
    let told = std::cell::Cell::new(usize::MAX);
    let r = GroveDb::verify_query_with_chained_path_queries(
        proof,
        &first.to(),
        vec![|rows: Vec<PathKeyOptionalElementTrio>| {
            told.set(rows.len());
            Some(q.to())
        }],
        g,
    );
    match r {
        Err(e) => Err(format!("chained {}: an honest proof is refused: {}", show_q(first), es(&e))),
        Ok((h, res)) => {
            if h != root {
                return Err("chained: wrong root".into());
            }
            if res.len() != 2 || told.get() != fewer(a) {
                return Err(format!("chained: {} answers, the second query was made from {} elements", res.len(), told.get()));
            }
            let f = |x: &PAns<'_>, got: &[PathKeyOptionalElementTrio], what: &str| {
                let rows: Vec<&PRow> = x.rows.iter().filter(|r| !plain_empty(r)).collect();
                compare(&rows, got, what)
            };
            f(a, &res[0], "chained, first")?;
            f(&b, &res[1], "chained, second")
        }
    }
}

// ---------------------------------------------------------------- generator

fn pos_key(r: &mut Rng, n: usize, width: usize) -> B {
    let i = match r.below(10) {
        0 => n as u64,
        1 => n as u64 + 1,
        2 if r.chance(1, 3) => u64::MAX,
        _ => r.below(n.max(1)) as u64,
    };
    i.to_be_bytes()[8 - width..].to_vec()
}

pub fn gen_positions(r: &mut Rng, n: usize, width: usize) -> Vec<QI> {
    (0..r.range(1, 3))
        .map(|_| {
            let mut a = pos_key(r, n, width);
            let mut b = pos_key(r, n, width);
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            match r.below(13) {
                0..=3 => QI::Key(a),
                4 => QI::R(a, b),
                5 => QI::RI(a, b),
                6 => QI::Full,
                7 => QI::From(a),
                8 => QI::To(b),
                9 => QI::ToI(b),
                10 => QI::After(a),
                11 => QI::AfterTo(a, b),
                _ => QI::AfterToI(a, b),
            }
        })
        .collect()
}

/// queries for proofs: the ordinary ones, and into append-only trees
pub fn gen_pq(r: &mut Rng, m: &Model) -> Q {
    let mut q = gen_q(r, m);
    q.offset = None;
    let mut at: Vec<(Path, B, usize, usize)> = vec![];
    for (p, _) in m.subtrees() {
        for (k, e) in &m.sub(&p).unwrap().map {
            let (n, w) = match &e.v {
                Val::Mmr(x) | Val::Bulk(_, x) => (x.len(), 8),
                Val::Commit(_, x) => (x.len(), 8),
                Val::Dense(_, x) => (x.len(), 2),
                _ => continue,
            };
            at.push((p.clone(), k.clone(), n, w));
        }
    }
    if !at.is_empty() && r.chance(1, 3) {
        let (p, k, n, w) = r.pick(&at).clone();
        let items = gen_positions(r, n, w);
        let inner = QQ::keys(items);
        q = match r.below(4) {
            0 => {
                let mut full = p.clone();
                full.push(k);
                Q { path: full, q: inner, limit: q.limit, offset: None }
            }
            1 => {
                let mut o = QQ::keys(vec![QI::Key(k)]);
                o.sub.q = Some(Box::new(inner));
                Q { path: p, q: o, limit: q.limit, offset: None }
            }
            2 => {
                let mut o = QQ::keys(vec![QI::Full]);
                o.ltr = r.chance(1, 2);
                o.cond.push((QI::Key(k), SubB { path: None, q: Some(Box::new(inner)) }));
                Q { path: p, q: o, limit: q.limit, offset: None }
            }
            _ if !p.is_empty() => {
                let mut front = p.clone();
                let mut top = front.pop().unwrap();
                let mut way = vec![k];
                while !front.is_empty() && r.chance(1, 3) {
                    way.insert(0, top);
                    top = front.pop().unwrap();
                }
                let mut o = QQ::keys(vec![if r.chance(1, 2) { QI::Full } else { QI::Key(top) }]);
                o.sub = SubB { path: Some(way), q: Some(Box::new(inner)) };
                Q { path: front, q: o, limit: q.limit, offset: None }
            }
            _ => q,
        };
    }
    if r.chance(1, 10) {
        q.q.add_parent = true;
    }
    if r.chance(1, 8) {
        // keys only, with absences
        let subs = m.subtrees();
        let path = subs[r.below(subs.len())].0.clone();
        let keys: Vec<&B> = m.sub(&path).unwrap().map.keys().collect();
        let items: Vec<QI> = (0..r.range(1, 6)).map(|_| QI::Key(near_key(r, &keys))).collect();
        let mut qq = QQ::keys(items);
        qq.ltr = r.chance(2, 3);
        q = Q { path, q: qq, limit: Some(r.range(4, 9) as u16), offset: None };
    }
    q
}
