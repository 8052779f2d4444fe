//! Query algebra: items, sets of items, nested queries and their merging,
//! against plain sets of keys.
use std::collections::{BTreeMap, BTreeSet};

use grovedb::PathQuery;
use grovedb_query::{Query, QueryItem, SubqueryBranch, query_item::intersect::Direction};

use crate::{
    check::*,
    comp::*,

    node::{gv, hx, pp},
    ops::*,
    plan::*,
    query::{Q, QI, QQ, SubB},
    rng::*,
    sim::Stats,
};

/// the bytes keys are made of
const AL: [u8; 4] = [0, 1, 2, 255];

thread_local! {
    /// every key the items are judged on: for each bound, also the key right
    /// after it, so an item that selects any key at all selects one of these
    static KEYS: Vec<B> = {
        let mut v: Vec<B> = vec![vec![]];
        let mut last: Vec<B> = vec![vec![]];
        for _ in 0..3 {
            last = last.iter().flat_map(|k| AL.iter().map(move |b| { let mut k = k.clone(); k.push(*b); k })).collect();
            v.extend(last.iter().cloned());
        }
        v.sort();
        v
    };
}

fn bound(r: &mut Rng) -> B {
    let n = *r.pick(&[0usize, 1, 1, 1, 1, 2, 2]);
    (0..n).map(|_| *r.pick(&AL)).collect()
}

fn item(r: &mut Rng) -> QI {
    loop {
        let (mut a, mut b) = (bound(r), bound(r));
        if a > b && !r.chance(1, 30) {
            std::mem::swap(&mut a, &mut b);
        }
        let i = match r.below(12) {
            0..=2 => QI::Key(a),
            3 => QI::R(a, b),
            4 => QI::RI(a, b),
            5 => QI::Full,
            6 => QI::From(a),
            7 => QI::To(b),
            8 => QI::ToI(b),
            9 => QI::After(a),
            10 => QI::AfterTo(a, b),
            _ => QI::AfterToI(a, b),
        };
        if !i.is_void() || r.chance(1, 20) {
            return i;
        }
    }
}

fn back(i: &QueryItem) -> QI {
    match i.clone() {
        QueryItem::Key(a) => QI::Key(a),
        QueryItem::Range(r) => QI::R(r.start, r.end),
        QueryItem::RangeInclusive(r) => QI::RI(r.start().clone(), r.end().clone()),
        QueryItem::RangeFull(_) => QI::Full,
        QueryItem::RangeFrom(r) => QI::From(r.start),
        QueryItem::RangeTo(r) => QI::To(r.end),
        QueryItem::RangeToInclusive(r) => QI::ToI(r.end),
        QueryItem::RangeAfter(r) => QI::After(r.start),
        QueryItem::RangeAfterTo(r) => QI::AfterTo(r.start, r.end),
        QueryItem::RangeAfterToInclusive(r) => QI::AfterToI(r.start().clone(), r.end().clone()),
    }
}

fn back_b(b: &SubqueryBranch) -> SubB {
    SubB { path: b.subquery_path.clone(), q: b.subquery.as_ref().map(|q| Box::new(back_q(q))) }
}

fn back_q(q: &Query) -> QQ {
    QQ {
        items: q.items.iter().map(back).collect(),
        sub: back_b(&q.default_subquery_branch),
        cond: q.conditional_subquery_branches.iter().flatten().map(|(i, b)| (back(i), back_b(b))).collect(),
        ltr: q.left_to_right,
        add_parent: q.add_parent_tree_on_subquery,
    }
}

type Keys = BTreeSet<B>;

fn set(f: impl Fn(&[u8]) -> bool) -> Keys {
    KEYS.with(|k| k.iter().filter(|k| f(k)).cloned().collect())
}

fn of<'a>(i: impl IntoIterator<Item = &'a QueryItem>) -> Keys {
    let v: Vec<QI> = i.into_iter().map(back).collect();
    set(|k| v.iter().any(|i| i.has(k)))
}

fn show(k: &Keys) -> String {
    let v: Vec<String> = k.iter().take(6).map(|k| hx(k)).collect();
    format!("{} keys {v:?}", k.len())
}

fn eqs(what: &str, got: &Keys, want: &Keys, of: &dyn Fn() -> String) -> V {
    ensure(got == want, "query-set", || {
        let more: Keys = got.difference(want).cloned().collect();
        let less: Keys = want.difference(got).cloned().collect();
        format!("{what} of {}: too many {}, missing {}", of(), show(&more), show(&less))
    })
}

// ------------------------------------------------------------ nested queries

/// a database of nothing but trees and items
#[derive(Clone, Debug, Default)]
struct T(BTreeMap<B, Option<T>>);

fn gen_t(r: &mut Rng, depth: usize) -> T {
    let mut t = T::default();
    let full = depth == 0 || r.chance(1, 2);
    for k in [vec![], vec![0], vec![1], vec![2], vec![1, 0], vec![1, 1], vec![255]] {
        if !full && r.chance(1, 3) {
            continue;
        }
        let leaf = depth == 3 || r.chance(1, 4);
        t.0.insert(k, if leaf { None } else { Some(gen_t(r, depth + 1)) });
    }
    t
}

impl T {
    fn at(&self, p: &[B]) -> Option<&T> {
        let mut t = self;
        for k in p {
            t = t.0.get(k)?.as_ref()?;
        }
        Some(t)
    }
    fn has(&self, p: &[B], k: &B) -> bool {
        self.at(p).is_some_and(|t| t.0.contains_key(k))
    }
}

#[derive(Default)]
struct Ans {
    /// the elements selected
    rows: BTreeSet<(Path, B)>,
    /// the trees looked into
    into: BTreeSet<(Path, B)>,
}

fn eval(q: &QQ, t: &T, path: &Path, a: &mut Ans) {
    let Some(here) = t.at(path) else { return };
    for (k, v) in &here.0 {
        if !q.items.iter().any(|i| i.has(k)) {
            continue;
        }
        let b = q.branch(k);
        if v.is_none() || b.is_none() {
            a.rows.insert((path.clone(), k.clone()));
            continue;
        }
        let mut p = path.clone();
        let mut key = k.clone();
        for s in b.path.iter().flatten() {
            a.into.insert((p.clone(), key.clone()));
            p.push(key);
            key = s.clone();
        }
        match &b.q {
            Some(sq) => {
                a.into.insert((p.clone(), key.clone()));
                p.push(key);
                eval(sq, t, &p, a);
            }
            None => {
                if t.has(&p, &key) {
                    a.rows.insert((p, key));
                }
            }
        }
    }
}

fn answer(q: &Q, t: &T) -> Ans {
    let mut a = Ans::default();
    for i in 0..q.path.len() {
        a.into.insert((q.path[..i].to_vec(), q.path[i].clone()));
    }
    eval(&q.q, t, &q.path, &mut a);
    a
}

fn small(r: &mut Rng) -> B {
    r.pick(&[vec![], vec![0], vec![1], vec![2], vec![1, 0], vec![1, 1], vec![255]]).clone()
}

fn small_item(r: &mut Rng) -> QI {
    loop {
        let (mut a, mut b) = (small(r), small(r));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let i = match r.below(14) {
            0..=5 => QI::Key(a),
            6 => QI::R(a, b),
            7 => QI::RI(a, b),
            8 => QI::Full,
            9 => QI::From(a),
            10 => QI::ToI(b),
            11 => QI::After(a),
            12 => QI::AfterTo(a, b),
            _ => QI::AfterToI(a, b),
        };
        if !i.is_void() || r.chance(1, 20) {
            return i;
        }
    }
}

fn gen_sub(r: &mut Rng, depth: usize) -> SubB {
    let mut s = SubB::default();
    if r.chance(1, 3) {
        s.path = Some((0..*r.pick(&[1, 1, 1, 2, 2, 3, 4])).map(|_| small(r)).collect());
    }
    if depth < 3 && (s.path.is_none() || r.chance(2, 3)) {
        s.q = Some(Box::new(gen_qq(r, depth + 1)));
    }
    s
}

fn gen_qq(r: &mut Rng, depth: usize) -> QQ {
    let mut q = QQ::keys((0..r.range(1, 2)).map(|_| small_item(r)).collect());
    if r.chance(2, 3) {
        q.sub = gen_sub(r, depth);
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let i = small_item(r);
            if q.cond.iter().all(|(j, _)| *j != i) {
                let s = if r.chance(1, 6) { SubB::default() } else { gen_sub(r, depth) };
                q.cond.push((i, s));
            }
        }
    }
    q.ltr = r.chance(3, 4);
    q.add_parent = r.chance(1, 8);
    q
}

fn gen_q(r: &mut Rng, base: &[B]) -> Q {
    let mut path = base.to_vec();
    for _ in 0..*r.pick(&[0usize, 0, 0, 1, 1, 2]) {
        path.push(small(r));
    }
    Q { path, q: gen_qq(r, 0), limit: None, offset: None }
}

fn show_q(q: &QQ) -> String {
    serde_json::to_string(q).unwrap()
}

fn cfg() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_no_limit()
}

pub struct QueryM {
    r: Rng,
    left: usize,
    st: Stats,
    allow: Vec<String>,
}

impl QueryM {
    pub fn new(seed: u64, allow: &[String]) -> Self {
        let mut r = Rng::new(seed);
        let left = r.range(20, 80);
        QueryM { r, left, st: Stats::default(), allow: allow.to_vec() }
    }
    fn allowed(&self, t: &str) -> bool {
        self.allow.iter().any(|a| a == t)
    }

    fn items(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let (a, b, c) = (item(&mut r), item(&mut r), item(&mut r));
        let (x, y, z) = (a.to(), b.to(), c.to());
        let w = || format!("{a:?}");
        let (sa, sb) = (set(|k| a.has(k)), set(|k| b.has(k)));
        eqs("contains", &set(|k| x.contains(k)), &sa, &w)?;
        ensure(x.is_empty_range() == a.is_void(), "query-set", || format!("is_empty_range of {a:?}: {}", x.is_empty_range()))?;
        ensure(!a.is_void() || sa.is_empty(), "harness", || format!("void {a:?}"))?;
        ensure(back(&x) == a, "harness", || format!("{a:?}"))?;
        let fp: usize = match &a {
            QI::Key(k) => k.len(),
            _ => a.bounds().iter().map(|k| k.len()).sum(),
        };
        ensure(x.processing_footprint() as usize == fp, "query-set", || format!("processing_footprint of {a:?}"))?;
        ensure(x.is_key() == a.is_key() && x.is_single() == a.is_key() && x.is_range() != a.is_key(), "query-set", || {
            format!("kind of {a:?}")
        })?;
        ensure(x.lower_unbounded() == matches!(a, QI::Full | QI::To(_) | QI::ToI(_)), "query-set", || format!("lower_unbounded of {a:?}"))?;
        ensure(x.upper_unbounded() == matches!(a, QI::Full | QI::From(_) | QI::After(_)), "query-set", || {
            format!("upper_unbounded of {a:?}")
        })?;
        let rs = x.to_range_set();
        match rs.to_query_item() {
            Some(i) => eqs("item of the range set", &of([&i]), &sa, &w)?,
            None => return viol("query-set", format!("no item for the range set of {a:?}")),
        }
        if let Some(rb) = x.to_range_set_borrowed() {
            eqs("could_contain_key", &set(|k| rb.could_contain_key(k).included), &sa, &w)?;
            if !sa.is_empty() {
                KEYS.with(|ks| {
                    for k in ks {
                        let left = sa.iter().next().unwrap() < k;
                        let right = sa.iter().next_back().unwrap() > k;
                        let gl = rb.could_have_items_in_direction(k, Direction::LeftOf);
                        let gr = rb.could_have_items_in_direction(k, Direction::RightOf);
                        ensure((gl || !left) && (gr || !right), "query-set", || {
                            format!("{a:?} has keys left of {}: {left}, said {gl}; right: {right}, said {gr}", hx(k))
                        })?;
                        // beside the item there is nothing in that direction
                        let kc = rb.could_contain_key(k);
                        if !kc.included && !kc.on_bounds_not_included {
                            ensure(gl == left && gr == right, "query-set", || {
                                format!("{a:?} beside {}: left {left}, said {gl}; right {right}, said {gr}", hx(k))
                            })?;
                        }
                    }
                    Ok(())
                })?;
            }
        } else {
            return viol("query-set", format!("no range set of {a:?}"));
        }
        // the distinct keys
        let all: Result<Vec<B>, _> = x.keys();
        let all2 = x.clone().keys_consume();
        ensure(all.is_ok() == all2.is_ok() && all.as_ref().ok() == all2.as_ref().ok(), "query-set", || {
            format!("keys and keys_consume of {a:?} differ")
        })?;
        match (&a, all) {
            (QI::Key(k), Ok(v)) => ensure(v == vec![k.clone()], "query-set", || format!("keys of {a:?}: {v:?}"))?,
            (QI::R(..) | QI::RI(..), Ok(v)) => {
                let mut want: Vec<B> = vec![];
                if a.has(&[]) {
                    want.push(vec![]);
                }
                want.extend((0..=255u8).map(|b| vec![b]).filter(|k| a.has(k)));
                ensure(v == want, "query-set", || format!("keys of {a:?}: {v:?}"))?
            }
            (QI::R(s, e) | QI::RI(s, e), Err(_)) => {
                ensure(s.len() > 1 || e.len() != 1, "query-set", || format!("keys of {a:?} refused"))?
            }
            (QI::Key(_), Err(e)) => return viol("query-set", format!("keys of {a:?}: {e}")),
            (_, Ok(v)) => return viol("query-set", format!("keys of {a:?}: {v:?}")),
            (_, Err(_)) => {}
        }
        // order
        use std::cmp::Ordering as O;
        ensure(x.cmp(&y) == y.cmp(&x).reverse(), "query-set", || format!("order of {a:?} and {b:?} depends on the side"))?;
        {
            if x.cmp(&y) != O::Greater && y.cmp(&z) != O::Greater {
                ensure(x.cmp(&z) != O::Greater, "query-set", || format!("order of {a:?}, {b:?}, {c:?} is not transitive"))?;
            }
            if !sa.is_empty() && !sb.is_empty() && sa.is_disjoint(&sb) {
                let want = if sa.iter().next_back() < sb.iter().next() {
                    Some(O::Less)
                } else if sb.iter().next_back() < sa.iter().next() {
                    Some(O::Greater)
                } else {
                    None
                };
                ensure(want.is_some_and(|w| w == x.cmp(&y)), "query-set", || format!("order of {a:?} and {b:?}: {:?}", x.cmp(&y)))?;
            }
            // intersection
            let i = x.intersect(&y);
            let w = || format!("{a:?} and {b:?}");
            let both: Keys = sa.intersection(&sb).cloned().collect();
            let ours: Keys = sa.difference(&sb).cloned().collect();
            let theirs: Keys = sb.difference(&sa).cloned().collect();
            eqs("what is in both", &of(i.in_both.iter()), &both, &w)?;
            eqs("what is in the first only", &of(i.ours_left.iter().chain(&i.ours_right)), &ours, &w)?;
            eqs("what is in the second only", &of(i.theirs_left.iter().chain(&i.theirs_right)), &theirs, &w)?;
            for (l, rt) in [(&i.ours_left, &i.ours_right), (&i.theirs_left, &i.theirs_right)] {
                let (l, rt) = (of(l.iter()), of(rt.iter()));
                let o: Keys = if both.is_empty() { Keys::new() } else { both.clone() };
                if let (Some(m), Some(f)) = (l.iter().next_back(), o.iter().next()) {
                    ensure(m < f, "query-set", || format!("left part of {a:?} and {b:?} is not left"))?;
                }
                if let (Some(m), Some(f)) = (rt.iter().next(), o.iter().next_back()) {
                    ensure(m > f, "query-set", || format!("right part of {a:?} and {b:?} is not right"))?;
                }
            }
            if !both.is_empty() {
                ensure(x.collides_with(&y), "query-set", || format!("{a:?} and {b:?} do not collide"))?;
            }
            if x.collides_with(&y) {
                let mut m = x.clone();
                m.merge_assign(&y);
                ensure(m == x.merge(&y), "query-set", || format!("merge_assign and merge of {a:?} and {b:?} differ"))?;
                let union: Keys = sa.union(&sb).cloned().collect();
                eqs("merging", &of([&m]), &union, &w)?;
            }
        }
        // encoding
        let bytes = bincode::encode_to_vec(&x, cfg()).unwrap();
        let d: Result<(QueryItem, usize), _> = bincode::decode_from_slice(&bytes, cfg());
        let d2: Result<(QueryItem, usize), _> = bincode::borrow_decode_from_slice(&bytes, cfg());
        for d in [d, d2] {
            match d {
                Ok((i, n)) => ensure(i == x && n == bytes.len(), "query-coding", || format!("{a:?} decoded as {i:?}"))?,
                Err(e) => return viol("query-coding", format!("{a:?} does not decode: {e}")),
            }
        }
        Ok(())
    }

    fn sets(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let gen_set = |r: &mut Rng| {
            let n = r.range(1, 5);
            let mut items = vec![];
            while items.len() < n {
                items.push(if r.chance(1, 2) { small_item(r) } else { item(r) });
            }
            let mut q = Query::new();
            let mut want = Keys::new();
            for i in &items {
                want.extend(set(|k| i.has(k)));
                if r.chance(1, 2) {
                    q.insert_item(i.to());
                } else {
                    match i.clone() {
                        QI::Key(a) => q.insert_key(a),
                        QI::R(a, b) => q.insert_range(a..b),
                        QI::RI(a, b) => q.insert_range_inclusive(a..=b),
                        QI::Full => q.insert_all(),
                        QI::From(a) => q.insert_range_from(a..),
                        QI::To(a) => q.insert_range_to(..a),
                        QI::ToI(a) => q.insert_range_to_inclusive(..=a),
                        QI::After(a) => q.insert_range_after(a..),
                        QI::AfterTo(a, b) => q.insert_range_after_to(a..b),
                        QI::AfterToI(a, b) => q.insert_range_after_to_inclusive(a..=b),
                    }
                }
            }
            (items, q, want)
        };
        let (a, qa, sa) = gen_set(&mut r);
        let (b, qb, sb) = gen_set(&mut r);
        let w = || format!("{a:?}");
        eqs("items inserted", &of(&qa.items), &sa, &w)?;
        let s: Vec<Keys> = qa.items.iter().map(|i| of([i])).filter(|s| !s.is_empty()).collect();
        for p in s.windows(2) {
            ensure(p[0].iter().next_back() < p[1].iter().next(), "query-set", || {
                format!("inserting {a:?} left items out of order or overlapping: {:?}", qa.items)
            })?;
        }
        ensure(qa.has_only_keys() == qa.items.iter().all(|i| i.is_key()), "query-set", || "has_only_keys".into())?;
        // one way of inserting or another
        let mut q2 = Query::new();
        q2.insert_items(a.iter().map(|i| i.to()).collect());
        eqs("items inserted at once", &of(&q2.items), &sa, &w)?;
        // many at a time
        let mut ours = qa.items.clone();
        let i = QueryItem::intersect_many_ordered(&mut ours, qb.items.clone());
        let w = || format!("{:?} and {:?}", qa.items, qb.items);
        eqs("what is in both", &of(i.in_both.iter().flatten()), &sa.intersection(&sb).cloned().collect(), &w)?;
        eqs("what is in the first only", &of(i.ours.iter().flatten()), &sa.difference(&sb).cloned().collect(), &w)?;
        eqs("what is in the second only", &of(i.theirs.iter().flatten()), &sb.difference(&sa).cloned().collect(), &w)?;
        for v in [&i.in_both, &i.ours, &i.theirs].into_iter().flatten() {
            let n: usize = v.iter().map(|i| of([i]).len()).sum();
            ensure(n == of(v).len(), "query-set", || format!("parts of {:?} and {:?} overlap", qa.items, qb.items))?;
        }
        let _ = b;
        Ok(())
    }

    fn query(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let t = gen_t(&mut r, 0);
        let mut q = gen_q(&mut r, &[]);
        if r.chance(1, 2) {
            q.limit = Some(r.below(70000) as u16);
        }
        if r.chance(1, 4) {
            q.offset = Some(r.below(300) as u16);
        }
        let pq = q.to();
        let bytes = bincode::encode_to_vec(&pq, cfg()).unwrap();
        let d: Result<(PathQuery, usize), _> = bincode::decode_from_slice(&bytes, cfg());
        let qb = bincode::encode_to_vec(&pq.query.query, cfg()).unwrap();
        let d2: Result<(Query, usize), _> = bincode::borrow_decode_from_slice(&qb, cfg());
        match (d, d2) {
            (Ok((p, n)), Ok((s, m))) => {
                ensure(p == pq && n == bytes.len() && s == pq.query.query && m == qb.len(), "query-coding", || {
                    format!("{} decoded as {p:?}", show_q(&q.q))
                })?;
                // order of conditional branches counts
                let o = |q: &Query| -> Vec<QI> { q.conditional_subquery_branches.iter().flatten().map(|(i, _)| back(i)).collect() };
                ensure(o(&s) == o(&pq.query.query), "query-coding", || format!("branches of {} reordered", show_q(&q.q)))?;
            }
            e => return viol("query-coding", format!("{} does not decode: {:?}", show_q(&q.q), e.0.err())),
        }
        fn depth(q: &QQ) -> u16 {
            1 + branch_depth(&q.sub).max(q.cond.iter().map(|(_, b)| branch_depth(b)).max().unwrap_or(0))
        }
        fn branch_depth(b: &SubB) -> u16 {
            b.path.as_ref().map_or(0, |p| p.len() as u16) + b.q.as_ref().map_or(0, |q| depth(q))
        }
        let dep = depth(&q.q);
        ensure(pq.max_depth() == Some(dep), "query-set", || format!("max_depth {:?} of {}", pq.max_depth(), show_q(&q.q)))?;
        ensure(pq.query.query.has_subquery() == q.q.has_sub(), "query-set", || format!("has_subquery of {}", show_q(&q.q)))?;
        self.levels(&q, &pq, &t)?;
        self.terminals(&q.q, &pq)
    }

    /// what is asked of each tree the query looks into
    fn levels(&mut self, q: &Q, pq: &PathQuery, t: &T) -> V {
        let a = answer(q, t);
        let mut asked: Vec<Path> = vec![vec![]];
        asked.extend(a.into.iter().map(|(p, k)| {
            let mut p = p.clone();
            p.push(k.clone());
            p
        }));
        for p in asked {
            let rp: Vec<&[u8]> = p.iter().map(|k| &k[..]).collect();
            let got = match pq.query_items_at_path(&rp, gv()) {
                Ok(Some(s)) => s,
                o => return viol("query-level", format!("nothing asked at {}: {o:?} of {}", pp(&p), show_q(&q.q))),
            };
            // what is selected here, and below which keys does it go on
            let rows: Keys = a.rows.iter().filter(|(q, _)| *q == p).map(|(_, k)| k.clone()).collect();
            let into: Keys = a.into.iter().filter(|(q, _)| *q == p).map(|(_, k)| k.clone()).collect();
            let here = t.at(&p);
            let keys: Keys = match here {
                Some(t) => t.0.keys().cloned().collect(),
                None => continue,
            };
            let hit = |k: &B| got.items.iter().any(|i| i.contains(k));
            let deeper = |k: &B| got.has_subquery_or_matching_in_path_on_key(k);
            for k in &keys {
                let (r, i) = (rows.contains(k), into.contains(k));
                ensure(hit(k) == (r || i), "query-level", || {
                    format!("at {}: key {} asked: {}, expected {}; {}", pp(&p), hx(k), hit(k), r || i, show_q(&q.q))
                })?;
                let is_tree = matches!(here.unwrap().0[k], Some(_));
                if hit(k) && is_tree {
                    ensure(deeper(k) == i, "query-level", || {
                        format!("at {}: below key {}: {}, expected {i}; {}", pp(&p), hx(k), deeper(k), show_q(&q.q))
                    })?;
                }
            }
        }
        // a flag for the tree's own element
        let mut want: BTreeMap<Path, bool> = BTreeMap::new();
        fn flags(q: &QQ, t: &T, p: &Path, w: &mut BTreeMap<Path, bool>) {
            w.insert(p.clone(), q.add_parent);
            let Some(here) = t.at(p) else { return };
            for (k, v) in &here.0 {
                if v.is_none() || !q.items.iter().any(|i| i.has(k)) {
                    continue;
                }
                let b = q.branch(k);
                let mut p = p.clone();
                p.push(k.clone());
                for s in b.path.iter().flatten() {
                    w.insert(p.clone(), false);
                    p.push(s.clone());
                }
                match &b.q {
                    Some(q) => flags(q, t, &p, w),
                    None => {
                        w.insert(p, false);
                    }
                }
            }
        }
        flags(&q.q, t, &q.path, &mut want);
        for (p, w) in want {
            let rp: Vec<&[u8]> = p.iter().map(|k| &k[..]).collect();
            match pq.should_add_parent_tree_at_path(&rp, gv()) {
                Ok(g) => ensure(g == w, "query-level", || {
                    format!("should_add_parent_tree_at_path {}: {g}, expected {w}; {}", pp(&p), show_q(&q.q))
                })?,
                Err(e) => return viol("query-level", format!("should_add_parent_tree_at_path: {e}")),
            }
        }
        Ok(())
    }

    /// the keys a query of nothing but keys ends in
    fn terminals(&mut self, q: &QQ, pq: &PathQuery) -> V {
        fn ends(q: &QQ, path: &Path, out: &mut Vec<(Path, B)>) -> bool {
            let mut keys = Keys::new();
            for i in &q.items {
                match i {
                    QI::Key(_) | QI::R(..) | QI::RI(..) => match i.to().keys() {
                        Ok(k) => keys.extend(k),
                        Err(_) => return false,
                    },
                    _ => return false,
                }
            }
            if q.cond.iter().any(|(i, _)| i.to().keys().is_err()) {
                return false;
            }
            // overlapping items
            let items: Vec<QueryItem> = q.items.iter().map(|i| i.to()).collect();
            for (n, i) in items.iter().enumerate() {
                if items[..n].iter().any(|j| j.collides_with(i)) {
                    return false;
                }
            }
            // ranges stand for their keys of one byte here: where that
            // makes a difference there is no one answer
            let conds: Vec<(Vec<B>, &SubB)> = q.cond.iter().map(|(i, b)| (i.to().keys().unwrap(), b)).collect();
            if conds.iter().flat_map(|c| &c.0).any(|k| !keys.contains(k) && q.items.iter().any(|i| i.has(k))) {
                return false;
            }
            for k in keys {
                let b = q.branch(&k);
                let listed = conds.iter().find(|c| c.0.contains(&k)).map_or(&q.sub, |c| c.1);
                if !std::ptr::eq(b, listed) {
                    return false;
                }
                let mut p = path.clone();
                let mut key = k.clone();
                for s in b.path.iter().flatten() {
                    p.push(key);
                    key = s.clone();
                }
                match &b.q {
                    Some(q) => {
                        p.push(key);
                        if !ends(q, &p, out) {
                            return false;
                        }
                    }
                    None => out.push((p, key)),
                }
                if out.len() > 3000 {
                    return false;
                }
            }
            true
        }
        let mut want = vec![];
        if !ends(q, &pq.path, &mut want) {
            let _ = pq.terminal_keys(2000, gv());
            return Ok(());
        }
        let n = want.len();
        let mut got = match pq.terminal_keys(n, gv()) {
            Ok(v) => v,
            Err(e) => return viol("query-terminal", format!("{n} terminal keys: {e}; {}", show_q(q))),
        };
        got.sort();
        want.sort();
        ensure(got == want, "query-terminal", || {
            let miss: Vec<_> = want.iter().filter(|k| !got.contains(k)).take(3).collect();
            let more: Vec<_> = got.iter().filter(|k| !want.contains(k)).take(3).collect();
            format!("terminal keys of {}: {} for {n}; missing {miss:?}, too many {more:?}", show_q(q), got.len())
        })?;
        if n > 0 {
            ensure(pq.terminal_keys(n - 1, gv()).is_err(), "query-terminal", || {
                format!("{n} terminal keys though {} allowed; {}", n - 1, show_q(q))
            })?;
        }
        self.st.evn("probe.terminal", 1);
        Ok(())
    }

    fn merge(&mut self, seed: u64, n: u64) -> V {
        let n = n.max(1);
        let mut r = Rng::new(seed);
        let t = gen_t(&mut r, 0);
        let base: Path = (0..*r.pick(&[0usize, 0, 1])).map(|_| small(&mut r)).collect();
        let mut qs: Vec<Q> = (0..n).map(|_| gen_q(&mut r, &base)).collect();
        for q in &mut qs {
            q.q.forward();
        }
        let pqs: Vec<PathQuery> = qs.iter().map(|q| q.to()).collect();
        let m = match PathQuery::merge(pqs.iter().collect(), gv()) {
            Ok(m) => m,
            Err(e) => return viol("query-merge", format!("not merged: {e}")),
        };
        let mq = Q { path: m.path.clone(), q: back_q(&m.query.query), limit: None, offset: None };
        let got = answer(&mq, &t);
        let parts: Vec<Ans> = qs.iter().map(|q| answer(q, &t)).collect();
        let into: BTreeSet<_> = parts.iter().flat_map(|a| a.into.iter()).collect();
        let mut miss = vec![];
        let mut all = BTreeSet::new();
        for a in &parts {
            for x in &a.rows {
                all.insert(x);
                // a tree both asked for and looked into: what is in it counts
                if !got.rows.contains(x) && !into.contains(x) {
                    miss.push(x);
                }
            }
        }
        // a leaf where a part looks for a tree may be among the results
        let more: Vec<_> = got.rows.iter().filter(|x| !all.contains(x) && !(into.contains(x) && leaf(&t, x))).collect();
        let f = |v: &Vec<&(Path, B)>| {
            let s: Vec<String> = v.iter().take(3).map(|(p, k)| format!("{}:{}", pp(p), hx(k))).collect();
            format!("{} {s:?}", v.len())
        };
        let j = |q: &Q| serde_json::to_string(q).unwrap();
        ensure(miss.is_empty() && more.is_empty(), "query-merge", || {
            format!(
                "merged: missing {}, too many {}; of {:?} merged into {}",
                f(&miss),
                f(&more),
                qs.iter().map(j).collect::<Vec<_>>(),
                j(&mq)
            )
        })?;
        self.st.evn("probe.merged rows", got.rows.len() as u64);
        Ok(())
    }
}

fn leaf(t: &T, (p, k): &(Path, B)) -> bool {
    t.at(p).and_then(|t| t.0.get(k)).is_some_and(|v| v.is_none())
}

impl Machine for QueryM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let s = self.r.next();
        Some(Act::C(match self.r.below(10) {
            0..=2 => ca("items", &[s]),
            3 | 4 => ca("sets", &[s]),
            5..=7 => ca("query", &[s]),
            _ => ca("merge", &[s, self.r.range(2, 3) as u64]),
        }))
    }
    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        self.st.checks += 1;
        self.st.writes_ok += 1;
        let s = a.get(0);
        let _ = self.allowed("");
        match a.op.as_str() {
            "items" => self.items(s),
            "sets" => self.sets(s),
            "query" => self.query(s),
            "merge" => self.merge(s, a.get(1)),
            _ => Ok(()),
        }
    }
    fn last(&mut self) -> V {
        Ok(())
    }
    fn done(self: Box<Self>) -> Stats {
        self.st
    }
}
