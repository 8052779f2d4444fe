//! Path queries: their description, what they mean on the reference model,
//! and the oracle comparing every query entry point with that meaning.
use std::collections::BTreeSet;

use grovedb::{
    AggregateSumPathQuery, Element, Error, GroveDb, PathQuery, SizedQuery, Transaction,
    element::aggregate_sum_query::AggregateSumQueryOptions,
    operations::QueryItemOrSumReturnType,
    query_result_type::{QueryResultElement, QueryResultType},
    reference_path::ReferencePathType,
};
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use serde::{Deserialize, Serialize};

use crate::{model::*, node::*, ops::*, rng::Rng};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum QI {
    Key(B),
    R(B, B),
    RI(B, B),
    Full,
    From(B),
    To(B),
    ToI(B),
    After(B),
    AfterTo(B, B),
    AfterToI(B, B),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct SubB {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<Path>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub q: Option<Box<QQ>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct QQ {
    pub items: Vec<QI>,
    #[serde(default)]
    pub sub: SubB,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cond: Vec<(QI, SubB)>,
    pub ltr: bool,
    #[serde(default)]
    pub add_parent: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Q {
    pub path: Path,
    pub q: QQ,
    pub limit: Option<u16>,
    pub offset: Option<u16>,
}

impl QI {
    pub fn has(&self, k: &[u8]) -> bool {
        match self {
            QI::Key(a) => k == &a[..],
            QI::R(a, b) => k >= &a[..] && k < &b[..],
            QI::RI(a, b) => k >= &a[..] && k <= &b[..],
            QI::Full => true,
            QI::From(a) => k >= &a[..],
            QI::To(b) => k < &b[..],
            QI::ToI(b) => k <= &b[..],
            QI::After(a) => k > &a[..],
            QI::AfterTo(a, b) => k > &a[..] && k < &b[..],
            QI::AfterToI(a, b) => k > &a[..] && k <= &b[..],
        }
    }
    pub fn to(&self) -> QueryItem {
        let c = |x: &B| x.clone();
        match self {
            QI::Key(a) => QueryItem::Key(c(a)),
            QI::R(a, b) => QueryItem::Range(c(a)..c(b)),
            QI::RI(a, b) => QueryItem::RangeInclusive(c(a)..=c(b)),
            QI::Full => QueryItem::RangeFull(..),
            QI::From(a) => QueryItem::RangeFrom(c(a)..),
            QI::To(b) => QueryItem::RangeTo(..c(b)),
            QI::ToI(b) => QueryItem::RangeToInclusive(..=c(b)),
            QI::After(a) => QueryItem::RangeAfter(c(a)..),
            QI::AfterTo(a, b) => QueryItem::RangeAfterTo(c(a)..c(b)),
            QI::AfterToI(a, b) => QueryItem::RangeAfterToInclusive(c(a)..=c(b)),
        }
    }
    pub fn bounds(&self) -> Vec<&B> {
        match self {
            QI::Key(a) | QI::From(a) | QI::To(a) | QI::ToI(a) | QI::After(a) => vec![a],
            QI::R(a, b) | QI::RI(a, b) | QI::AfterTo(a, b) | QI::AfterToI(a, b) => vec![a, b],
            QI::Full => vec![],
        }
    }
    /// selects nothing whatever the keys are
    pub fn is_void(&self) -> bool {
        match self {
            QI::R(a, b) | QI::AfterTo(a, b) | QI::AfterToI(a, b) => a >= b,
            QI::RI(a, b) => a > b,
            QI::To(b) => b.is_empty(),
            _ => false,
        }
    }
    pub fn is_key(&self) -> bool {
        matches!(self, QI::Key(_))
    }
    pub fn is_bounded(&self) -> bool {
        matches!(self, QI::Key(_) | QI::R(..) | QI::RI(..) | QI::AfterTo(..) | QI::AfterToI(..))
    }
}

impl SubB {
    pub fn to(&self) -> SubqueryBranch {
        SubqueryBranch {
            subquery_path: self.path.clone(),
            subquery: self.q.as_ref().map(|q| Box::new(q.to())),
        }
    }
    pub fn is_none(&self) -> bool {
        self.path.is_none() && self.q.is_none()
    }
}

impl QQ {
    pub fn to(&self) -> Query {
        let mut q = Query::new();
        for i in &self.items {
            q.insert_item(i.to());
        }
        q.default_subquery_branch = self.sub.to();
        for (i, s) in &self.cond {
            q.add_conditional_subquery(i.to(), s.path.clone(), s.q.as_ref().map(|q| q.to()));
        }
        q.left_to_right = self.ltr;
        q.add_parent_tree_on_subquery = self.add_parent;
        q
    }
    pub fn keys(items: Vec<QI>) -> QQ {
        QQ { items, sub: SubB::default(), cond: vec![], ltr: true, add_parent: false }
    }
    pub fn branch(&self, k: &[u8]) -> &SubB {
        // setting the branch of an item again replaces what was set, in its place
        let Some((first, _)) = self.cond.iter().find(|(i, _)| i.has(k)) else { return &self.sub };
        self.cond.iter().rev().find(|(i, _)| i == first).map(|(_, s)| s).unwrap()
    }
    /// in order and without the trees themselves, at every level
    pub fn forward(&mut self) {
        self.ltr = true;
        self.add_parent = false;
        for b in std::iter::once(&mut self.sub).chain(self.cond.iter_mut().map(|c| &mut c.1)) {
            if let Some(q) = &mut b.q {
                q.forward();
            }
        }
    }
    /// an item somewhere that selects nothing
    pub fn void(&self) -> bool {
        self.items.iter().any(|i| i.is_void())
            || self.sub.q.as_ref().is_some_and(|q| q.void())
            || self.cond.iter().any(|(_, s)| s.q.as_ref().is_some_and(|q| q.void()))
    }
    pub fn any_branch(&self, f: &impl Fn(&SubB) -> bool) -> bool {
        f(&self.sub)
            || self.cond.iter().any(|(_, s)| f(s))
            || self.sub.q.as_ref().is_some_and(|q| q.any_branch(f))
            || self.cond.iter().any(|(_, s)| s.q.as_ref().is_some_and(|q| q.any_branch(f)))
    }
    pub fn has_sub(&self) -> bool {
        !self.sub.is_none() || !self.cond.is_empty()
    }
    pub fn depth(&self) -> usize {
        let d = |s: &SubB| s.q.as_ref().map(|q| q.depth()).unwrap_or(0);
        1 + d(&self.sub).max(self.cond.iter().map(|(_, s)| d(s)).max().unwrap_or(0))
    }
}

impl Q {
    pub fn to(&self) -> PathQuery {
        PathQuery::new(self.path.clone(), SizedQuery::new(self.q.to(), self.limit, self.offset))
    }
}

// ---------------------------------------------------------------- meaning

#[derive(Clone, Debug)]
pub struct Row<'a> {
    pub path: Path,
    pub key: B,
    pub e: &'a Ent,
}

pub struct Answer<'a> {
    pub rows: Vec<Row<'a>>,
    pub skipped: u16,
    /// the query touches something whose answer is not specified
    pub open: bool,
    /// a `subquery_path`-only branch ran into a missing intermediate tree
    pub missing_mid: bool,
}

/// what a path leads to
enum At<'a> {
    Sub(&'a Sub),
    Missing,
    Other,
}

fn at<'a>(m: &'a Model, p: &[B]) -> At<'a> {
    let mut cur: &Sub = &m.root;
    for s in p {
        match cur.map.get(s) {
            None => return At::Missing,
            Some(Ent { v: Val::Tree(t), .. }) => cur = t,
            Some(_) => return At::Other,
        }
    }
    At::Sub(cur)
}

/// `dec`: an empty sub-result consumes one unit of the limit
pub fn eval<'a>(m: &'a Model, q: &Q, dec: bool) -> Answer<'a> {
    let mut a = Answer { rows: vec![], skipped: 0, open: false, missing_mid: false };
    let mut limit = q.limit;
    let mut offset = q.offset;
    level(m, &q.path, &q.q, &mut limit, &mut offset, dec, &mut a);
    a.skipped = q.offset.unwrap_or(0) - offset.unwrap_or(0);
    a
}

fn level<'a>(
    m: &'a Model,
    path: &[B],
    q: &QQ,
    limit: &mut Option<u16>,
    offset: &mut Option<u16>,
    dec: bool,
    a: &mut Answer<'a>,
) {
    let sub = match at(m, path) {
        At::Sub(s) => s,
        At::Missing => return,
        At::Other => {
            a.open = true;
            return;
        }
    };
    let hits: Vec<&B> = sub.map.keys().filter(|k| q.items.iter().any(|i| i.has(k))).collect();
    let order: Box<dyn Iterator<Item = &B>> =
        if q.ltr { Box::new(hits.into_iter()) } else { Box::new(hits.into_iter().rev()) };
    for k in order {
        if *limit == Some(0) {
            return;
        }
        let e = &sub.map[k];
        let b = q.branch(k);
        if e.v.is_tree() && !b.is_none() {
            let mut p = path.to_vec();
            p.push(k.clone());
            if !matches!(e.v, Val::Tree(_)) {
                a.open = true;
                return;
            }
            if let Some(sq) = &b.q {
                p.extend(b.path.iter().flatten().cloned());
                let before = a.rows.len();
                let (mut l, mut o) = (*limit, *offset);
                level(m, &p, sq, &mut l, &mut o, dec, a);
                let got = a.rows.len() - before;
                *limit = if got == 0 && dec {
                    limit.map(|x| x.saturating_sub(1))
                } else {
                    limit.map(|x| x.saturating_sub(got as u16))
                };
                *offset = o;
            } else {
                let bp = b.path.as_ref().unwrap();
                let Some((last, front)) = bp.split_last() else {
                    a.open = true;
                    return;
                };
                p.extend(front.iter().cloned());
                match at(m, &p) {
                    At::Missing => a.missing_mid = true,
                    At::Other => {
                        a.open = true;
                        return;
                    }
                    At::Sub(_) => {}
                }
                if offset.unwrap_or(0) == 0 {
                    match at(m, &p) {
                        At::Sub(s) => {
                            if let Some(x) = s.map.get(last) {
                                a.rows.push(Row { path: p, key: last.clone(), e: x });
                            }
                            *limit = limit.map(|x| x.saturating_sub(1));
                        }
                        _ => {}
                    }
                } else {
                    *offset = offset.map(|x| x - 1);
                }
            }
        } else if offset.unwrap_or(0) > 0 {
            *offset = offset.map(|x| x - 1);
        } else {
            a.rows.push(Row { path: path.to_vec(), key: k.clone(), e });
            *limit = limit.map(|x| x.saturating_sub(1));
        }
    }
}

// ---------------------------------------------------------------- comparison

pub fn abs_ref(row: &Row) -> Option<Path> {
    match &row.e.v {
        Val::Ref(r, _) => ref_target(r, &row.path, &row.key),
        _ => None,
    }
}

/// an element as a query returns it: references carry absolute paths
pub fn same_row(row: &Row, e: &Element) -> Result<(), String> {
    if let Val::Ref(_, h) = &row.e.v {
        let want = abs_ref(row);
        return match e {
            Element::Reference(ReferencePathType::AbsolutePathReference(p), g, f)
                if Some(p) == want.as_ref() && g == h && f == &row.e.fl =>
            {
                Ok(())
            }
            _ => Err(format!("reference came back as {e}, expected absolute {want:?} hops {h:?}")),
        };
    }
    same_element(row.e, e)
}

type R<T> = Result<T, String>;

pub fn show_q(q: &Q) -> String {
    crate::plan::brief(&serde_json::to_string(q).unwrap_or_default())
}

pub fn same_rows(rows: &[Row], got: &[(Option<Path>, Option<B>, Element)], what: &str) -> R<()> {
    let list = |n: usize| -> String {
        rows.iter().take(n).map(|r| format!("{}:{}", pp(&r.path), hx(&r.key))).collect::<Vec<_>>().join(" ")
    };
    if rows.len() != got.len() {
        return Err(format!(
            "{what}: {} elements returned, {} expected ({}{}); returned keys {:?}",
            got.len(),
            rows.len(),
            list(8),
            if rows.len() > 8 { " .." } else { "" },
            got.iter().take(8).map(|g| g.1.as_ref().map(|k| hx(k))).collect::<Vec<_>>()
        ));
    }
    for (r, (p, k, e)) in rows.iter().zip(got) {
        if p.as_ref().is_some_and(|p| p != &r.path) || k.as_ref().is_some_and(|k| k != &r.key) {
            return Err(format!(
                "{what}: got {:?}/{:?}, expected {} {}",
                p.as_ref().map(|p| pp(p)),
                k.as_ref().map(|k| hx(k)),
                pp(&r.path),
                hx(&r.key)
            ));
        }
        same_row(r, e).map_err(|m| format!("{what}: at {} {}: {m}", pp(&r.path), hx(&r.key)))?;
    }
    Ok(())
}

pub fn flatten(els: grovedb::query_result_type::QueryResultElements) -> Vec<(Option<Path>, Option<B>, Element)> {
    els.elements
        .into_iter()
        .map(|e| match e {
            QueryResultElement::ElementResultItem(e) => (None, None, e),
            QueryResultElement::KeyElementPairResultItem((k, e)) => (None, Some(k), e),
            QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => (Some(p), Some(k), e),
        })
        .collect()
}

/// run every query entry point and compare with the model
pub fn check_query(db: &GroveDb, m: &Model, tx: Option<&Transaction>, q: &Q) -> Result<usize, Bad> {
    let v = gv();
    let pq = q.to();
    let mut seen = 0;
    if q.limit == Some(0) {
        return Ok(0);
    }
    for dec in [true, false] {
        let a = eval(m, q, dec);
        if a.open {
            // still must not panic
            let _ = db.query_raw(&pq, true, dec, false, QueryResultType::QueryPathKeyElementTrioResultType, tx, v).value;
            continue;
        }
        seen = seen.max(a.rows.len());
        for (i, rt) in [
            QueryResultType::QueryElementResultType,
            QueryResultType::QueryKeyElementPairResultType,
            QueryResultType::QueryPathKeyElementTrioResultType,
        ]
        .into_iter()
        .enumerate()
        {
            let r = db.query_raw(&pq, dec, dec, false, rt, tx, v).value;
            match r {
                Err(e) => return bad_err("query_raw", &e),
                Ok((els, skipped)) => {
                    same_rows(&a.rows, &flatten(els), &format!("query_raw form {i} dec {dec}"))
                        .map_err(Bad::Wrong)?;
                    if skipped != a.skipped {
                        return Err(Bad::Wrong(format!(
                            "query_raw skipped {skipped}, expected {} (dec {dec})",
                            a.skipped
                        )));
                    }
                }
            }
        }
    }
    let a = eval(m, q, true);
    if a.open {
        return Ok(seen);
    }
    followed(db, m, tx, q, &pq, &a)?;
    keys_optional(db, m, tx, q, &a)?;
    pages(db, tx, q, m)?;
    Ok(seen)
}

#[derive(Debug)]
pub enum Bad {
    Wrong(String),
    Fail(Error),
}

fn bad_err<T>(_w: &str, e: &Error) -> Result<T, Bad> {
    Err(Bad::Fail(clone_err(e)))
}
fn clone_err(e: &Error) -> Error {
    Error::InternalError(format!("{e:?}"))
}

fn item_of(e: &Ent) -> Option<B> {
    use integer_encoding::VarInt;
    match &e.v {
        Val::Item(b) | Val::ItemSum(b, _) => Some(b.clone()),
        Val::Sum(v) => Some(v.encode_var_vec()),
        _ => None,
    }
}

fn followed(
    db: &GroveDb,
    m: &Model,
    tx: Option<&Transaction>,
    _q: &Q,
    pq: &PathQuery,
    a: &Answer,
) -> Result<(), Bad> {
    let v = gv();
    // final element of every row
    let mut finals: Vec<Option<&Ent>> = vec![];
    for r in &a.rows {
        finals.push(match &r.e.v {
            Val::Ref(..) => abs_ref(r).and_then(|p| m.follow_q(p).ok()).map(|x| x.0),
            _ => Some(r.e),
        });
    }
    let is_ref = |i: usize| matches!(a.rows[i].e.v, Val::Ref(..));
    let is_item = |e: &Ent| matches!(e.v, Val::Item(_) | Val::Sum(_) | Val::ItemSum(..));
    // query
    let ok = (0..finals.len()).all(|i| match finals[i] {
        None => false,
        Some(e) if is_ref(i) => is_item(e),
        Some(e) => match &e.v {
            Val::Tree(s) => s.kind != Kind::Normal,
            _ => !e.v.is_tree(),
        },
    });
    let r = db.query(pq, true, true, false, QueryResultType::QueryPathKeyElementTrioResultType, tx, v).value;
    match (ok, r) {
        (true, Ok((els, _))) => {
            let got = flatten(els);
            if got.len() != finals.len() {
                return Err(Bad::Wrong(format!("query: {} elements, expected {}", got.len(), finals.len())));
            }
            for (i, (p, k, e)) in got.iter().enumerate() {
                if p.as_ref() != Some(&a.rows[i].path) || k.as_ref() != Some(&a.rows[i].key) {
                    return Err(Bad::Wrong(format!("query: row {i} has the wrong place")));
                }
                same_element(finals[i].unwrap(), e).map_err(|x| {
                    Bad::Wrong(format!("query: at {} {}: {x}", pp(&a.rows[i].path), hx(&a.rows[i].key)))
                })?;
            }
        }
        (true, Err(e)) => return bad_err("query", &e),
        (false, Ok(_)) => return Err(Bad::Wrong("query: succeeded over elements that are not items".into())),
        (false, Err(_)) => {}
    }
    // query_item_value
    let items: Option<Vec<B>> = finals.iter().map(|e| e.and_then(item_of)).collect();
    match (items, db.query_item_value(pq, true, true, false, tx, v).value) {
        (Some(w), Ok((g, s))) => {
            if w != g || s != a.skipped {
                return Err(Bad::Wrong(format!("query_item_value: got {g:?} skipped {s}, expected {w:?}")));
            }
        }
        (Some(_), Err(e)) => return bad_err("query_item_value", &e),
        (None, Ok(_)) => return Err(Bad::Wrong("query_item_value: succeeded without items".into())),
        (None, Err(_)) => {}
    }
    // query_item_value_or_sum
    use QueryItemOrSumReturnType as T;
    let vals: Option<Vec<T>> = finals
        .iter()
        .map(|e| {
            e.and_then(|e| {
                Some(match &e.v {
                    Val::Item(b) => T::ItemData(b.clone()),
                    Val::Sum(v) => T::SumValue(*v),
                    Val::ItemSum(b, v) => T::ItemDataWithSumValue(b.clone(), *v),
                    Val::Tree(s) => {
                        let g = s.agg();
                        match s.kind {
                            Kind::Normal => return None,
                            Kind::Sum => T::SumValue(g.sum as i64),
                            Kind::BigSum => T::BigSumValue(g.sum),
                            Kind::Count | Kind::PCount => T::CountValue(g.count),
                            Kind::CountSum | Kind::PCountSum => T::CountSumValue(g.count, g.sum as i64),
                        }
                    }
                    _ => return None,
                })
            })
        })
        .collect();
    match (vals, db.query_item_value_or_sum(pq, true, true, false, tx, v).value) {
        (Some(w), Ok((g, _))) => {
            if w != g {
                return Err(Bad::Wrong(format!("query_item_value_or_sum: got {g:?}, expected {w:?}")));
            }
        }
        (Some(_), Err(e)) => return bad_err("query_item_value_or_sum", &e),
        (None, Ok(_)) => return Err(Bad::Wrong("query_item_value_or_sum: succeeded without items".into())),
        (None, Err(_)) => {}
    }
    // query_sums
    if finals.iter().enumerate().all(|(i, e)| {
        e.is_some_and(|e| matches!(e.v, Val::Sum(_)) || (matches!(e.v, Val::ItemSum(..)) && !is_ref(i)))
    }) {
        let w: Vec<i64> = finals
            .iter()
            .map(|e| match &e.unwrap().v {
                Val::Sum(v) | Val::ItemSum(_, v) => *v,
                _ => 0,
            })
            .collect();
        match db.query_sums(pq, true, true, false, tx, v).value {
            Ok((g, _)) => {
                if g != w {
                    return Err(Bad::Wrong(format!("query_sums: got {g:?}, expected {w:?}")));
                }
            }
            Err(e) => return bad_err("query_sums", &e),
        }
    }
    Ok(())
}

fn keys_optional(db: &GroveDb, m: &Model, tx: Option<&Transaction>, q: &Q, a: &Answer) -> Result<(), Bad> {
    let _ = a;
    if q.offset.is_some() || q.q.items.iter().any(|i| !i.is_key()) || q.q.has_sub() {
        return Ok(());
    }
    let keys: BTreeSet<B> = q
        .q
        .items
        .iter()
        .map(|i| match i {
            QI::Key(k) => k.clone(),
            _ => unreachable!(),
        })
        .collect();
    let mut q2 = q.clone();
    q2.limit = Some(keys.len() as u16 + 1);
    let a = eval(m, &q2, true);
    match db.query_raw_keys_optional(&q2.to(), true, true, false, tx, gv()).value {
        Err(e) => bad_err("query_raw_keys_optional", &e),
        Ok(g) => {
            let want: Vec<&B> = keys.iter().collect();
            let got: Vec<&B> = g.iter().map(|x| &x.1).collect();
            let mut sorted = got.clone();
            sorted.sort();
            if sorted != want {
                return Err(Bad::Wrong(format!("query_raw_keys_optional: keys {got:?}, expected {want:?}")));
            }
            for (p, k, e) in &g {
                let row = a.rows.iter().find(|r| &r.key == k);
                match (row, e) {
                    (None, None) => {}
                    (Some(r), Some(e)) if &r.path == p => {
                        same_row(r, e).map_err(|x| Bad::Wrong(format!("query_raw_keys_optional: {x}")))?
                    }
                    _ => {
                        return Err(Bad::Wrong(format!(
                            "query_raw_keys_optional: key {} at {}: got {e:?}, expected {:?}",
                            hx(k),
                            pp(p),
                            row.map(|r| show_ent(r.e))
                        )));
                    }
                }
            }
            Ok(())
        }
    }
}

fn pages(db: &GroveDb, tx: Option<&Transaction>, q: &Q, m: &Model) -> Result<(), Bad> {
    if q.q.any_branch(&|s| s.path.is_some() && s.q.is_none()) {
        return Ok(());
    }
    let Some(n) = q.limit else { return Ok(()) };
    let mut whole = q.clone();
    whole.limit = None;
    whole.offset = None;
    let a = eval(m, &whole, false);
    if a.open || a.rows.len() > 60 {
        return Ok(());
    }
    let mut got = vec![];
    let mut off = 0u16;
    loop {
        let mut p = q.clone();
        p.offset = Some(off);
        match db
            .query_raw(&p.to(), true, false, false, QueryResultType::QueryPathKeyElementTrioResultType, tx, gv())
            .value
        {
            Err(e) => return bad_err("query_raw (page)", &e),
            Ok((els, _)) => {
                let f = flatten(els);
                if f.is_empty() {
                    break;
                }
                if f.len() > n as usize {
                    return Err(Bad::Wrong(format!("a page of {n} holds {} elements", f.len())));
                }
                off += f.len() as u16;
                got.extend(f);
                if got.len() > a.rows.len() + 5 {
                    break;
                }
            }
        }
    }
    same_rows(&a.rows, &got, "pages together").map_err(Bad::Wrong)
}

/// sum items until a threshold is reached
pub fn check_aggregate_sum(
    db: &GroveDb,
    m: &Model,
    tx: Option<&Transaction>,
    path: &[B],
    items: &[QI],
    ltr: bool,
    sum_limit: u64,
    limit: Option<u16>,
) -> Result<(), Bad> {
    let At::Sub(sub) = at(m, path) else { return Ok(()) };
    let mut q = AggregateSumQuery::new(sum_limit, limit);
    for i in items {
        q.insert_item(i.to());
    }
    q.left_to_right = ltr;
    let mut want: Vec<(B, i64)> = vec![];
    let mut left = sum_limit as i128;
    let mut lim = limit;
    let hits: Vec<&B> = sub.map.keys().filter(|k| items.iter().any(|i| i.has(k))).collect();
    let order: Vec<&B> = if ltr { hits } else { hits.into_iter().rev().collect() };
    if left > 0 && lim != Some(0) {
        for k in order {
            if left <= 0 || lim == Some(0) {
                break;
            }
            if let Val::Sum(v) | Val::ItemSum(_, v) = sub.map[k].v {
                want.push((k.clone(), v));
                left = (left - v as i128).clamp(i64::MIN as i128, i64::MAX as i128);
                lim = lim.map(|x| x - 1);
            }
        }
    }
    let o = AggregateSumQueryOptions {
        allow_cache: true,
        error_if_intermediate_path_tree_not_present: false,
        error_if_non_sum_item_found: false,
        ignore_references: true,
    };
    match db
        .query_aggregate_sums_with_options(&AggregateSumPathQuery::new(path.to_vec(), q), o, tx, gv())
        .value
    {
        Err(e) => bad_err("query_aggregate_sums", &e),
        Ok(g) => {
            if g.results != want {
                return Err(Bad::Wrong(format!(
                    "query_aggregate_sums at {} limit {sum_limit}/{limit:?} ltr {ltr}: got {:?}, expected {want:?}",
                    pp(path),
                    g.results
                )));
            }
            Ok(())
        }
    }
}

/// several queries merged into one return the union of their answers
/// several queries in one. Elements that are not trees must come out exactly
/// as each query alone has them; a tree may be both a result of one query and
/// looked into by another.
pub fn check_merge(db: &GroveDb, m: &Model, tx: Option<&Transaction>, qs: &[Q]) -> Result<usize, Bad> {
    let mut want: BTreeSet<(Path, B)> = BTreeSet::new();
    let mut trees: BTreeSet<(Path, B)> = BTreeSet::new();
    for a in qs {
        let r = eval(m, a, true);
        if r.open {
            return Ok(0);
        }
        for r in &r.rows {
            let set = if r.e.v.is_tree() { &mut trees } else { &mut want };
            set.insert((r.path.clone(), r.key.clone()));
        }
    }
    // every path must exist, or an intermediate key would be missing
    if qs.iter().any(|q| !matches!(at(m, &q.path), At::Sub(_))) {
        return Ok(0);
    }
    let pqs: Vec<PathQuery> = qs.iter().map(|q| q.to()).collect();
    let refs: Vec<&PathQuery> = pqs.iter().collect();
    match db
        .query_many_raw(&refs, true, true, false, QueryResultType::QueryPathKeyElementTrioResultType, tx, gv())
        .value
    {
        Err(e) => bad_err("query_many_raw", &e),
        Ok(els) => {
            let f = flatten(els);
            let n = f.len();
            let got: BTreeSet<(Path, B)> =
                f.iter().map(|(p, k, _)| (p.clone().unwrap(), k.clone().unwrap())).collect();
            if got.len() != n {
                return Err(Bad::Wrong(format!("query_many_raw: {n} elements, {} of them distinct", got.len())));
            }
            let show = |v: Vec<&(Path, B)>| {
                let s: Vec<String> = v.iter().take(3).map(|(p, k)| format!("{}:{}", pp(p), hx(k))).collect();
                format!("{} {s:?}", v.len())
            };
            let miss: Vec<_> = want.iter().filter(|r| !got.contains(r)).collect();
            // a leaf on the way of one of the queries may show up
            let deep = qs.iter().any(|q| q.q.has_sub()) || qs.iter().any(|q| q.path != qs[0].path);
            let more: Vec<_> = got
                .iter()
                .filter(|r| !want.contains(r) && !trees.contains(r) && !deep)
                .collect();
            if !miss.is_empty() || !more.is_empty() {
                return Err(Bad::Wrong(format!("query_many_raw: missing {}, too many {}", show(miss), show(more))));
            }
            Ok(n)
        }
    }
}

// ---------------------------------------------------------------- generator

/// a key near the keys of `sub`
pub fn near_key(r: &mut Rng, keys: &[&B]) -> B {
    if keys.is_empty() || r.chance(1, 6) {
        let n = r.range(0, 3);
        return r.bytes(n);
    }
    let mut k = keys[r.below(keys.len())].clone();
    match r.below(6) {
        0 => k.push(r.next() as u8),
        1 => {
            k.pop();
        }
        2 => {
            if let Some(l) = k.last_mut() {
                *l = l.wrapping_add(1)
            }
        }
        _ => {}
    }
    k
}

fn gen_item(r: &mut Rng, keys: &[&B]) -> QI {
    let mut a = near_key(r, keys);
    let mut b = near_key(r, keys);
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    match r.below(14) {
        0..=3 => QI::Key(a),
        4 => QI::R(a, b),
        5 => QI::RI(a, b),
        6 | 7 => QI::Full,
        8 => QI::From(a),
        9 => QI::To(b),
        10 => QI::ToI(b),
        11 => QI::After(a),
        12 => QI::AfterTo(a, b),
        _ => QI::AfterToI(a, b),
    }
}

fn gen_qq(r: &mut Rng, m: &Model, path: &[B], depth: usize) -> QQ {
    let empty = Sub::new(Kind::Normal);
    let sub = m.sub(path).unwrap_or(&empty);
    let keys: Vec<&B> = sub.map.keys().collect();
    let n = if r.chance(1, 15) {
        r.range(4, 12)
    } else if depth == 0 {
        r.range(1, 3)
    } else {
        r.range(1, 2)
    };
    let mut items: Vec<QI> = (0..n).map(|_| gen_item(r, &keys)).collect();
    let trees: Vec<&B> =
        sub.map.iter().filter(|(_, e)| matches!(e.v, Val::Tree(_))).map(|(k, _)| k).collect();
    if !trees.is_empty() && r.chance(2, 3) {
        items.push(if r.chance(1, 2) { QI::Full } else { QI::Key((*r.pick(&trees)).clone()) });
    }
    let mut q = QQ { items, sub: SubB::default(), cond: vec![], ltr: r.chance(2, 3), add_parent: false };
    if depth < 5 && (!trees.is_empty() || r.chance(1, 8)) {
        if r.chance(2, 3) {
            let t = if trees.is_empty() { vec![] } else { vec![(*r.pick(&trees)).clone()] };
            q.sub = gen_sub(r, m, path, &t, depth);
        }
        for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 5]) {
            let t = if trees.is_empty() { vec![] } else { vec![(*r.pick(&trees)).clone()] };
            let it = if !t.is_empty() && r.chance(1, 2) { QI::Key(t[0].clone()) } else { gen_item(r, &keys) };
            let s = gen_sub(r, m, path, &t, depth);
            q.cond.push((it, s));
        }
    }
    q
}

fn gen_sub(r: &mut Rng, m: &Model, path: &[B], t: &[B], depth: usize) -> SubB {
    let mut p = path.to_vec();
    p.extend(t.iter().cloned());
    let mut s = SubB::default();
    if r.chance(1, 3) {
        // follow some keys below
        let mut sp = vec![];
        let mut cur = p.clone();
        for _ in 0..*r.pick(&[1, 1, 2, 2, 3, 4]) {
            let Some(sub) = m.sub(&cur) else { break };
            let ks: Vec<&B> = sub.map.keys().collect();
            if ks.is_empty() {
                break;
            }
            let k = (*r.pick(&ks)).clone();
            cur.push(k.clone());
            sp.push(k);
        }
        if sp.is_empty() {
            sp.push(r.bytes(1));
        }
        s.path = Some(sp);
        if r.chance(1, 2) {
            return s;
        }
        p = cur;
    }
    s.q = Some(Box::new(gen_qq(r, m, &p, depth + 1)));
    s
}

pub fn gen_q(r: &mut Rng, m: &Model) -> Q {
    let subs = m.subtrees();
    let path = if r.chance(1, 20) {
        vec![r.bytes(1)]
    } else if r.chance(1, 2) {
        // near the root, where subqueries have room
        subs[r.below(subs.len().min(3))].0.clone()
    } else {
        subs[r.below(subs.len())].0.clone()
    };
    let q = gen_qq(r, m, &path, 0);
    let limit = match r.below(24) {
        0..=9 => Some(r.range(1, 6) as u16),
        10 | 11 => Some(*r.pick(&[7, 10, 25, 60, 255, 256, u16::MAX])),
        _ => None,
    };
    let offset = match r.below(24) {
        0..=4 => Some(r.below(5) as u16),
        5 => Some(*r.pick(&[5, 9, 20, 50, 256, u16::MAX])),
        _ => None,
    };
    Q { path, q, limit, offset }
}

/// a leaf query, for merging
pub fn gen_flat(r: &mut Rng, m: &Model) -> Q {
    let subs = m.subtrees();
    let path = subs[r.below(subs.len())].0.clone();
    let keys: Vec<&B> = m.sub(&path).unwrap().map.keys().collect();
    let items = (0..r.range(1, 2)).map(|_| gen_item(r, &keys)).collect();
    Q { path, q: QQ::keys(items), limit: None, offset: None }
}
