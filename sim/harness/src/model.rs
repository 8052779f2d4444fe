//! Executable reference model of a grove: plain nested ordered maps.
use std::{collections::BTreeMap, sync::Arc};

use crate::ops::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Item(B),
    Sum(i64),
    ItemSum(B, i64),
    Ref(RefP, Option<u8>),
    Tree(Arc<Sub>),
    Mmr(Arc<Vec<B>>),
    Bulk(u8, Arc<Vec<B>>),
    Dense(u8, Arc<Vec<B>>),
    Commit(u8, Arc<Vec<Note>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub v: Val,
    pub fl: Option<B>,
    /// for references: the value bytes bound when the reference was last
    /// written are still those of the target
    pub bound: Option<Box<Bound>>,
}

/// the target a reference was bound to when written
#[derive(Clone, Debug, PartialEq)]
pub struct Bound {
    pub target: Ent,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub kind: Kind,
    pub map: BTreeMap<B, Ent>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub root: Arc<Sub>,
    pub aux: BTreeMap<B, B>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exp {
    Ok,
    Err,
    /// the contract leaves it open: follow what the database did
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    Bool(bool),
    /// previous element, if any
    Prev(Option<Ent>),
    /// changed?, previous
    Changed(bool, Option<Ent>),
    Count(u64),
    /// position of an append (value), not compared further
    Pos(u64),
    Any,
}

thread_local! {
    static TAG: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) };
}
/// mark the call being modelled as outside the contract, or as a known
/// problem area; runs skip such calls unless they ask for them
pub fn tag(t: &'static str) {
    TAG.with(|c| {
        if c.get().is_none() {
            c.set(Some(t))
        }
    });
}
pub fn take_tag() -> Option<&'static str> {
    TAG.with(|c| c.take())
}

pub const MAX_HOPS: usize = 10;
/// largest path depth the generator builds
pub const MAX_DEPTH: usize = 5;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RErr {
    Missing,
    Cycle,
    Limit,
    BadPath,
}

pub fn ref_target(r: &RefP, path: &[B], key: &[u8]) -> Option<Path> {
    Some(match r {
        RefP::Abs(p) => p.clone(),
        RefP::UpRoot(n, p) => {
            if *n as usize > path.len() {
                return None;
            }
            let mut t = path[..*n as usize].to_vec();
            t.extend(p.iter().cloned());
            t
        }
        RefP::UpRootParent(n, p) => {
            if *n as usize > path.len() || path.is_empty() {
                return None;
            }
            let mut t = path[..*n as usize].to_vec();
            t.extend(p.iter().cloned());
            t.push(path.last().unwrap().clone());
            t
        }
        RefP::UpElem(n, p) => {
            if *n as usize > path.len() {
                return None;
            }
            let mut t = path[..path.len() - *n as usize].to_vec();
            t.extend(p.iter().cloned());
            t
        }
        RefP::Cousin(c) => {
            if path.is_empty() {
                return None;
            }
            let mut t = path[..path.len() - 1].to_vec();
            t.push(c.clone());
            t.push(key.to_vec());
            t
        }
        RefP::RemovedCousin(c) => {
            if path.is_empty() {
                return None;
            }
            let mut t = path[..path.len() - 1].to_vec();
            t.extend(c.iter().cloned());
            t.push(key.to_vec());
            t
        }
        RefP::Sibling(s) => {
            let mut t = path.to_vec();
            t.push(s.clone());
            t
        }
    })
}

impl Val {
    pub fn is_tree(&self) -> bool {
        matches!(
            self,
            Val::Tree(_) | Val::Mmr(_) | Val::Bulk(..) | Val::Dense(..) | Val::Commit(..)
        )
    }

    /// is the (sub)tree empty as the library counts it
    pub fn empty_tree(&self) -> bool {
        match self {
            Val::Tree(s) => s.map.is_empty(),
            Val::Mmr(v) | Val::Bulk(_, v) | Val::Dense(_, v) => v.is_empty(),
            Val::Commit(_, v) => v.is_empty(),
            _ => false,
        }
    }

    pub fn kind_name(&self) -> &'static str {
        match self {
            Val::Item(_) => "item",
            Val::Sum(_) => "sum item",
            Val::ItemSum(..) => "item with sum",
            Val::Ref(..) => "reference",
            Val::Tree(s) => match s.kind {
                Kind::Normal => "tree",
                Kind::Sum => "sum tree",
                Kind::BigSum => "big sum tree",
                Kind::Count => "count tree",
                Kind::CountSum => "count sum tree",
                Kind::PCount => "provable count tree",
                Kind::PCountSum => "provable count sum tree",
            },
            Val::Mmr(_) => "mmr tree",
            Val::Bulk(..) => "bulk append tree",
            Val::Dense(..) => "dense tree",
            Val::Commit(..) => "commitment tree",
        }
    }
}

/// aggregate of one subtree
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Agg {
    pub sum: i128,
    /// sum of absolute values: bounds every partial sum
    pub abs: u128,
    pub count: u64,
}

impl Sub {
    pub fn new(kind: Kind) -> Self {
        Sub { kind, map: BTreeMap::new() }
    }

    pub fn agg(&self) -> Agg {
        let mut a = Agg::default();
        let big = self.kind == Kind::BigSum;
        for e in self.map.values() {
            match &e.v {
                Val::Sum(v) | Val::ItemSum(_, v) => {
                    a.sum += *v as i128;
                    a.abs += v.unsigned_abs() as u128;
                    a.count += 1;
                }
                Val::Tree(s) => {
                    let x = s.agg();
                    match s.kind {
                        Kind::Sum | Kind::CountSum | Kind::PCountSum => {
                            a.sum += x.sum;
                            a.abs += x.sum.unsigned_abs();
                        }
                        Kind::BigSum if big => {
                            a.sum += x.sum;
                            a.abs += x.sum.unsigned_abs();
                        }
                        _ => {}
                    }
                    match s.kind {
                        Kind::Count | Kind::CountSum | Kind::PCount | Kind::PCountSum => {
                            a.count += x.count
                        }
                        _ => a.count += 1,
                    }
                }
                _ => a.count += 1,
            }
        }
        a
    }
}

pub fn note_value(n: &Note) -> B {
    // cmx (32) || rho (32) || ciphertext: see component::note
    crate::component::note_bytes(n)
}

impl Model {
    pub fn new() -> Self {
        Model { root: Arc::new(Sub::new(Kind::Normal)), aux: BTreeMap::new() }
    }

    pub fn sub(&self, path: &[B]) -> Option<&Sub> {
        let mut cur: &Sub = &self.root;
        for seg in path {
            match cur.map.get(seg) {
                Some(Ent { v: Val::Tree(s), .. }) => cur = s,
                _ => return None,
            }
        }
        Some(cur)
    }

    pub fn sub_mut(&mut self, path: &[B]) -> Option<&mut Sub> {
        let mut cur: &mut Sub = Arc::make_mut(&mut self.root);
        for seg in path {
            match cur.map.get_mut(seg) {
                Some(Ent { v: Val::Tree(s), .. }) => cur = Arc::make_mut(s),
                _ => return None,
            }
        }
        Some(cur)
    }

    pub fn get(&self, path: &[B], key: &[u8]) -> Option<&Ent> {
        self.sub(path)?.map.get(key)
    }

    /// the entry of a qualified path
    pub fn at(&self, q: &[B]) -> Option<&Ent> {
        let (k, p) = q.split_last()?;
        self.get(p, k)
    }

    /// follow a reference standing at (path, key) to its final element
    pub fn follow(&self, r: &RefP, path: &[B], key: &[u8]) -> Result<(&Ent, Path), RErr> {
        let start = ref_target(r, path, key).ok_or(RErr::BadPath)?;
        self.follow_q(start)
    }

    pub fn follow_q(&self, start: Path) -> Result<(&Ent, Path), RErr> {
        let mut cur = start;
        let mut seen: Vec<Path> = vec![];
        for _ in 0..MAX_HOPS {
            if seen.contains(&cur) {
                return Err(RErr::Cycle);
            }
            let e = self.at(&cur).ok_or(RErr::Missing)?;
            seen.push(cur.clone());
            match &e.v {
                Val::Ref(r, _) => {
                    let (k, p) = cur.split_last().unwrap();
                    cur = ref_target(r, p, k).ok_or(RErr::BadPath)?;
                }
                _ => return Ok((e, cur)),
            }
        }
        Err(RErr::Limit)
    }

    /// all subtrees kept as search trees: (path, kind)
    pub fn subtrees(&self) -> Vec<(Path, Kind)> {
        fn rec(s: &Sub, p: &mut Path, out: &mut Vec<(Path, Kind)>) {
            out.push((p.clone(), s.kind));
            for (k, e) in &s.map {
                if let Val::Tree(c) = &e.v {
                    p.push(k.clone());
                    rec(c, p, out);
                    p.pop();
                }
            }
        }
        let mut out = vec![];
        rec(&self.root, &mut vec![], &mut out);
        out
    }

    /// every element: (path, key, entry)
    pub fn elements(&self) -> Vec<(Path, B, &Ent)> {
        fn rec<'a>(s: &'a Sub, p: &mut Path, out: &mut Vec<(Path, B, &'a Ent)>) {
            for (k, e) in &s.map {
                out.push((p.clone(), k.clone(), e));
                if let Val::Tree(c) = &e.v {
                    p.push(k.clone());
                    rec(c, p, out);
                    p.pop();
                }
            }
        }
        let mut out = vec![];
        rec(&self.root, &mut vec![], &mut out);
        out
    }

    pub fn size(&self) -> usize {
        fn rec(s: &Sub) -> usize {
            s.map.values().map(|e| 1 + if let Val::Tree(c) = &e.v { rec(c) } else { 0 }).sum()
        }
        rec(&self.root)
    }

    /// would some i64 aggregate overflow / could some partial one?
    pub fn overflow(&self) -> Exp {
        fn rec(s: &Sub) -> Exp {
            let mut worst = Exp::Ok;
            for e in s.map.values() {
                if let Val::Tree(c) = &e.v {
                    match rec(c) {
                        Exp::Err => return Exp::Err,
                        Exp::Any => worst = Exp::Any,
                        Exp::Ok => {}
                    }
                }
            }
            if matches!(s.kind, Kind::Sum | Kind::CountSum | Kind::PCountSum) {
                let a = s.agg();
                if a.sum > i64::MAX as i128 || a.sum < i64::MIN as i128 {
                    return Exp::Err;
                }
                if a.abs > i64::MAX as u128 {
                    worst = Exp::Any;
                }
            }
            worst
        }
        rec(&self.root)
    }

    fn new_ent(&self, path: &[B], key: &[u8], el: &ElF) -> Result<Ent, Exp> {
        let v = match &el.el {
            El::Item(b) => Val::Item(b.clone()),
            El::Sum(v) => Val::Sum(*v),
            El::ItemSum(b, v) => Val::ItemSum(b.clone(), *v),
            El::Ref(r, h) => {
                let (t, tp) = match self.follow(r, path, key) {
                    Ok(x) => x,
                    Err(_) => return Err(Exp::Err),
                };
                let _ = tp;
                let target = t.clone();
                return Ok(Ent {
                    v: Val::Ref(r.clone(), *h),
                    fl: el.fl.clone(),
                    bound: Some(Box::new(Bound { target })),
                });
            }
            El::Tree(k) => Val::Tree(Arc::new(Sub::new(*k))),
            El::Mmr => Val::Mmr(Arc::default()),
            El::Bulk(c) => Val::Bulk(*c, Arc::default()),
            El::Dense(h) => Val::Dense(*h, Arc::default()),
            El::Commit(c) => Val::Commit(*c, Arc::default()),
        };
        Ok(Ent { v, fl: el.fl.clone(), bound: None })
    }

    /// plain insertion with override rules
    fn insert(&mut self, path: &[B], key: &[u8], el: &ElF, no_over: bool, no_over_tree: bool) -> Exp {
        if key.len() > 255 {
            return Exp::Err;
        }
        let Some(sub) = self.sub(path) else { return Exp::Err };
        let old = sub.map.get(key);
        if old.is_some() && no_over {
            return Exp::Err;
        }
        if let Some(o) = old {
            if o.v.is_tree() {
                if no_over_tree {
                    return Exp::Err;
                }
                tag("replace-tree");
            }
        }
        if matches!(el.el, El::Sum(_) | El::ItemSum(..)) && !sub.kind.allows_sum() {
            return Exp::Err;
        }
        if let El::Dense(c) | El::Bulk(c) | El::Commit(c) = el.el {
            if c == 0 || c > 16 {
                tag("bad-tree-config");
                return Exp::Any;
            }
        }
        let ent = match self.new_ent(path, key, el) {
            Ok(e) => e,
            Err(x) => return x,
        };
        let before = self.clone();
        self.sub_mut(path).unwrap().map.insert(key.to_vec(), ent);
        let o = self.overflow();
        if o == Exp::Err {
            *self = before;
        }
        o
    }

    /// one mutating call. The model is changed as if it succeeded, unless the
    /// answer is `Exp::Err`.
    pub fn apply(&mut self, w: &W) -> (Exp, Ret) {
        match w {
            W::Insert { path, key, el, no_override, no_override_tree } => {
                (self.insert(path, key, el, *no_override, *no_override_tree), Ret::Unit)
            }
            W::InsertIfNot { path, key, el } => {
                if self.at(path).is_some_and(|e| e.v.is_tree()) && self.sub(path).is_none() {
                    // among the entries of an append tree: nothing is
                    // inserted, what is reported is open
                    return (Exp::Any, Ret::Any);
                }
                if key.len() > 255 || self.sub(path).is_none() {
                    return (Exp::Err, Ret::Any);
                }
                if self.get(path, key).is_some() {
                    (Exp::Ok, Ret::Bool(false))
                } else {
                    (self.insert(path, key, el, false, true), Ret::Bool(true))
                }
            }
            W::InsertIfNotRet { path, key, el } => {
                if self.at(path).is_some_and(|e| e.v.is_tree()) && self.sub(path).is_none() {
                    // among the entries of an append tree: nothing is
                    // inserted, what is reported is open
                    return (Exp::Any, Ret::Any);
                }
                if key.len() > 255 || self.sub(path).is_none() {
                    return (Exp::Err, Ret::Any);
                }
                if let Some(e) = self.get(path, key) {
                    (Exp::Ok, Ret::Prev(Some(e.clone())))
                } else {
                    (self.insert(path, key, el, false, true), Ret::Prev(None))
                }
            }
            W::InsertIfChanged { path, key, el } => {
                if self.at(path).is_some_and(|e| e.v.is_tree()) && self.sub(path).is_none() {
                    // among the entries of an append tree: nothing is
                    // inserted, what is reported is open
                    return (Exp::Any, Ret::Any);
                }
                if key.len() > 255 || self.sub(path).is_none() {
                    return (Exp::Err, Ret::Any);
                }
                let prev = self.get(path, key).cloned();
                let same = match &prev {
                    None => false,
                    Some(p) => {
                        p.fl == el.fl
                            && match (&p.v, &el.el) {
                                (Val::Item(a), El::Item(b)) => a == b,
                                (Val::Sum(a), El::Sum(b)) => a == b,
                                (Val::ItemSum(a, x), El::ItemSum(b, y)) => a == b && x == y,
                                (Val::Ref(a, x), El::Ref(b, y)) => a == b && x == y,
                                (Val::Tree(s), El::Tree(k)) => s.map.is_empty() && s.kind == *k,
                                (Val::Mmr(v), El::Mmr) => v.is_empty(),
                                (Val::Bulk(c, v), El::Bulk(d)) => c == d && v.is_empty(),
                                (Val::Dense(c, v), El::Dense(d)) => c == d && v.is_empty(),
                                (Val::Commit(c, v), El::Commit(d)) => c == d && v.is_empty(),
                                _ => false,
                            }
                    }
                };
                if same {
                    return (Exp::Ok, Ret::Changed(false, None));
                }
                (self.insert(path, key, el, false, true), Ret::Changed(true, prev))
            }
            W::Delete { path, key, allow, err } => {
                let Some(sub) = self.sub(path) else { return (Exp::Err, Ret::Unit) };
                let Some(e) = sub.map.get(key) else { return (Exp::Err, Ret::Unit) };
                if e.v.is_tree() && !e.v.empty_tree() && !allow {
                    return (if *err { Exp::Err } else { Exp::Ok }, Ret::Unit);
                }
                (self.remove(path, key), Ret::Unit)
            }
            W::DeleteIfEmpty { path, key } => {
                let Some(sub) = self.sub(path) else { return (Exp::Err, Ret::Any) };
                let Some(e) = sub.map.get(key) else { return (Exp::Err, Ret::Any) };
                if e.v.is_tree() && !e.v.empty_tree() {
                    return (Exp::Ok, Ret::Bool(false));
                }
                (self.remove(path, key), Ret::Bool(true))
            }
            W::DeleteUp { path, key, stop } => {
                let mut p = path.clone();
                let mut k = key.clone();
                let mut dels: Vec<(Path, B)> = vec![];
                let mut m = self.clone();
                loop {
                    if *stop == Some(p.len() as u16) {
                        break;
                    }
                    if p.is_empty() {
                        return (Exp::Err, Ret::Any);
                    }
                    let Some(e) = m.get(&p, &k) else {
                        return (Exp::Err, Ret::Any);
                    };
                    if e.v.is_tree() && !e.v.empty_tree() {
                        if dels.is_empty() {
                            return (Exp::Err, Ret::Any);
                        }
                        break;
                    }
                    m.sub_mut(&p).unwrap().map.remove(&k);
                    dels.push((p.clone(), k.clone()));
                    k = p.pop().unwrap();
                }
                if dels.is_empty() {
                    return (Exp::Err, Ret::Any);
                }
                let o = m.overflow();
                if o != Exp::Err {
                    *self = m;
                }
                (o, Ret::Count(dels.len() as u64))
            }
            W::Clear { path, check, allow, err } => {
                if let Some((key, parent)) = path.split_last()
                    && let Some(e) = self.sub_mut(parent).and_then(|s| s.map.get_mut(key))
                {
                    match &mut e.v {
                        Val::Mmr(x) | Val::Bulk(_, x) | Val::Dense(_, x) => {
                            *x = Default::default();
                            return (Exp::Ok, Ret::Bool(true));
                        }
                        Val::Commit(_, x) => {
                            *x = Default::default();
                            return (Exp::Ok, Ret::Bool(true));
                        }
                        _ => {}
                    }
                }
                let Some(sub) = self.sub(path) else { return (Exp::Err, Ret::Any) };
                let has_trees = sub.map.values().any(|e| e.v.is_tree());
                if has_trees && *check && !allow {
                    return if *err {
                        (Exp::Err, Ret::Any)
                    } else {
                        (Exp::Ok, Ret::Bool(false))
                    };
                }
                if has_trees && !check {
                    // documented as leaving nested subtrees behind
                    tag("clear-unchecked");
                }
                let before = self.clone();
                let through = self.overflow();
                self.sub_mut(path).unwrap().map.clear();
                let mut o = self.overflow();
                if o == Exp::Ok && has_trees && through != Exp::Ok {
                    // nested trees go one after another, and a sum between
                    // can be out of range
                    o = Exp::Any;
                }
                if o == Exp::Err {
                    *self = before;
                }
                (o, Ret::Bool(true))
            }
            W::MmrAppend { path, key, val } => self.append(path, key, |v| match v {
                Val::Mmr(x) => {
                    Arc::make_mut(x).push(val.clone());
                    Some(x.len() as u64 - 1)
                }
                _ => None,
            }),
            W::BulkAppend { path, key, val } => self.append(path, key, |v| match v {
                Val::Bulk(_, x) => {
                    Arc::make_mut(x).push(val.clone());
                    Some(x.len() as u64 - 1)
                }
                _ => None,
            }),
            W::DenseInsert { path, key, val } => self.append(path, key, |v| match v {
                Val::Dense(h, x) if x.len() < (1usize << *h) - 1 => {
                    Arc::make_mut(x).push(val.clone());
                    Some(x.len() as u64 - 1)
                }
                _ => None,
            }),
            W::CommitInsert { path, key, note } => self.append(path, key, |v| match v {
                Val::Commit(_, x) => {
                    if !crate::component::note_valid(note) {
                        return None;
                    }
                    Arc::make_mut(x).push(note.clone());
                    Some(x.len() as u64 - 1)
                }
                _ => None,
            }),
            W::Batch(ops) => (crate::batchmodel::apply_batch(self, ops), Ret::Unit),
            W::NoBatch(ops) => (crate::batchmodel::apply_seq(self, ops), Ret::Unit),
            W::PutAux { key, val } => {
                self.aux.insert(key.clone(), val.clone());
                (Exp::Ok, Ret::Unit)
            }
            W::DelAux { key } => {
                self.aux.remove(key);
                (Exp::Ok, Ret::Unit)
            }
        }
    }

    pub fn remove(&mut self, path: &[B], key: &[u8]) -> Exp {
        let before = self.clone();
        self.sub_mut(path).unwrap().map.remove(key);
        let o = self.overflow();
        if o == Exp::Err {
            *self = before;
        }
        o
    }

    pub fn put_ent(&mut self, path: &[B], key: &[u8], el: &ElF) -> Result<(), Exp> {
        let e = self.new_ent(path, key, el)?;
        self.sub_mut(path).ok_or(Exp::Err)?.map.insert(key.to_vec(), e);
        Ok(())
    }

    fn append(&mut self, path: &[B], key: &[u8], f: impl FnOnce(&mut Val) -> Option<u64>) -> (Exp, Ret) {
        let Some(sub) = self.sub_mut(path) else { return (Exp::Err, Ret::Any) };
        let Some(e) = sub.map.get_mut(key) else { return (Exp::Err, Ret::Any) };
        match f(&mut e.v) {
            Some(p) => (Exp::Ok, Ret::Pos(p)),
            None => (Exp::Err, Ret::Any),
        }
    }
}
