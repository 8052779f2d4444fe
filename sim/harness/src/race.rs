//! A read call during which a single writer works and commits.
use grovedb::{query_result_type::QueryResultType, Element, GroveDb};
use serde::{Deserialize, Serialize};

use crate::{check::*, gen_::Gen, model::*, node::*, ops::*, prove, query, sim::*};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Read {
    RootHash,
    Has(Path, B),
    GetRaw(Path, B),
    Get(Path, B),
    IsEmpty(Path),
    Query(query::Q),
    Prove(query::Q, u8),
}

impl Read {
    pub fn name(&self) -> &'static str {
        match self {
            Read::RootHash => "root hash",
            Read::Has(..) => "has",
            Read::GetRaw(..) => "get_raw",
            Read::Get(..) => "get",
            Read::IsEmpty(..) => "is_empty",
            Read::Query(..) => "query",
            Read::Prove(..) => "proof",
        }
    }
}

enum Ans {
    Hash([u8; 32]),
    Bool(bool),
    El(Option<Element>),
    Rows(Vec<(Option<Path>, Option<B>, Element)>, u16),
    Proof(B),
}

/// one state that was committed while the read ran
pub struct Version {
    pub m: Model,
    pub root: [u8; 32],
}

type R<T> = Result<T, String>;

fn read(db: &Db, r: &Read) -> R<Ans> {
    let v = gv();
    let e = |e: grovedb::Error| format!("{e:?}");
    Ok(match r {
        Read::RootHash => Ans::Hash(db.root_hash(None, v).value.map_err(e)?),
        Read::Has(p, k) => Ans::Bool(db.has_raw(crate::paths::sp(p), k, None, v).value.map_err(e)?),
        Read::GetRaw(p, k) => Ans::El(db.get_raw_optional(sp(p), k, None, v).value.map_err(e)?),
        Read::Get(p, k) => match db.get(crate::paths::sp(p), k, None, v).value {
            Ok(x) => Ans::El(Some(x)),
            Err(
                grovedb::Error::PathKeyNotFound(_)
                | grovedb::Error::PathNotFound(_)
                | grovedb::Error::PathParentLayerNotFound(_)
                | grovedb::Error::CorruptedReferencePathKeyNotFound(_)
                | grovedb::Error::CorruptedReferencePathNotFound(_)
                | grovedb::Error::CorruptedReferencePathParentLayerNotFound(_)
                | grovedb::Error::ReferenceLimit
                | grovedb::Error::CyclicReference,
            ) => Ans::El(None),
            Err(x) => return Err(e(x)),
        },
        Read::IsEmpty(p) => Ans::Bool(db.is_empty_tree(crate::paths::sp(p), None, v).value.map_err(e)?),
        Read::Query(q) => {
            let (els, n) = db
                .query_raw(&q.to(), true, true, false, QueryResultType::QueryPathKeyElementTrioResultType, None, v)
                .value
                .map_err(e)?;
            Ans::Rows(query::flatten(els), n)
        }
        Read::Prove(q, ver) => Ans::Proof(db.prove_query(&q.to(), None, prove::version(*ver)).value.map_err(e)?),
    })
}

/// is it right for this state; None: what is right there is not specified
fn right(r: &Read, a: &Result<Ans, String>, v: &Version) -> Option<R<()>> {
    let m = &v.m;
    Some(match (r, a) {
        // rows of an append-only tree are no elements
        (Read::IsEmpty(p) | Read::Has(p, _) | Read::Get(p, _) | Read::GetRaw(p, _), _)
            if p.split_last().is_some_and(|(k, p)| m.get(p, k).is_some_and(|x| x.v.is_tree() && !matches!(x.v, Val::Tree(_)))) =>
        {
            return None
        }
        (Read::RootHash, Ok(Ans::Hash(h))) => {
            if h == &v.root { Ok(()) } else { Err(format!("root hash {} instead of {}", hx(h), hx(&v.root))) }
        }
        (Read::Has(p, k), Ok(Ans::Bool(b))) => {
            if *b == m.get(p, k).is_some() { Ok(()) } else { Err(format!("has_raw says {b}")) }
        }
        (Read::IsEmpty(p), a) => match (m.sub(p), a) {
            (None, Err(_)) => Ok(()),
            (None, Ok(_)) => Err("is_empty_tree answers for a tree that is not there".into()),
            (Some(_), Err(e)) => Err(e.clone()),
            (Some(s), Ok(Ans::Bool(b))) if *b == s.map.is_empty() => Ok(()),
            (Some(_), _) => Err("is_empty_tree answers wrong".into()),
        },
        (Read::GetRaw(p, k), Ok(Ans::El(e))) => match (m.get(p, k), e) {
            (None, None) => Ok(()),
            (Some(x), Some(e)) => same_element(x, e),
            (x, _) => Err(format!("an element that {} came back as {e:?}", if x.is_some() { "is there" } else { "is not there" })),
        },
        (Read::GetRaw(p, k) | Read::Has(p, k), Err(e)) => {
            // told as an error when the subtree is missing
            if m.sub(p).is_none() && m.get(p, k).is_none() { Ok(()) } else { Err(e.clone()) }
        }
        (Read::Get(p, k), a) => {
            let want = match m.get(p, k) {
                Some(x) => match &x.v {
                    Val::Ref(rf, _) => m.follow(rf, p, k).ok().map(|x| x.0),
                    _ => Some(x),
                },
                None => None,
            };
            match (want, a) {
                (None, Ok(Ans::El(None)) | Err(_)) => Ok(()),
                (Some(x), Ok(Ans::El(Some(e)))) => same_element(x, e),
                (_, Err(e)) => Err(e.clone()),
                (x, Ok(Ans::El(e))) => Err(format!("an element that {} came back as {e:?}", if x.is_some() { "is there" } else { "is not there" })),
                _ => Err("no element".into()),
            }
        }
        (Read::Query(q), a) => {
            let w = query::eval(m, q, true);
            if w.open {
                return None;
            }
            match a {
                Ok(Ans::Rows(rows, n)) => match query::same_rows(&w.rows, rows, "query_raw") {
                    Ok(()) if *n != w.skipped => Err(format!("skipped {n}, expected {}", w.skipped)),
                    x => x,
                },
                Err(e) => Err(e.clone()),
                _ => Err("no rows".into()),
            }
        }
        (Read::Prove(q, ver), a) => match a {
            Ok(Ans::Proof(proof)) => return prove::carried(proof, m, q, *ver, v.root),
            Err(e) => match prove::carried(&[], m, q, *ver, v.root) {
                None => return None,
                Some(_) => Err(e.clone()),
            },
            _ => Err("no proof".into()),
        },
        (_, Err(e)) => Err(e.clone()),
        _ => Err("an answer of another kind".into()),
    })
}

/// whatever was mixed, nothing false may be told
fn sound(r: &Read, a: &Ans, vs: &[Version]) -> R<()> {
    match (r, a) {
        (Read::GetRaw(p, k), Ans::El(Some(e))) => {
            if !vs.iter().any(|v| v.m.get(p, k).is_some_and(|x| same_element(x, e).is_ok())) {
                return Err(format!("{e} was never there"));
            }
        }
        (Read::Query(_), Ans::Rows(rows, _)) => {
            for (p, k, e) in rows {
                let (Some(p), Some(k)) = (p, k) else { continue };
                let ok = vs.iter().any(|v| {
                    v.m.get(p, k).is_some_and(|x| {
                        query::same_row(&query::Row { path: p.clone(), key: k.clone(), e: x }, e).is_ok()
                    })
                });
                if !ok {
                    return Err(format!("{e} was never at {} {}", pp(p), hx(k)));
                }
            }
        }
        (Read::Prove(q, ver), Ans::Proof(proof)) => {
            // a proof that fits one of the roots tells what is below that root
            let Ok((h, _)) = GroveDb::verify_query(proof, &q.to(), prove::version(*ver)) else { return Ok(()) };
            for v in vs.iter().filter(|v| v.root == h) {
                if let Some(Err(e)) = prove::carried(proof, &v.m, q, *ver, v.root) {
                    return Err(format!("a mixed proof fits a committed root: {e}"));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn race(s: &mut Sim, r: &Read, f: &[(u32, Fault)]) -> V {
    if s.nested() {
        return Ok(());
    }
    s.versions = vec![];
    let root = match s.node.db().root_hash(None, gv()).value {
        Ok(h) => h,
        Err(e) => return viol("read-error", format!("root hash: {e}")),
    };
    s.versions.push(Version { m: s.m.clone(), root });
    let pre = s.digest;
    s.begin(f);
    s.flight = Some(Flight { tx: None, digest: pre, next: None });
    let db = s.node.db();
    let res = guard(|| read(db, r));
    s.flight = None;
    let (n, _, _) = s.end()?;
    s.lens.insert(r.name(), n);
    let vs = std::mem::take(&mut s.versions);
    s.st.ev(&format!("reads beside a writer: {}", r.name()));
    let a = match res {
        Caught::Panicked(p) => return viol("panic", format!("{} beside a writer panicked: {p}", r.name())),
        Caught::Crashed => return Ok(()),
        Caught::Done(a) => a,
    };
    if s.over {
        return Ok(());
    }
    s.unchanged("reader-effect", "a read")?;
    if vs.len() > 1 {
        s.st.ev(&format!("probe.commits inside: {}", r.name()));
    }
    let mut why = None;
    for v in &vs {
        match right(r, &a, v) {
            None | Some(Ok(())) => return Ok(()),
            Some(Err(e)) => why = why.or(Some(e)),
        }
    }
    let why = why.unwrap_or_default();
    let told = format!("{} with {} commits inside: {why}", r.name(), vs.len() - 1);
    if let Ok(a) = &a {
        if let Err(e) = sound(r, a, &vs) {
            return viol("false-read", format!("{e}; {told}"));
        }
    }
    if vs.len() == 1 {
        return viol("dirty-read", format!("nothing was committed meanwhile: {told}"));
    }
    let tag = format!("torn-{}", r.name().replace(' ', "-"));
    let known = !matches!(r, Read::Has(..));
    if !known || s.allow.contains(&tag) || s.allow.contains("torn") {
        return viol(&tag, told);
    }
    s.st.ev(&format!("{tag} (known finding)"));
    Ok(())
}

pub fn gen_race(g: &mut Gen, s: &Sim) -> (Read, Vec<(u32, Fault)>) {
    let els = s.m.elements();
    let place = |g: &mut Gen| -> (Path, B) {
        if els.is_empty() || g.r.chance(1, 8) {
            let p = g.path(&s.m);
            return (p, g.new_key());
        }
        let e = &els[g.r.below(els.len())];
        (e.0.clone(), e.1.clone())
    };
    let r = match g.r.below(12) {
        0 => Read::RootHash,
        1 => {
            let (p, k) = place(g);
            Read::Has(p, k)
        }
        2 => {
            let (p, k) = place(g);
            Read::GetRaw(p, k)
        }
        3 | 4 => {
            let (p, k) = place(g);
            Read::Get(p, k)
        }
        5 => Read::IsEmpty(g.path(&s.m)),
        6..=8 => {
            let mut q = query::gen_q(&mut g.r, &s.m);
            q.q.add_parent = false;
            Read::Query(q)
        }
        _ => Read::Prove(prove::gen_pq(&mut g.r, &s.m), 0),
    };
    let len = s.lens.get(r.name()).copied().unwrap_or(10) + 1;
    let mut f: Vec<(u32, Fault)> = vec![];
    let mut open = s.node.txs[0].is_some();
    for _ in 0..g.r.range(1, 3) {
        let mut steps = vec![];
        for _ in 0..g.r.range(1, 3) {
            let w = g.write(&s.m);
            let op = match g.r.below(8) {
                0 if !open => {
                    open = true;
                    Op::Begin(0)
                }
                0..=2 if open => {
                    open = false;
                    Op::Commit(0)
                }
                3 if open => Op::Rollback(0),
                4..=6 if open => Op::W { tx: Some(0), w },
                _ if open => continue,
                _ => Op::W { tx: None, w },
            };
            steps.push(Step { op, faults: vec![] });
        }
        f.push((g.r.below(len as usize) as u32, Fault::Run(steps)));
    }
    f.sort_by_key(|x| x.0);
    (r, f)
}
