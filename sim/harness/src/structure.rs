//! Storage-level oracle: reads the raw rows of a disk image and recomputes
//! every hash, link, aggregate and reachability from the documented format,
//! without using the database's own code (except to decode elements).
use std::collections::{BTreeMap, BTreeSet};

use grovedb::Element;

use crate::{model::*, node::*, ops::*};

pub type H = [u8; 32];
pub const NULL: H = [0; 32];

pub fn varint(mut n: u64) -> B {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

pub fn h(parts: &[&[u8]]) -> H {
    let mut x = blake3::Hasher::new();
    for p in parts {
        x.update(p);
    }
    *x.finalize().as_bytes()
}

pub fn value_hash(v: &[u8]) -> H {
    h(&[&varint(v.len() as u64), v])
}

pub fn kv_hash(k: &[u8], vh: &H) -> H {
    h(&[&varint(k.len() as u64), k, vh])
}

pub fn prefix(path: &[B]) -> H {
    if path.is_empty() {
        return NULL;
    }
    let mut body = vec![];
    let mut lens = vec![];
    for s in path.iter().rev() {
        body.extend_from_slice(s);
        lens.push(s.len() as u8);
    }
    body.extend_from_slice(&(path.len() as u64).to_le_bytes());
    body.extend(lens);
    h(&[&body])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Ag {
    pub tag: u8,
    pub count: u64,
    pub sum: i128,
}

#[derive(Clone, Debug)]
pub struct Lnk {
    pub key: B,
    pub hash: H,
    pub hl: u8,
    pub hr: u8,
    pub ag: Ag,
}

#[derive(Clone, Debug)]
pub struct Nd {
    pub left: Option<Lnk>,
    pub right: Option<Lnk>,
    pub feat: Ag,
    pub kv_hash: H,
    pub value_hash: H,
    pub value: B,
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn hash(&mut self) -> Option<H> {
        self.take(32)?.try_into().ok()
    }
    fn var(&mut self) -> Option<u64> {
        let mut n = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8()?;
            n |= ((b & 0x7f) as u64).checked_shl(s)?;
            if b & 0x80 == 0 {
                return Some(n);
            }
            s += 7;
            if s > 63 {
                return None;
            }
        }
    }
    fn zig(&mut self) -> Option<i64> {
        let n = self.var()?;
        Some(((n >> 1) as i64) ^ -((n & 1) as i64))
    }
    fn ag(&mut self) -> Option<Ag> {
        let tag = self.u8()?;
        let mut a = Ag { tag, ..Default::default() };
        match tag {
            0 => {}
            1 => a.sum = self.zig()? as i128,
            2 => a.sum = i128::from_be_bytes(self.take(16)?.try_into().ok()?),
            3 | 5 => a.count = self.var()?,
            4 | 6 => {
                a.count = self.var()?;
                a.sum = self.zig()? as i128;
            }
            _ => return None,
        }
        Some(a)
    }
    fn link(&mut self) -> Option<Option<Lnk>> {
        match self.u8()? {
            0 => Some(None),
            1 => {
                let n = self.u8()? as usize;
                let key = self.take(n)?.to_vec();
                let hash = self.hash()?;
                let hl = self.u8()?;
                let hr = self.u8()?;
                let ag = self.ag()?;
                Some(Some(Lnk { key, hash, hl, hr, ag }))
            }
            _ => None,
        }
    }
}

pub fn parse_node(b: &[u8]) -> Option<Nd> {
    let mut r = Rd(b);
    let left = r.link()?;
    let right = r.link()?;
    let feat = r.ag()?;
    let kv_hash = r.hash()?;
    let value_hash = r.hash()?;
    Some(Nd { left, right, feat, kv_hash, value_hash, value: r.0.to_vec() })
}

pub type Rows = BTreeMap<B, B>;

pub struct Image {
    pub data: BTreeMap<H, Rows>,
    pub root_key: Option<B>,
    pub aux: Rows,
    pub odd: Vec<String>,
}

pub fn image(dump: &[(String, B, B)]) -> Image {
    let mut im = Image { data: BTreeMap::new(), root_key: None, aux: Rows::new(), odd: vec![] };
    for (cf, k, v) in dump {
        match cf.as_str() {
            "default" if k.len() >= 32 => {
                let p: H = k[..32].try_into().unwrap();
                im.data.entry(p).or_default().insert(k[32..].to_vec(), v.clone());
            }
            "roots" if k.len() == 33 && k[..32] == NULL && k[32] == b'r' => im.root_key = Some(v.clone()),
            "aux" if k.len() >= 32 && k[..32] == NULL => {
                im.aux.insert(k[32..].to_vec(), v.clone());
            }
            _ => im.odd.push(format!("unexpected row in column family {cf}: key {}", hx(k))),
        }
    }
    im
}

pub struct Problem {
    pub class: &'static str,
    pub msg: String,
}

struct Ctx<'a> {
    im: &'a Image,
    m: &'a Model,
    used: BTreeSet<H>,
    out: Vec<Problem>,
}

fn kind_tag(k: Kind) -> u8 {
    match k {
        Kind::Normal => 0,
        Kind::Sum => 1,
        Kind::BigSum => 2,
        Kind::Count => 3,
        Kind::CountSum => 4,
        Kind::PCount => 5,
        Kind::PCountSum => 6,
    }
}

fn root_key_of(e: &Element) -> Option<B> {
    match e {
        Element::Tree(r, _)
        | Element::SumTree(r, ..)
        | Element::BigSumTree(r, ..)
        | Element::CountTree(r, ..)
        | Element::CountSumTree(r, ..)
        | Element::ProvableCountTree(r, ..)
        | Element::ProvableCountSumTree(r, ..) => r.clone(),
        _ => None,
    }
}

/// returns problems and the recomputed root hash
pub fn check(dump: &[(String, B, B)], m: &Model) -> (Vec<Problem>, H) {
    let im = image(dump);
    let mut c = Ctx { im: &im, m, used: BTreeSet::new(), out: vec![] };
    for o in &im.odd {
        c.out.push(Problem { class: "residue", msg: o.clone() });
    }
    if im.aux != m.aux {
        c.out.push(Problem {
            class: "aux",
            msg: format!("auxiliary rows are {}, expected {}", im.aux.len(), m.aux.len()),
        });
    }
    let root = subtree(&mut c, &mut vec![], &m.root, im.root_key.clone());
    for (p, rows) in &im.data {
        if !c.used.contains(p) {
            c.out.push(Problem {
                class: "residue",
                msg: format!(
                    "{} rows stored under a prefix no element leads to (first key {})",
                    rows.len(),
                    rows.keys().next().map(|k| hx(k)).unwrap_or_default()
                ),
            });
        }
    }
    (c.out, root)
}

fn subtree(c: &mut Ctx, path: &mut Path, sub: &Sub, root_key: Option<B>) -> H {
    let p = prefix(path);
    c.used.insert(p);
    let empty = Rows::new();
    let rows = c.im.data.get(&p).unwrap_or(&empty);
    let mut seen = BTreeSet::new();
    let root = match &root_key {
        None => {
            if !rows.is_empty() {
                c.out.push(Problem {
                    class: if sub.map.is_empty() { "residue" } else { "structure" },
                    msg: format!("{} rows in {} but no root key", rows.len(), pp(path)),
                });
            }
            NULL
        }
        Some(k) => match node(c, path, sub, rows, k, None, None, &mut seen, 0) {
            Some((hash, _, _, _)) => hash,
            None => NULL,
        },
    };
    if root_key.is_some() && seen.len() != rows.len() {
        let left: Vec<String> =
            rows.keys().filter(|k| !seen.contains(*k)).take(3).map(|k| hx(k)).collect();
        c.out.push(Problem {
            class: "residue",
            msg: format!("{} rows in {} are not reachable from its root: {left:?}", rows.len() as i64 - seen.len() as i64, pp(path)),
        });
    }
    if seen.len() != sub.map.len() || !seen.iter().all(|k| sub.map.contains_key(k)) {
        c.out.push(Problem {
            class: "state",
            msg: format!("{} holds {} stored elements, expected {}", pp(path), seen.len(), sub.map.len()),
        });
    }
    root
}

fn bad(c: &mut Ctx, class: &'static str, path: &[B], k: &[u8], msg: String) {
    c.out.push(Problem { class, msg: format!("stored node {} of {}: {msg}", hx(k), pp(path)) });
}

/// hash, left height, right height, aggregate
fn node(
    c: &mut Ctx,
    path: &mut Path,
    sub: &Sub,
    rows: &Rows,
    k: &B,
    lo: Option<&B>,
    hi: Option<&B>,
    seen: &mut BTreeSet<B>,
    depth: usize,
) -> Option<(H, u8, u8, Ag)> {
    if depth > 64 || !seen.insert(k.clone()) {
        bad(c, "structure", path, k, "reached twice or too deep".into());
        return None;
    }
    let Some(raw) = rows.get(k) else {
        bad(c, "structure", path, k, "linked but not stored".into());
        return None;
    };
    let Some(n) = parse_node(raw) else {
        bad(c, "structure", path, k, "does not decode".into());
        return None;
    };
    if lo.is_some_and(|l| k <= l) || hi.is_some_and(|x| k >= x) {
        bad(c, "structure", path, k, "out of search order".into());
    }
    let tag = kind_tag(sub.kind);
    let mut heights = [0u8; 2];
    let mut hashes = [NULL; 2];
    let mut total = Ag { tag, count: n.feat.count, sum: n.feat.sum };
    if n.feat.tag != tag {
        bad(c, "agg", path, k, format!("feature type {} in a {:?} tree", n.feat.tag, sub.kind));
    }
    for (i, l) in [&n.left, &n.right].into_iter().enumerate() {
        let Some(l) = l else { continue };
        let (a, b) = if i == 0 { (lo, Some(k)) } else { (Some(k), hi) };
        if let Some((hash, hl, hr, ag)) = node(c, path, sub, rows, &l.key, a, b, seen, depth + 1) {
            if hash != l.hash {
                bad(c, "structure", path, k, format!("link hash of child {} is wrong", hx(&l.key)));
            }
            if (hl, hr) != (l.hl, l.hr) {
                bad(
                    c,
                    "structure",
                    path,
                    k,
                    format!("link heights of child {} are {:?}, really {:?}", hx(&l.key), (l.hl, l.hr), (hl, hr)),
                );
            }
            if ag != l.ag {
                bad(c, "agg", path, k, format!("link aggregate {:?} of child {}, really {ag:?}", l.ag, hx(&l.key)));
            }
            heights[i] = 1 + hl.max(hr);
            hashes[i] = l.hash;
            total.count = total.count.wrapping_add(ag.count);
            total.sum += ag.sum;
        }
    }
    if heights[0].abs_diff(heights[1]) > 1 {
        bad(c, "structure", path, k, format!("unbalanced: {heights:?}"));
    }
    if n.kv_hash != kv_hash(k, &n.value_hash) {
        bad(c, "structure", path, k, "kv hash is wrong".into());
    }
    // ---- value
    let own = value_hash(&n.value);
    let el = Element::deserialize(&n.value, gv());
    match (&el, sub.map.get(k)) {
        (Err(e), _) => bad(c, "structure", path, k, format!("element does not decode: {e}")),
        (Ok(e), None) => bad(c, "state", path, k, format!("{e} should not exist")),
        (Ok(e), Some(ent)) => {
            if let Err(x) = same_element(ent, e) {
                bad(c, if x.starts_with("aggregate") { "agg" } else { "state" }, path, k, x);
            }
            // this node's own contribution
            let want = contribution(sub.kind, ent);
            if (want.count, want.sum) != (n.feat.count, n.feat.sum) {
                bad(c, "agg", path, k, format!("contributes {:?}, expected {want:?}", n.feat));
            }
            path.push(k.clone());
            let child = match &ent.v {
                Val::Tree(s) => Some(subtree(c, path, s, root_key_of(e))),
                Val::Mmr(v) => append_rows(c, path, v.is_empty(), || crate::roots::mmr(v)),
                Val::Bulk(p, v) => append_rows(c, path, v.is_empty(), || crate::roots::bulk(v, *p)),
                Val::Dense(hh, v) => append_rows(c, path, v.is_empty(), || crate::roots::dense(v, *hh)),
                Val::Commit(p, v) => {
                    append_rows(c, path, v.is_empty(), || crate::roots::commit(v, *p));
                    Some(crate::roots::commit(v, *p))
                }
                _ => None,
            };
            path.pop();
            match (&ent.v, child) {
                (Val::Item(_) | Val::Sum(_) | Val::ItemSum(..), _) => {
                    if n.value_hash != own {
                        bad(c, "structure", path, k, "value hash is wrong".into());
                    }
                }
                (Val::Ref(r, _), _) => {
                    // bound to the value its target had when it was written
                    if !stale(c.m, path, k, ent, r) {
                        if let Ok((t, tp)) = c.m.follow(r, path, k) {
                            let _ = t;
                            if let Some(tv) = raw_value(c.im, &tp) {
                                if n.value_hash != h(&[&own, &value_hash(&tv)]) {
                                    bad(c, "ref-bind", path, k, "reference is not bound to its target's value".into());
                                }
                            }
                        }
                    }
                }
                (_, Some(ch)) => {
                    if n.value_hash != h(&[&own, &ch]) {
                        bad(c, "structure", path, k, format!("subtree root is not bound ({})", ent.v.kind_name()));
                    }
                }
                _ => {}
            }
        }
    }
    let hash = if matches!(sub.kind, Kind::PCount | Kind::PCountSum) {
        h(&[&n.kv_hash, &hashes[0], &hashes[1], &total.count.to_be_bytes()])
    } else {
        h(&[&n.kv_hash, &hashes[0], &hashes[1]])
    };
    Some((hash, heights[0], heights[1], total))
}

fn append_rows(c: &mut Ctx, path: &[B], empty: bool, root: impl FnOnce() -> H) -> Option<H> {
    let p = prefix(path);
    if empty {
        return Some(NULL);
    }
    c.used.insert(p);
    Some(root())
}

fn raw_value(im: &Image, q: &[B]) -> Option<B> {
    let (k, p) = q.split_last()?;
    Some(parse_node(im.data.get(&prefix(p))?.get(k)?)?.value)
}

/// has the target changed since the reference was written
pub fn stale(m: &Model, path: &[B], key: &[u8], e: &Ent, r: &RefP) -> bool {
    match (&e.bound, m.follow(r, path, key)) {
        (Some(b), Ok((t, _))) => !same_bytes(&b.target, t),
        _ => true,
    }
}

/// would both serialise to the same bytes (a tree's bytes include its root
/// key, which depends on the order things happened in)
fn same_bytes(a: &Ent, b: &Ent) -> bool {
    a.fl == b.fl && a.v == b.v && !matches!(a.v, Val::Tree(_))
}

fn contribution(kind: Kind, e: &Ent) -> Ag {
    let mut s = Sub::new(kind);
    s.map.insert(vec![], e.clone());
    let g = s.agg();
    let mut a = Ag { tag: kind_tag(kind), ..Default::default() };
    match kind {
        Kind::Normal => {}
        Kind::Sum | Kind::BigSum => a.sum = g.sum,
        Kind::Count | Kind::PCount => a.count = g.count,
        Kind::CountSum | Kind::PCountSum => {
            a.count = g.count;
            a.sum = g.sum;
        }
    }
    a
}
