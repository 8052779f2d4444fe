//! Paths against plain lists of keys: whatever form a path has, only its keys
//! count.
use std::{
    cmp::Ordering,
    collections::{HashSet, hash_map::DefaultHasher},
    hash::{Hash, Hasher},
};

use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_storage::rocksdb_storage::RocksDbStorage;

use crate::{check::*, comp::*, node::pp, ops::B, paths::*, plan::*, rng::*, sim::Stats};

pub struct PathsM {
    r: Rng,
    left: usize,
    st: Stats,
}

type P = SubtreePath<'static, B>;

fn key(r: &mut Rng) -> B {
    match r.below(16) {
        0..=2 => vec![],
        3..=8 => vec![*r.pick(&[0u8, 1, 8, 255])],
        9..=12 => {
            let n = r.range(2, 9);
            (0..n).map(|_| *r.pick(&[0u8, 1, 8, 255])).collect()
        }
        // what looks like the length that follows a key
        13 => 8usize.to_ne_bytes().to_vec(),
        14 => {
            let n = r.range(10, 40);
            r.bytes(n)
        }
        _ => {
            // longer ones are another finding
            let n = *r.pick(&[127usize, 128, 200, 254, 255]);
            r.bytes(n)
        }
    }
}

fn keys(r: &mut Rng) -> Vec<B> {
    let n = *r.pick(&[0usize, 0, 1, 1, 2, 2, 3, 4, 5, 8]);
    (0..n).map(|_| key(r)).collect()
}

/// another list of keys, often the same bytes cut elsewhere
fn near(r: &mut Rng, p: &[B]) -> Vec<B> {
    let mut q = p.to_vec();
    match r.below(8) {
        0 => return keys(r),
        1 => {
            q.pop();
        }
        2 => q.insert(r.below(q.len() + 1), key(r)),
        3 if !q.is_empty() => {
            let i = r.below(q.len());
            q[i] = key(r);
        }
        4 if q.len() > 1 => {
            let i = r.below(q.len() - 1);
            q.swap(i, i + 1);
        }
        5 if q.len() > 1 => {
            // two keys joined
            let i = r.below(q.len() - 1);
            let k = q.remove(i + 1);
            q[i].extend(k);
        }
        6 if q.len() > 1 => {
            // the bytes moved over a border
            let i = r.below(q.len() - 1);
            if let Some(b) = q[i].pop() {
                q[i + 1].insert(0, b);
            }
        }
        _ => {}
    }
    if q.iter().any(|k| k.len() > 255) { p.to_vec() } else { q }
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn look(what: &str, x: &P, p: &[B]) -> V {
    let e = |f: &str, g: String| viol("path", format!("{f} of {what} {}: {g}", pp(p)));
    if x.to_vec() != p {
        return e("to_vec", pp(&x.to_vec()));
    }
    if x.len() != p.len() {
        return e("len", x.len().to_string());
    }
    if x.is_empty() != p.is_empty() {
        return e("is_empty", x.is_empty().to_string());
    }
    if x.is_root() != p.is_empty() {
        return e("is_root", x.is_root().to_string());
    }
    let mut back: Vec<B> = x.clone().into_reverse_iter().take(p.len() + 2).map(|s| s.to_vec()).collect();
    back.reverse();
    if back != p {
        return e("into_reverse_iter", pp(&back));
    }
    let mut h = DefaultHasher::new();
    p.iter().rev().for_each(|s| s.as_slice().hash(&mut h));
    if hash(x) != h.finish() {
        return e("hash", "differs".into());
    }
    let prefix = |x: P| RocksDbStorage::build_prefix(x).value;
    if prefix(x.clone()) != prefix(SubtreePath::from(slice(p))) {
        return e("storage prefix", "differs".into());
    }
    Ok(())
}

/// the path and all above it
fn climb(what: &str, x: &P, p: &[B]) -> V {
    look(what, x, p)?;
    let mut x = x.clone();
    let mut n = p.len();
    while let Some((up, k)) = x.derive_parent() {
        ensure(n > 0, "path", || format!("{what} {}: a parent of the root", pp(p)))?;
        ensure(k == p[n - 1], "path", || format!("{what} {}: derive_parent took {} off", pp(&p[..n]), crate::node::hx(k)))?;
        n -= 1;
        look(&format!("{} levels above {what}", p.len() - n), &up, &p[..n])?;
        x = up;
    }
    ensure(n == 0, "path", || format!("{what} {}: {} has no parent", pp(p), pp(&p[..n])))
}

fn owned(b: SubtreePathBuilder<'static, B>, p: &[B]) -> V {
    let e = |f: &str, g: String| viol("path", format!("{f} of a builder of {}: {g}", pp(p)));
    if b.to_vec() != p {
        return e("to_vec", pp(&b.to_vec()));
    }
    if b.len() != p.len() {
        return e("len", b.len().to_string());
    }
    if b.is_empty() != p.is_empty() {
        return e("is_empty", b.is_empty().to_string());
    }
    if b.is_root() != p.is_empty() {
        return e("is_root", b.is_root().to_string());
    }
    let mut x = b;
    for n in (0..p.len()).rev() {
        let Some((up, k)) = x.derive_parent_owned() else { return e("derive_parent_owned", format!("none at {n}")) };
        if k != p[n] || up.to_vec() != p[..n] || up.len() != n || up.is_root() != (n == 0) || up.is_empty() != (n == 0) {
            return e("derive_parent_owned", format!("{} and {}", pp(&up.to_vec()), crate::node::hx(&k)));
        }
        x = up;
    }
    ensure(x.derive_parent_owned().is_none(), "path", || format!("builder of {}: a parent of the root", pp(p)))
}

impl PathsM {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let left = r.range(10, 60);
        PathsM { r, left, st: Stats::default() }
    }

    fn one(&mut self, seed: u64, depth: usize) -> V {
        let mut r = Rng::new(seed);
        let p = keys(&mut r);
        climb("a form", &form(&mut r, &p, depth), &p)?;
        owned(builder(&mut r, &p, depth), &p)?;
        // one that changes in place
        let mut b = builder(&mut r, &p, depth);
        let mut q = p.clone();
        for _ in 0..r.below(5) {
            if r.chance(2, 3) {
                let k = key(&mut r);
                b.push_segment(&k);
                q.push(k);
            } else if let Some((up, k)) = b.derive_parent_owned() {
                ensure(q.pop() == Some(k), "path", || format!("derive_parent_owned at {}", pp(&q)))?;
                b = up;
            } else {
                ensure(q.is_empty(), "path", || format!("{} has no parent", pp(&q)))?;
            }
            owned(b.clone(), &q)?;
        }
        let x = SubtreePath::from(slice(&q));
        ensure(b == x && x == b && b == b.clone(), "path", || format!("{} is not equal to itself", pp(&q)))
    }

    fn two(&mut self, seed: u64, depth: usize) -> V {
        let mut r = Rng::new(seed);
        let p = keys(&mut r);
        let q = near(&mut r, &p);
        let s = near(&mut r, &q);
        let all: Vec<(Vec<B>, P)> = [&p, &q, &s, &p].into_iter().map(|p| (p.clone(), form(&mut r, p, depth))).collect();
        let prefix = |x: &P| RocksDbStorage::build_prefix(x.clone()).value;
        // the order of the first forms, to be that of all others
        let plain = |p: &[B], q: &[B]| SubtreePath::from(slice(p)).cmp(&SubtreePath::from(slice(q)));
        for (a, x) in &all {
            for (b, y) in &all {
                let same = a == b;
                let t = || format!("{} and {}", pp(a), pp(b));
                ensure((x == y) == same, "path", || format!("{}: taken as {}equal", t(), if same { "un" } else { "" }))?;
                ensure((prefix(x) == prefix(y)) == same, "path", || format!("storage prefixes of {}", t()))?;
                if same {
                    ensure(hash(x) == hash(y), "path", || format!("hashes of {}", t()))?;
                }
                let o = x.cmp(y);
                ensure((o == Ordering::Equal) == same, "path", || format!("order of {}: {o:?}", t()))?;
                ensure(o == y.cmp(x).reverse(), "path", || format!("order of {} both ways", t()))?;
                ensure(o == plain(a, b), "path", || format!("order of {} depends on their forms", t()))?;
                ensure(a.len() == b.len() || o == b.len().cmp(&a.len()), "path", || format!("order of {}: {o:?}", t()))?;
                for (_, z) in &all {
                    ensure(!(o == Ordering::Less && y < z) || x < z, "path", || format!("order beyond {}", t()))?;
                }
            }
        }
        let set: HashSet<P> = all.iter().map(|x| x.1.clone()).collect();
        let lists: HashSet<&Vec<B>> = all.iter().map(|x| &x.0).collect();
        ensure(set.len() == lists.len(), "path", || "a set of paths".into())?;
        for (a, x) in &all {
            ensure(set.contains(x), "path", || format!("{} is missing from a set", pp(a)))?;
        }
        Ok(())
    }
}

impl Machine for PathsM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let d = self.r.below(5) as u64;
        let s = self.r.next();
        Some(Act::C(if self.r.chance(1, 2) { ca("one", &[s, d]) } else { ca("two", &[s, d]) }))
    }
    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        self.st.checks += 1;
        self.st.writes_ok += 1;
        match a.op.as_str() {
            "one" => self.one(a.get(0), a.get(1) as usize),
            "two" => self.two(a.get(0), a.get(1) as usize),
            _ => Ok(()),
        }
    }
    fn last(&mut self) -> V {
        Ok(())
    }
    fn done(self: Box<Self>) -> Stats {
        self.st
    }
}
