//! A dense fixed-size tree over a store that fails, crashes and comes back.
use std::collections::{BTreeMap, BTreeSet};

use grovedb_dense_fixed_sized_merkle_tree::{DenseFixedSizedMerkleTree, DenseTreeProof};
use grovedb_query::{Query, QueryItem};

use crate::{check::*, comp::*, comp_mmr::hex, component::derive, ops::B, plan::*, rng::*, sim::Stats};

type H = [u8; 32];

fn b3(parts: &[&[u8]]) -> H {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}

/// from the definition: level order, children 2i+1 and 2i+2, absent: zeros
pub fn dense_root(vals: &[B], height: u8) -> H {
    let cap = (1usize << height) - 1;
    let mut hs = vec![[0u8; 32]; cap.max(vals.len()) * 2 + 3];
    for i in (0..vals.len()).rev() {
        hs[i] = b3(&[&b3(&[&vals[i]]), &hs[2 * i + 1], &hs[2 * i + 2]]);
    }
    if vals.is_empty() { [0; 32] } else { hs[0] }
}

/// any form of query item over numbers of `w` bytes, and which of 0..count it
/// selects
pub fn number_item(r: &mut Rng, count: u64, w: usize) -> (QueryItem, BTreeSet<u64>) {
    let max = if w >= 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let num = |r: &mut Rng| -> u64 {
        match r.below(8) {
            0 => 0,
            1 => count.min(max),
            2 => count.saturating_sub(1).min(max),
            3 => max,
            4 => (count + 1 + r.below(5) as u64).min(max),
            _ => (r.below((count + 1).min(1 << 30) as usize) as u64).min(max),
        }
    };
    let enc = |r: &mut Rng, n: u64| -> B {
        let b = n.to_be_bytes();
        let need = (8 - n.leading_zeros() as usize / 8).clamp(1, w);
        // shorter forms mean the same number
        let len = if r.chance(1, 4) { r.range(need, w) } else { w };
        b[8 - len..].to_vec()
    };
    let (mut a, mut b) = (num(r), num(r));
    if a > b && r.chance(5, 6) {
        std::mem::swap(&mut a, &mut b);
    }
    let (x, y) = (enc(r, a), enc(r, b));
    let all = 0..count;
    let (item, sel): (QueryItem, Vec<u64>) = match r.below(11) {
        0 | 1 => (QueryItem::Key(x), all.filter(|i| *i == a).collect()),
        2 => (QueryItem::Range(x..y), all.filter(|i| *i >= a && *i < b).collect()),
        3 => (QueryItem::RangeInclusive(x..=y), all.filter(|i| *i >= a && *i <= b).collect()),
        4 => (QueryItem::RangeFull(..), all.collect()),
        5 => (QueryItem::RangeFrom(x..), all.filter(|i| *i >= a).collect()),
        6 => (QueryItem::RangeTo(..y), all.filter(|i| *i < b).collect()),
        7 => (QueryItem::RangeToInclusive(..=y), all.filter(|i| *i <= b).collect()),
        8 => (QueryItem::RangeAfter(x..), all.filter(|i| *i > a).collect()),
        9 => (QueryItem::RangeAfterTo(x..y), all.filter(|i| *i > a && *i < b).collect()),
        _ => (QueryItem::RangeAfterToInclusive(x..=y), all.filter(|i| *i > a && *i <= b).collect()),
    };
    (item, sel.into_iter().collect())
}

pub struct DenseM {
    t: DenseFixedSizedMerkleTree<MemCtx>,
    ctx: MemCtx,
    height: u8,
    vals: Vec<B>,
    durable: usize,
    seen: Vec<B>,
    r: Rng,
    left: usize,
    st: Stats,
}

fn err<T>(what: &str, e: impl std::fmt::Debug) -> V<T> {
    viol("dense", format!("{what}: {e:?}"))
}

impl DenseM {
    pub fn new(seed: u64) -> V<Self> {
        let mut r = Rng::new(seed);
        let ctx = MemCtx::new(r.chance(1, 2));
        let height = *r.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 11, 16]);
        for h in [0u8, 17, 255, 32] {
            if DenseFixedSizedMerkleTree::new(h, MemCtx::default()).is_ok() {
                return err("height accepted", h);
            }
        }
        let t = match DenseFixedSizedMerkleTree::new(height, ctx.clone()) {
            Ok(t) => t,
            Err(e) => return err("new", e),
        };
        let left = r.range(10, 80);
        Ok(DenseM { t, ctx, height, vals: vec![], durable: 0, seen: vec![], r, left, st: Stats::default() })
    }

    fn cap(&self) -> usize {
        (1 << self.height) - 1
    }

    fn check(&mut self) -> V {
        self.st.checks += 1;
        ensure(self.t.count() as usize == self.vals.len(), "dense", || {
            format!("count {} after {} values", self.t.count(), self.vals.len())
        })?;
        ensure(self.t.capacity() as usize == self.cap(), "dense", || "capacity".into())?;
        match self.t.root_hash().unwrap() {
            Ok(h) => ensure(h == dense_root(&self.vals, self.height), "dense", || {
                format!("root {} of {} values at height {}", hex(&h), self.vals.len(), self.height)
            })?,
            Err(e) => return err("root", e),
        }
        for (i, v) in self.vals.iter().enumerate() {
            match self.t.get(i as u16).unwrap() {
                Ok(Some(g)) => ensure(&g == v, "dense", || format!("value {i} changed"))?,
                o => return err(&format!("value {i}"), o),
            }
        }
        for i in [self.vals.len(), self.cap()] {
            match self.t.get(i.max(self.vals.len()).min(65535) as u16).unwrap() {
                Ok(None) => {}
                o => return err("a value beyond the last", o),
            }
        }
        self.st.states.insert(mix(self.height as u64 ^ u64::from_be_bytes(
            dense_root(&self.vals, self.height)[..8].try_into().unwrap(),
        )));
        Ok(())
    }

    fn prove(&mut self, a: &CAct) -> V {
        let n = self.vals.len();
        let mut r = Rng::new(a.get(0));
        let root = dense_root(&self.vals, self.height);
        // by query
        let mut q = Query::new();
        let mut sel = BTreeSet::new();
        for _ in 0..r.range(1, 3) {
            let (i, s) = number_item(&mut r, n as u64, 2);
            q.items.push(i);
            sel.extend(s);
        }
        self.ctx.arm(a.fail);
        let p = DenseTreeProof::generate_for_query(&self.t, &q).unwrap();
        let failed = self.ctx.disarm();
        let p = match p {
            Ok(p) => {
                ensure(!failed, "dense-fault", || "a proof was made over a failed read".into())?;
                p
            }
            Err(_) if failed => return Ok(()),
            Err(e) => return err(&format!("proving {q:?} of {n}"), e),
        };
        self.st.proofs += 1;
        let bytes = match p.encode_to_vec() {
            Ok(b) => b,
            Err(e) => return err("encode", e),
        };
        let p = match DenseTreeProof::decode_from_slice(&bytes) {
            Ok(b) => b,
            Err(e) => return err("decode", e),
        };
        let want: Vec<(u16, B)> = sel.iter().map(|i| (*i as u16, self.vals[*i as usize].clone())).collect();
        if n > 0 && !sel.is_empty() {
            match p.verify_for_query::<Vec<_>>(&q, self.height, n as u16) {
                Ok((h, l)) => {
                    ensure(h == root, "dense", || format!("proof of {q:?} of {n}: another root"))?;
                    ensure(l == want, "dense", || format!("proof of {q:?} of {n} shows {:?}", keys(&l)))?
                }
                Err(e) => return err(&format!("verifying {q:?} of {n}"), e),
            }
            match p.verify_against_expected_root::<Vec<_>>(&root, self.height, n as u16) {
                Ok(l) => ensure(l == want, "dense", || "verify_against_expected_root differs".into())?,
                Err(e) => return err("verify_against_expected_root", e),
            }
        } else {
            // nothing to prove; whatever comes of it must not be false
            self.st.ev("proof_of_nothing");
            if let Ok((h, l)) = p.verify_for_query::<Vec<_>>(&q, self.height, n as u16) {
                ensure(h == root && l.is_empty(), "dense", || "proof of nothing shows something".into())?;
            }
        }
        // by positions
        let mut pos: Vec<u16> = (0..n as u16).filter(|_| r.chance(1, 4)).collect();
        r.shuffle(&mut pos);
        if let Some(x) = pos.first().copied() {
            if r.chance(1, 4) {
                pos.push(x);
            }
            match DenseTreeProof::generate(&self.t, &pos).unwrap() {
                Ok(p) => match p.verify_against_expected_root::<BTreeMap<_, _>>(&root, self.height, n as u16) {
                    Ok(l) => {
                        let w: BTreeMap<u16, B> = pos.iter().map(|i| (*i, self.vals[*i as usize].clone())).collect();
                        ensure(l == w, "dense", || "proof of positions shows other values".into())?
                    }
                    Err(e) => return err(&format!("verifying {pos:?} of {n}"), e),
                },
                Err(e) => return err(&format!("proving {pos:?} of {n}"), e),
            }
        }
        ensure(DenseTreeProof::generate(&self.t, &[n as u16]).unwrap().is_err(), "dense", || {
            "a position without a value was proved".into()
        })?;
        if n > 0 {
            self.forge(&mut r, &root, &p, &bytes, &q, &want)?;
        }
        self.seen.push(bytes);
        Ok(())
    }

    fn judge(
        &mut self,
        root: &H,
        p: &DenseTreeProof,
        q: &Query,
        want: &Vec<(u16, B)>,
        what: &str,
        strict: bool,
    ) -> V {
        let n = self.vals.len() as u16;
        self.st.ev("forgeries");
        if let Ok(l) = p.verify_against_expected_root::<Vec<(u16, B)>>(root, self.height, n) {
            for (i, v) in &l {
                ensure(self.vals.get(*i as usize) == Some(v), "dense-forged", || {
                    format!("{what}: accepted with value {i} = {}", hex(v))
                })?;
            }
            ensure(!strict, "dense-forged", || format!("{what}: accepted"))?;
        }
        if let Ok((h, mut l)) = p.verify_for_query::<Vec<(u16, B)>>(q, self.height, n) {
            if h == *root {
                l.sort();
                ensure(&l == want, "dense-forged", || {
                    format!("{what}: accepted as answer to {q:?} with {:?} instead of {:?}", keys(&l), keys(want))
                })?;
            }
        }
        Ok(())
    }

    fn forge(&mut self, r: &mut Rng, root: &H, p: &DenseTreeProof, bytes: &[u8], q: &Query, want: &Vec<(u16, B)>) -> V {
        let n = self.vals.len();
        if !p.entries.is_empty() {
            let k = r.below(p.entries.len());
            let mut f = p.clone();
            f.entries[k].1.push(1);
            self.judge(root, &f, q, want, "a changed value", true)?;
            let mut f = p.clone();
            let to = r.below(n + 2) as u16;
            if !f.entries.iter().any(|e| e.0 == to) {
                f.entries[k].0 = to;
                self.judge(root, &f, q, want, "a moved value", false)?;
            }
            if p.entries.len() > 1 && p.entries[0].1 != p.entries[1].1 {
                let mut f = p.clone();
                let (x, y) = (f.entries[0].0, f.entries[1].0);
                f.entries[0].0 = y;
                f.entries[1].0 = x;
                self.judge(root, &f, q, want, "exchanged values", true)?;
            }
            // left out
            let mut f = p.clone();
            let (pos, v) = f.entries.remove(k);
            self.judge(root, &f, q, want, "a value left out", false)?;
            f.node_value_hashes.push((pos, b3(&[&v])));
            self.judge(root, &f, q, want, "a value replaced by its hash", false)?;
            // a subtree replaced by its hash, with what is below
            let mut f = p.clone();
            let all = self.hashes();
            let top = pos as usize;
            let below = |mut x: usize| {
                while x > top {
                    x = (x - 1) / 2;
                }
                x == top
            };
            f.entries.retain(|e| !below(e.0 as usize));
            f.node_hashes.retain(|e| !below(e.0 as usize));
            f.node_value_hashes.retain(|e| !below(e.0 as usize));
            f.node_hashes.push((pos, all[top]));
            self.judge(root, &f, q, want, "a subtree replaced by its hash", false)?;
            // both a hash and what it covers, changed
            let mut f = p.clone();
            f.entries[k].1 = vec![0xee; 4];
            f.node_hashes.push((pos, all[top]));
            self.judge(root, &f, q, want, "a value covered by its hash", true)?;
            let mut f = p.clone();
            f.entries[k].1 = vec![0xee; 4];
            let up = if top == 0 { 0 } else { (top - 1) / 2 };
            f.node_value_hashes.retain(|e| e.0 as usize != up);
            if !f.entries.iter().any(|e| e.0 as usize == up) {
                f.node_hashes.push((up as u16, all[up]));
                self.judge(root, &f, q, want, "a value covered by a hash above", true)?;
            }
            let mut f = p.clone();
            f.entries[k].1 = vec![0xee; 4];
            f.node_value_hashes.push((pos, b3(&[&v])));
            self.judge(root, &f, q, want, "a value beside its hash", true)?;
            // twice
            let mut f = p.clone();
            let at = r.below(f.entries.len() + 1);
            f.entries.insert(at, (pos, vec![0xee; 4]));
            self.judge(root, &f, q, want, "a value twice", true)?;
            // extra
            let mut f = p.clone();
            let at = r.below(self.cap() + 1) as u16;
            if !f.entries.iter().any(|e| e.0 == at) {
                f.entries.push((at, vec![0xee; 4]));
                self.judge(root, &f, q, want, "an added value", true)?;
            }
        }
        for (k, what) in [(0, "a changed hash"), (1, "a missing hash"), (2, "a moved hash")] {
            let mut f = p.clone();
            let mut done = false;
            if !f.node_hashes.is_empty() {
                let i = r.below(f.node_hashes.len());
                match k {
                    0 => f.node_hashes[i].1[3] ^= 4,
                    1 => {
                        f.node_hashes.remove(i);
                    }
                    _ => f.node_hashes[i].0 = r.below(n + 1) as u16,
                }
                done = true;
            }
            if done {
                self.judge(root, &f, q, want, what, false)?;
            }
            let mut f = p.clone();
            if !f.node_value_hashes.is_empty() {
                let i = r.below(f.node_value_hashes.len());
                match k {
                    0 => f.node_value_hashes[i].1[3] ^= 4,
                    1 => {
                        f.node_value_hashes.remove(i);
                    }
                    _ => f.node_value_hashes[i].0 = r.below(n + 1) as u16,
                }
                self.judge(root, &f, q, want, what, false)?;
            }
        }
        let old = if self.seen.is_empty() { vec![] } else { self.seen[r.below(self.seen.len())].clone() };
        for _ in 0..6 {
            let d = damage(r, bytes, &old);
            if let Ok(f) = DenseTreeProof::decode_from_slice(&d) {
                self.judge(root, &f, q, want, "damaged bytes", false)?;
            }
        }
        if let Ok(f) = DenseTreeProof::decode_from_slice(&old) {
            self.judge(root, &f, q, want, "an old proof", false)?;
        }
        // other dimensions must only not crash
        for h in [0u8, 1, 15, 16, 17, 255] {
            let _ = p.verify_and_get_root::<Vec<_>>(h, r.next() as u16);
        }
        Ok(())
    }

    fn hashes(&self) -> Vec<H> {
        let mut hs = vec![[0u8; 32]; self.vals.len() * 2 + 3];
        for i in (0..self.vals.len()).rev() {
            hs[i] = b3(&[&b3(&[&self.vals[i]]), &hs[2 * i + 1], &hs[2 * i + 2]]);
        }
        hs
    }
}

fn keys(l: &[(u16, B)]) -> Vec<u16> {
    l.iter().map(|x| x.0).collect()
}

impl Machine for DenseM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let cap = self.cap();
        let r = &mut self.r;
        let f = if r.chance(1, 4) { Some(r.below(8) as u32) } else { None };
        Some(Act::C(match r.below(20) {
            0..11 => {
                let n = *r.pick(&[1, 1, 1, 2, 5, cap.min(40)]) as u64;
                if r.chance(1, 150) {
                    let len = *r.pick(&[255, 256, 65_535, 65_536, 70_000]);
                    return Some(Act::C(ca("insert", &[r.next(), len, 1, r.below(2) as u64]).fail(f)));
                }
                if r.chance(1, 100) {
                    let n = *r.pick(&[100, 130, 260]).min(&cap) as u64;
                    return Some(Act::C(ca("insert", &[r.next(), *r.pick(&[5u64, 32]), n, r.below(2) as u64]).fail(f.map(|f| f * 7))));
                }
                ca("insert", &[r.next(), *r.pick(&[0u64, 1, 32, 96, 5, 64, 97]), n, r.below(2) as u64]).fail(f)
            }
            11 => ca("flush", &[]),
            12 => ca("reopen", &[]),
            13 if r.chance(1, 4) => ca("reset", &[]),
            _ => ca("prove", &[r.next()]).fail(if r.chance(1, 6) { f } else { None }),
        }))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        match a.op.as_str() {
            "insert" => {
                for k in 0..a.get(2).clamp(1, 64) {
                    let v = derive(a.get(0), 20 + k, a.get(1) as usize);
                    let full = self.vals.len() == self.cap();
                    self.ctx.arm(a.fail);
                    // the values of the tree are either read or cached
                    let res = if a.get(3) == 0 {
                        self.t.insert(&v).unwrap().map(Some)
                    } else {
                        self.t.try_insert(&v).unwrap()
                    };
                    let failed = self.ctx.disarm();
                    match res {
                        Ok(Some((h, pos))) => {
                            ensure(!failed, "dense-fault", || "insert over a failed call succeeded".into())?;
                            ensure(!full, "dense", || "inserted into a full tree".into())?;
                            ensure(pos as usize == self.vals.len(), "dense", || format!("inserted at {pos}"))?;
                            self.vals.push(v);
                            ensure(h == dense_root(&self.vals, self.height), "dense", || {
                                format!("insert {pos} reports another root")
                            })?;
                            self.st.writes_ok += 1;
                        }
                        Ok(None) => ensure(full && a.get(3) != 0, "dense", || "refused below capacity".into())?,
                        Err(_) if failed => {
                            *self.st.faults.entry("store_error".into()).or_default() += 1;
                            self.st.writes_refused += 1;
                            break;
                        }
                        Err(_) if full && a.get(3) == 0 => {}
                        Err(e) => return err("insert", e),
                    }
                    if full {
                        break;
                    }
                }
            }
            "flush" => {
                self.ctx.flush();
                self.durable = self.vals.len();
            }
            "reopen" => {
                *self.st.faults.entry("crash".into()).or_default() += 1;
                self.ctx.crash();
                self.vals.truncate(self.durable);
                ensure(
                    self.cap() == 65535
                        || DenseFixedSizedMerkleTree::from_state(self.height, self.cap() as u16 + 1, self.ctx.clone())
                            .is_err(),
                    "dense",
                    || "a count beyond the capacity was accepted".into(),
                )?;
                self.t = match DenseFixedSizedMerkleTree::from_state(
                    self.height,
                    self.vals.len() as u16,
                    self.ctx.clone(),
                ) {
                    Ok(t) => t,
                    Err(e) => return err("from_state", e),
                };
            }
            "reset" => {
                self.t.reset();
                self.vals.clear();
                self.durable = 0;
            }
            "prove" => self.prove(a)?,
            _ => {}
        }
        self.check()
    }

    fn last(&mut self) -> V {
        self.act(&Act::C(ca("flush", &[])))?;
        self.act(&Act::C(ca("reopen", &[])))
    }

    fn done(mut self: Box<Self>) -> Stats {
        self.st.engine_calls = self.ctx.calls();
        std::mem::take(&mut self.st)
    }
}
