//! A bulk-append tree over a store that fails, crashes and comes back.
use std::collections::BTreeSet;

use grovedb_bulk_append_tree::{
    BulkAppendTree, BulkAppendTreeProof, compute_state_root, deserialize_chunk_blob, serialize_chunk_blob,
};
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::Query;

use crate::{
    check::*, comp::*, comp_dense::*, comp_mmr::*, component::derive, ops::B, plan::*, rng::*, sim::Stats,
};

type H = [u8; 32];

/// a chunk's bytes, from the definition
pub fn blob(vals: &[B]) -> B {
    let same = vals.iter().all(|v| v.len() == vals[0].len());
    let mut out = vec![];
    if same {
        out.push(1);
        out.extend((vals.len() as u32).to_be_bytes());
        out.extend((vals[0].len() as u32).to_be_bytes());
    } else {
        out.push(0);
    }
    for v in vals {
        if !same {
            out.extend((v.len() as u32).to_be_bytes());
        }
        out.extend(v);
    }
    out
}

pub fn bulk_root(vals: &[B], height: u8) -> H {
    let e = 1usize << height;
    let done = vals.len() / e;
    let blobs: Vec<B> = (0..done).map(|c| blob(&vals[c * e..(c + 1) * e])).collect();
    let m = if blobs.is_empty() { [0; 32] } else { Ref::new(&blobs).root() };
    compute_root(&m, &dense_root(&vals[done * e..], height))
}

fn compute_root(m: &H, d: &H) -> H {
    let mut h = blake3::Hasher::new();
    h.update(b"bulk_state");
    h.update(m);
    h.update(d);
    *h.finalize().as_bytes()
}

pub struct BulkM {
    t: BulkAppendTree<MemCtx>,
    ctx: MemCtx,
    height: u8,
    vals: Vec<B>,
    durable: usize,
    seen: Vec<B>,
    r: Rng,
    left: usize,
    lens: u64,
    st: Stats,
}

fn err<T>(what: &str, e: impl std::fmt::Debug) -> V<T> {
    viol("bulk", format!("{what}: {e:?}"))
}

impl BulkM {
    pub fn new(seed: u64) -> V<Self> {
        let mut r = Rng::new(seed);
        let ctx = MemCtx::new(false);
        let height = *r.pick(&[1, 1, 2, 2, 3, 4, 5]);
        for h in [0u8, 17, 255] {
            if BulkAppendTree::new(h, MemCtx::default()).is_ok()
                || BulkAppendTree::from_state(3, h, MemCtx::default()).is_ok()
            {
                return err("height accepted", h);
            }
        }
        let t = match BulkAppendTree::new(height, ctx.clone()) {
            Ok(t) => t,
            Err(e) => return err("new", e),
        };
        let left = r.range(10, 60);
        let lens = r.below(3) as u64;
        Ok(BulkM { t, ctx, height, vals: vec![], durable: 0, seen: vec![], r, left, lens, st: Stats::default() })
    }

    fn epoch(&self) -> usize {
        1 << self.height
    }

    fn check(&mut self) -> V {
        self.st.checks += 1;
        let (n, e) = (self.vals.len(), self.epoch());
        ensure(self.t.total_count as usize == n, "bulk", || format!("count {} after {n}", self.t.total_count))?;
        ensure(self.t.chunk_count() as usize == n / e, "bulk", || "chunk count".into())?;
        ensure(self.t.buffer_count() as usize == n % e, "bulk", || {
            format!("buffer holds {} of {n} values", self.t.buffer_count())
        })?;
        match self.t.compute_current_state_root() {
            Ok(h) => ensure(h == bulk_root(&self.vals, self.height), "bulk", || {
                format!("state root {} of {n} values at height {}", hex(&h), self.height)
            })?,
            Err(e) => return err("state root", e),
        }
        for c in 0..n / e {
            match self.t.get_chunk_value(c as u64) {
                Ok(Some(b)) => {
                    let want = &self.vals[c * e..(c + 1) * e];
                    match deserialize_chunk_blob(&b) {
                        Ok(l) => ensure(l == want, "bulk", || format!("chunk {c} of {n} changed"))?,
                        Err(e) => return err("chunk", e),
                    }
                }
                o => return err(&format!("chunk {c} of {n}"), o),
            }
        }
        ensure(matches!(self.t.get_chunk_value((n / e) as u64), Ok(None)), "bulk", || "a chunk too many".into())?;
        for i in 0..n % e {
            match self.t.get_buffer_value(i as u16) {
                Ok(Some(v)) => ensure(v == self.vals[n / e * e + i], "bulk", || format!("buffered {i} changed"))?,
                o => return err(&format!("buffered {i} of {n}"), o),
            }
        }
        ensure(matches!(self.t.get_buffer_value((n % e) as u16), Ok(None)), "bulk", || "a value too many".into())?;
        self.st
            .states
            .insert(u64::from_be_bytes(bulk_root(&self.vals, self.height)[..8].try_into().unwrap()));
        Ok(())
    }

    fn query(&self, r: &mut Rng) -> (Query, BTreeSet<u64>) {
        let mut q = Query::new();
        let mut sel = BTreeSet::new();
        for _ in 0..r.range(1, 3) {
            let (i, s) = number_item(r, self.vals.len() as u64, 8);
            q.items.push(i);
            sel.extend(s);
        }
        (q, sel)
    }

    fn prove(&mut self, a: &CAct) -> V {
        let n = self.vals.len();
        let mut r = Rng::new(a.get(0));
        let root = bulk_root(&self.vals, self.height);
        let (q, sel) = self.query(&mut r);
        self.ctx.arm(a.fail);
        let p = BulkAppendTreeProof::generate(&q, &self.t);
        let failed = self.ctx.disarm();
        let p = match p {
            Ok(p) => {
                ensure(!failed, "bulk-fault", || "a proof was made over a failed read".into())?;
                p
            }
            Err(_) if failed => return Ok(()),
            Err(e) => return err(&format!("proving {q:?} of {n}"), e),
        };
        self.st.proofs += 1;
        let bytes = match p.encode_to_vec() {
            Ok(b) => b,
            Err(e) => return err("encode", e),
        };
        let p = match BulkAppendTreeProof::decode_from_slice(&bytes) {
            Ok(b) => b,
            Err(e) => return err("decode", e),
        };
        let want: Vec<(u64, B)> = sel.iter().map(|i| (*i, self.vals[*i as usize].clone())).collect();
        match p.verify_against_query::<Vec<_>>(&root, self.height, n as u64, &q) {
            Ok(l) => ensure(l == want, "bulk", || format!("proof of {q:?} of {n} shows {:?}", keys(&l)))?,
            Err(e) => return err(&format!("verifying {q:?} of {n}"), e),
        }
        match p.verify(&root, self.height, n as u64) {
            Ok(res) => {
                if let (Some(lo), Some(hi)) = (sel.first(), sel.last()) {
                    let all = (*lo..=*hi).all(|i| sel.contains(&i));
                    match res.values_in_range(*lo, hi + 1) {
                        Ok(l) if all => ensure(l == want, "bulk", || "values_in_range differs".into())?,
                        Ok(l) => {
                            for (i, v) in l {
                                ensure(self.vals[i as usize] == v, "bulk", || "values_in_range differs".into())?
                            }
                        }
                        Err(e) => return err("values_in_range", e),
                    }
                }
            }
            Err(e) => return err("verify", e),
        }
        // the parts
        let chunks: Vec<u64> = (0..self.t.chunk_count()).filter(|_| r.chance(1, 3)).collect();
        match self.t.query_chunks(&chunks) {
            Ok(c) => {
                for (i, l) in &c.chunks {
                    let e = self.epoch();
                    ensure(l[..] == self.vals[*i as usize * e..(*i as usize + 1) * e], "bulk", || {
                        "query_chunks differs".into()
                    })?;
                }
                ensure(c.chunks.len() == chunks.len(), "bulk", || "query_chunks leaves out".into())?;
                if !chunks.is_empty() {
                    let leaves: Vec<(u64, B)> = chunks
                        .iter()
                        .map(|i| {
                            let e = self.epoch();
                            (*i, blob(&self.vals[*i as usize * e..(*i as usize + 1) * e]))
                        })
                        .collect();
                    let mp = MmrTreeProof::new(self.t.mmr_size(), leaves.clone(), c.mmr_proof_items.clone());
                    match mp.verify(&c.mmr_root) {
                        Ok(l) => ensure(l == leaves, "bulk", || "chunk proof differs".into())?,
                        Err(e) => return err("chunk proof", e),
                    }
                }
            }
            Err(e) => return err("query_chunks", e),
        }
        ensure(self.t.query_chunks(&[self.t.chunk_count()]).is_err(), "bulk", || "a chunk too many".into())?;
        self.forge(&mut r, &root, &p, &bytes, &q, &want)?;
        self.seen.push(bytes);
        Ok(())
    }

    fn judge(&mut self, root: &H, p: &BulkAppendTreeProof, q: &Query, want: &Vec<(u64, B)>, what: &str, strict: bool) -> V {
        let n = self.vals.len() as u64;
        self.st.ev("forgeries");
        if let Ok(mut l) = p.verify_against_query::<Vec<(u64, B)>>(root, self.height, n, q) {
            l.sort();
            ensure(&l == want, "bulk-forged", || {
                format!("{what}: accepted as answer to {q:?} of {n} with {:?} instead of {:?}", keys(&l), keys(want))
            })?;
            ensure(!strict, "bulk-forged", || format!("{what}: accepted"))?;
        }
        if let Ok(res) = p.verify(root, self.height, n) {
            if let Ok(l) = res.values_in_range(0, u64::MAX) {
                for (i, v) in l {
                    ensure(self.vals.get(i as usize) == Some(&v), "bulk-forged", || {
                        format!("{what}: accepted with value {i} of {n} = {}", hex(&v))
                    })?;
                }
            }
        }
        Ok(())
    }

    fn forge(
        &mut self,
        r: &mut Rng,
        root: &H,
        p: &BulkAppendTreeProof,
        bytes: &[u8],
        q: &Query,
        want: &Vec<(u64, B)>,
    ) -> V {
        let c = &p.chunk_proof;
        let (size, leaves, items) = (c.mmr_size(), c.leaves().to_vec(), c.proof_items().to_vec());
        let with = |l: Vec<(u64, B)>, i: Vec<H>| BulkAppendTreeProof {
            chunk_proof: MmrTreeProof::new(size, l, i),
            buffer_proof: p.buffer_proof.clone(),
        };
        if !leaves.is_empty() {
            let k = r.below(leaves.len());
            let mut l = leaves.clone();
            let j = r.below(l[k].1.len());
            l[k].1[j] ^= 1;
            self.judge(root, &with(l, items.clone()), q, want, "a changed chunk", true)?;
            let mut l = leaves.clone();
            l[k].0 = r.below(self.vals.len() / self.epoch() + 1) as u64;
            if l[k].0 != leaves[k].0 {
                self.judge(root, &with(l, items.clone()), q, want, "a moved chunk", false)?;
            }
            let mut l = leaves.clone();
            l.remove(k);
            self.judge(root, &with(l, items.clone()), q, want, "a chunk left out", true)?;
            let mut l = leaves.clone();
            let mut b = l[k].clone();
            b.1 = vec![0];
            l.push(b);
            self.judge(root, &with(l, items.clone()), q, want, "a chunk twice", false)?;
            // a chunk presented as another, with the hashes on its way
            let e = self.epoch();
            let done = self.vals.len() / e;
            let blobs: Vec<B> = (0..done).map(|c| blob(&self.vals[c * e..(c + 1) * e])).collect();
            let rf = Ref::new(&blobs);
            for x in 0..done as u64 {
                let way = rf.beside(x);
                let at = r.below(done) as u64;
                for rot in 0..way.len() {
                    let mut i = way.clone();
                    i.rotate_right(rot);
                    let v = blobs[x as usize].clone();
                    self.judge(root, &with(vec![(at, v.clone())], i.clone()), q, want, "a chunk as another", false)?;
                    let s = rf.start[r.below(rf.start.len())];
                    self.judge(root, &with(vec![(s, v)], i), q, want, "a chunk as another", false)?;
                }
            }
        } else {
            // chunks where there are none
            let f = BulkAppendTreeProof {
                chunk_proof: MmrTreeProof::new(1, vec![(0, blob(&[vec![1], vec![2]]))], vec![]),
                buffer_proof: p.buffer_proof.clone(),
            };
            self.judge(root, &f, q, want, "an invented chunk", true)?;
            let f = with(vec![(0, blob(&[vec![1], vec![2]]))], vec![]);
            self.judge(root, &f, q, want, "an invented chunk in an empty list", false)?;
        }
        let b = &p.buffer_proof;
        if !b.entries.is_empty() {
            let k = r.below(b.entries.len());
            let mut f = p.clone();
            f.buffer_proof.entries[k].1.push(3);
            self.judge(root, &f, q, want, "a changed value", true)?;
            let mut f = p.clone();
            let (pos, v) = f.buffer_proof.entries.remove(k);
            self.judge(root, &f, q, want, "a value left out", false)?;
            f.buffer_proof.node_value_hashes.push((pos, *blake3::hash(&v).as_bytes()));
            self.judge(root, &f, q, want, "a value replaced by its hash", false)?;
        } else {
            let mut f = p.clone();
            f.buffer_proof.entries.push((0, vec![1]));
            self.judge(root, &f, q, want, "an invented value", true)?;
        }
        // parts of an older proof
        if !self.seen.is_empty() {
            let old = self.seen[r.below(self.seen.len())].clone();
            if let Ok(o) = BulkAppendTreeProof::decode_from_slice(&old) {
                self.judge(root, &o, q, want, "an old proof", false)?;
                let f = BulkAppendTreeProof { chunk_proof: o.chunk_proof, buffer_proof: p.buffer_proof.clone() };
                self.judge(root, &f, q, want, "an old chunk proof", false)?;
                let f = BulkAppendTreeProof { chunk_proof: p.chunk_proof.clone(), buffer_proof: o.buffer_proof };
                self.judge(root, &f, q, want, "an old buffer proof", false)?;
            }
            for _ in 0..3 {
                if let Ok(f) = BulkAppendTreeProof::decode_from_slice(&damage(r, bytes, &old)) {
                    self.judge(root, &f, q, want, "damaged bytes", false)?;
                }
            }
        }
        for _ in 0..4 {
            if let Ok(f) = BulkAppendTreeProof::decode_from_slice(&damage(r, bytes, &[])) {
                self.judge(root, &f, q, want, "damaged bytes", false)?;
            }
        }
        // other dimensions must only not crash
        for h in [0u8, 1, 16, 17, 255] {
            let n = *r.pick(&[0, 1, 65535, 65536, u64::MAX, u64::MAX / 2, 1 << 63]);
            let _ = p.verify_and_compute_root(h, n);
            let _ = p.verify_against_query::<Vec<_>>(root, h, n, q);
        }
        // chunks
        let vs: Vec<B> = (0..r.below(5))
            .map(|_| {
                let n = if r.chance(1, 2) { 3 } else { r.below(6) };
                r.bytes(n)
            })
            .collect();
        match serialize_chunk_blob(&vs) {
            Ok(b) => {
                match deserialize_chunk_blob(&b) {
                    Ok(l) => ensure(l == vs, "bulk", || format!("chunk coding of {vs:?} gives {l:?}"))?,
                    Err(e) => return err("chunk coding", e),
                }
                let _ = deserialize_chunk_blob(&damage(r, &b, &[]));
            }
            Err(e) => return err("chunk coding", e),
        }
        Ok(())
    }
}

fn keys(l: &[(u64, B)]) -> Vec<u64> {
    l.iter().map(|x| x.0).collect()
}

impl Machine for BulkM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let e = self.epoch() as u64;
        let r = &mut self.r;
        let f = if r.chance(1, 4) { Some(r.below(8) as u32) } else { None };
        Some(Act::C(match r.below(20) {
            0..11 => {
                let len = match self.lens {
                    0 => 5,
                    1 => r.below(6) as u64,
                    _ => *r.pick(&[0u64, 5, 5, 5, 5, 40]),
                };
                if r.chance(1, 150) {
                    let len = *r.pick(&[255, 256, 65_535, 65_536, 70_000]);
                    return Some(Act::C(ca("append", &[r.next(), len, 1]).fail(f)));
                }
                if r.chance(1, 60) {
                    let n = *r.pick(&[5 * e + 1, 9 * e, 17 * e - 1]);
                    return Some(Act::C(ca("append", &[r.next(), len, n]).fail(f.map(|f| f * 7))));
                }
                ca("append", &[r.next(), len, *r.pick(&[1, 1, 1, 2, 3, e, e + 1, 3 * e])]).fail(f)
            }
            11..13 => ca("save", &[]).fail(f),
            13 => ca("reopen", &[]),
            _ => ca("prove", &[r.next()]).fail(if r.chance(1, 6) { f } else { None }),
        }))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        match a.op.as_str() {
            "append" => {
                for k in 0..a.get(2).clamp(1, 100) {
                    let v = derive(a.get(0), 20 + k, a.get(1) as usize);
                    self.ctx.arm(a.fail);
                    let res = self.t.append(&v);
                    let failed = self.ctx.disarm();
                    match res {
                        Ok(x) => {
                            ensure(!failed, "bulk-fault", || "append over a failed call succeeded".into())?;
                            let n = self.vals.len();
                            self.vals.push(v);
                            self.st.writes_ok += 1;
                            ensure(x.global_position as usize == n, "bulk", || "position".into())?;
                            ensure(x.compacted == ((n + 1) % self.epoch() == 0), "bulk", || "compacted".into())?;
                            let want = bulk_root(&self.vals, self.height);
                            ensure(x.state_root == want, "bulk", || format!("append {n} reports another root"))?;
                        }
                        Err(_) if failed => {
                            *self.st.faults.entry("store_error".into()).or_default() += 1;
                            self.st.writes_refused += 1;
                            break;
                        }
                        Err(e) => return err("append", e),
                    }
                }
            }
            "save" => {
                self.ctx.arm(a.fail);
                let res = self.t.commit_mmr();
                let failed = self.ctx.disarm();
                match res {
                    Ok(()) => {
                        ensure(!failed, "bulk-fault", || "commit over a failed write succeeded".into())?;
                        self.ctx.flush();
                        self.durable = self.vals.len();
                    }
                    Err(_) if failed => {
                        *self.st.faults.entry("store_error".into()).or_default() += 1;
                    }
                    Err(e) => return err("commit_mmr", e),
                }
            }
            "reopen" => {
                *self.st.faults.entry("crash".into()).or_default() += 1;
                self.ctx.crash();
                self.vals.truncate(self.durable);
                self.t = match BulkAppendTree::from_state(self.vals.len() as u64, self.height, self.ctx.clone()) {
                    Ok(t) => t,
                    Err(e) => return err("from_state", e),
                };
            }
            "prove" => self.prove(a)?,
            _ => {}
        }
        self.check()?;
        ensure(compute_state_root(&[1; 32], &[2; 32]) == compute_root(&[1; 32], &[2; 32]), "bulk", || {
            "state root of two hashes".into()
        })
    }

    fn last(&mut self) -> V {
        self.act(&Act::C(ca("save", &[])))?;
        self.act(&Act::C(ca("reopen", &[])))
    }

    fn done(mut self: Box<Self>) -> Stats {
        self.st.engine_calls = self.ctx.calls();
        std::mem::take(&mut self.st)
    }
}
