//! A Merkle mountain range over a store that fails, crashes and comes back.
use grovedb_merkle_mountain_range::{
    MMR, MMRStoreReadOps, MerkleProof, MmrKeySize, MmrNode, MmrStore, MmrTreeProof, leaf_to_pos,
    mmr_size_to_leaf_count,
};

use crate::{check::*, comp::*, component::derive, ops::B, plan::*, rng::*, sim::Stats};

type H = [u8; 32];

fn b3(parts: &[&[u8]]) -> H {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}

/// the hashes above a set of leaves, from the definition
pub struct Ref {
    /// by peak: rows of hashes, leaves first
    pub peaks: Vec<Vec<Vec<H>>>,
    /// first leaf of each peak
    pub start: Vec<u64>,
}

impl Ref {
    pub fn new(vals: &[B]) -> Ref {
        let n = vals.len() as u64;
        let (mut peaks, mut start, mut at) = (vec![], vec![], 0u64);
        for bit in (0..64).rev() {
            if n & (1 << bit) == 0 {
                continue;
            }
            let mut rows =
                vec![vals[at as usize..(at + (1 << bit)) as usize].iter().map(|v| b3(&[&[0], v])).collect::<Vec<H>>()];
            while rows.last().unwrap().len() > 1 {
                let up = rows.last().unwrap().chunks(2).map(|c| b3(&[&[1], &c[0], &c[1]])).collect();
                rows.push(up);
            }
            peaks.push(rows);
            start.push(at);
            at += 1 << bit;
        }
        Ref { peaks, start }
    }
    /// tops, left to right
    pub fn tops(&self) -> Vec<H> {
        self.peaks.iter().map(|p| p.last().unwrap()[0]).collect()
    }
    pub fn root(&self) -> H {
        let mut t = self.tops();
        while t.len() > 1 {
            let r = t.pop().unwrap();
            let l = t.pop().unwrap();
            t.push(b3(&[&[1], &r, &l]));
        }
        t[0]
    }
    /// the hashes beside the way from a leaf to the root, lowest first
    pub fn beside(&self, leaf: u64) -> Vec<H> {
        let p = (0..self.start.len()).rev().find(|i| self.start[*i] <= leaf).unwrap();
        let mut i = (leaf - self.start[p]) as usize;
        let mut out = vec![];
        for row in &self.peaks[p] {
            if row.len() > 1 {
                out.push(row[i ^ 1]);
            }
            i /= 2;
        }
        // above the peak: what is bagged to the right, then the peaks to the left
        let t = self.tops();
        if p + 1 < t.len() {
            let mut x = t[p + 1..].to_vec();
            while x.len() > 1 {
                let r = x.pop().unwrap();
                let l = x.pop().unwrap();
                x.push(b3(&[&[1], &r, &l]));
            }
            out.push(x[0]);
        }
        for l in t[..p].iter().rev() {
            out.push(*l);
        }
        out
    }
}

type Live = MMR<&'static MmrStore<'static, MemCtx>>;

pub struct MmrM {
    mmr: Option<Live>,
    store: *mut MmrStore<'static, MemCtx>,
    ctx: *mut MemCtx,
    vals: Vec<B>,
    durable: usize,
    /// proofs seen
    seen: Vec<B>,
    r: Rng,
    left: usize,
    st: Stats,
}

impl Drop for MmrM {
    fn drop(&mut self) {
        self.mmr = None;
        unsafe {
            drop(Box::from_raw(self.store));
            drop(Box::from_raw(self.ctx));
        }
    }
}

fn err<T>(what: &str, e: impl std::fmt::Debug) -> V<T> {
    viol("mmr", format!("{what}: {e:?}"))
}

impl MmrM {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let ctx = Box::into_raw(Box::new(MemCtx::new(r.chance(1, 2))));
        let size = if r.chance(1, 2) { MmrKeySize::U32 } else { MmrKeySize::U64 };
        let store = Box::into_raw(Box::new(MmrStore::with_key_size(unsafe { &*ctx }, size)));
        let left = r.range(10, 60);
        MmrM {
            mmr: Some(MMR::new(0, unsafe { &*store })),
            store,
            ctx,
            vals: vec![],
            durable: 0,
            seen: vec![],
            r,
            left,
            st: Stats::default(),
        }
    }
    fn ctx(&self) -> &'static MemCtx {
        unsafe { &*self.ctx }
    }
    fn store(&self) -> &'static MmrStore<'static, MemCtx> {
        unsafe { &*self.store }
    }
    fn size(&self) -> u64 {
        let n = self.vals.len() as u64;
        2 * n - n.count_ones() as u64
    }

    fn check(&mut self) -> V {
        self.st.checks += 1;
        let m = self.mmr.as_ref().unwrap();
        ensure(m.mmr_size == self.size(), "mmr", || {
            format!("size {} after {} leaves", m.mmr_size, self.vals.len())
        })?;
        ensure(m.is_empty() == self.vals.is_empty(), "mmr", || "is_empty".into())?;
        ensure(mmr_size_to_leaf_count(m.mmr_size) == self.vals.len() as u64, "mmr", || "leaf count".into())?;
        if self.vals.is_empty() {
            return ensure(m.get_root().unwrap().is_err(), "mmr", || "root of nothing".into());
        }
        match m.get_root().unwrap() {
            Ok(n) => {
                let want = Ref::new(&self.vals).root();
                ensure(n.hash() == want, "mmr", || {
                    format!("root {} of {} leaves, expected {}", hex(&n.hash()), self.vals.len(), hex(&want))
                })?;
            }
            Err(e) => return err("root", e),
        }
        for (i, v) in self.vals.iter().enumerate() {
            match m.batch.element_at_position(leaf_to_pos(i as u64)).unwrap() {
                Ok(Some(n)) => ensure(n.value() == Some(v), "mmr", || format!("leaf {i} changed"))?,
                o => return err(&format!("leaf {i}"), o.map(|x| x.is_some())),
            }
        }
        let mut h = 7u64;
        for v in &self.vals {
            for b in v.iter().take(8) {
                h = mix(h ^ *b as u64);
            }
        }
        self.st.states.insert(h);
        Ok(())
    }

    fn prove(&mut self, a: &CAct) -> V {
        let n = self.vals.len() as u64;
        let mut r = Rng::new(a.get(0));
        let rf = Ref::new(&self.vals);
        let root = rf.root();
        let mut idx: Vec<u64> = (0..n).filter(|_| r.chance(1, 4)).collect();
        if idx.is_empty() {
            idx.push(r.below(n as usize) as u64);
        }
        r.shuffle(&mut idx);
        idx.truncate(12);
        let m = self.mmr.as_ref().unwrap();
        self.ctx().arm(a.fail);
        let p = MmrTreeProof::generate(m.mmr_size, &idx, |pos| m.batch.element_at_position(pos).unwrap());
        let failed = self.ctx().disarm();
        let p = match p {
            Ok(p) => {
                ensure(!failed, "mmr-fault", || "a proof was made over a failed read".into())?;
                p
            }
            Err(_) if failed => {
                self.st.ev("proof_refused_by_fault");
                return Ok(());
            }
            Err(e) => return err(&format!("proving {idx:?} of {n}"), e),
        };
        self.st.proofs += 1;
        let want: Vec<(u64, B)> = idx.iter().map(|i| (*i, self.vals[*i as usize].clone())).collect();
        // over the network
        let bytes = match p.encode_to_vec() {
            Ok(b) => b,
            Err(e) => return err("encode", e),
        };
        let q = match MmrTreeProof::decode_from_slice(&bytes) {
            Ok(q) => q,
            Err(e) => return err("decode", e),
        };
        ensure(q.mmr_size() == m.mmr_size, "mmr", || "size in the proof".into())?;
        match q.verify(&root) {
            Ok(l) => ensure(l == want, "mmr", || format!("proof of {idx:?} of {n} shows other leaves"))?,
            Err(e) => return err(&format!("verifying {idx:?} of {n}"), e),
        }
        match q.verify_and_get_root() {
            Ok((h, l)) => ensure(h == root && l == want, "mmr", || "verify_and_get_root differs".into())?,
            Err(e) => return err("verify_and_get_root", e),
        }
        // the generic form
        let pos: Vec<u64> = idx.iter().map(|i| leaf_to_pos(*i)).collect();
        // asked for twice or for an inner node
        let mut twice = pos.clone();
        for _ in 0..r.below(3) {
            twice.push(*r.pick(&pos));
        }
        if let Some(inner) = (0..m.mmr_size).find(|p| !(0..n).any(|i| leaf_to_pos(i) == *p)) {
            let mut bad = pos.clone();
            bad.insert(r.below(bad.len() + 1), inner);
            ensure(m.gen_proof(bad).unwrap().is_err(), "mmr", || "an inner node was proved".into())?;
        }
        ensure(m.gen_proof(vec![leaf_to_pos(n)]).unwrap().is_err(), "mmr", || "a leaf too many was proved".into())?;
        match m.gen_proof(twice).unwrap() {
            Ok(g) => {
                let leaves: Vec<(u64, MmrNode)> =
                    pos.iter().zip(&want).map(|(p, (_, v))| (*p, MmrNode::leaf(v.clone()))).collect();
                match g.verify(MmrNode::internal(root), leaves) {
                    Ok(true) => {}
                    o => return err(&format!("generic proof of {idx:?} of {n}"), o),
                }
            }
            Err(e) => return err("gen_proof", e),
        }
        self.forge(&mut r, &rf, &root, &q, &bytes)?;
        self.seen.push(bytes);
        Ok(())
    }

    /// is what a client that knows root and size concludes from `p` true?
    fn judge(&mut self, root: &H, p: &MmrTreeProof, what: &str, strict: bool) -> V {
        if p.mmr_size() != self.size() {
            // the client knows the size; verification must still end
            let _ = p.verify(root);
            return Ok(());
        }
        self.st.ev("forgeries");
        match p.verify(root) {
            Err(_) => Ok(()),
            Ok(l) => {
                for (i, v) in &l {
                    if self.vals.get(*i as usize) != Some(v) {
                        return viol(
                            "mmr-forged",
                            format!(
                                "{what}: accepted with leaf {i} = {} where the tree of {} leaves has {}",
                                hex(v),
                                self.vals.len(),
                                self.vals.get(*i as usize).map_or("nothing".into(), |v| hex(v))
                            ),
                        );
                    }
                }
                ensure(!strict, "mmr-forged", || format!("{what}: accepted"))
            }
        }
    }

    fn forge(&mut self, r: &mut Rng, rf: &Ref, root: &H, p: &MmrTreeProof, bytes: &[u8]) -> V {
        let n = self.vals.len() as u64;
        let (size, leaves, items) = (p.mmr_size(), p.leaves().to_vec(), p.proof_items().to_vec());
        let mk = |l: &Vec<(u64, B)>, i: &Vec<H>| MmrTreeProof::new(size, l.clone(), i.clone());
        // a changed leaf
        let mut l = leaves.clone();
        let k = r.below(l.len());
        if l[k].1.is_empty() || r.chance(1, 3) {
            l[k].1.push(7);
        } else {
            let j = r.below(l[k].1.len());
            l[k].1[j] ^= 1;
        }
        self.judge(root, &mk(&l, &items), "a changed leaf", true)?;
        // a moved leaf
        let mut l = leaves.clone();
        let to = r.below(n as usize + 2) as u64;
        if !l.iter().any(|x| x.0 == to) {
            l[k].0 = to;
            self.judge(root, &mk(&l, &items), "a moved leaf", false)?;
        }
        // two leaves exchanged
        if leaves.len() > 1 {
            let mut l = leaves.clone();
            let (x, y) = (l[0].0, l[1].0);
            l[0].0 = y;
            l[1].0 = x;
            self.judge(root, &mk(&l, &items), "two leaves exchanged", false)?;
            let mut l = leaves.clone();
            l.remove(k);
            self.judge(root, &mk(&l, &items), "a leaf left out", true)?;
        }
        // a leaf that is not there
        let mut l = leaves.clone();
        let at = r.below(n as usize + 1) as u64;
        if !l.iter().any(|x| x.0 == at) {
            l.push((at, vec![1, 2, 3]));
            self.judge(root, &mk(&l, &items), "an added leaf", true)?;
        }
        // the same leaf twice, with another value
        let mut l = leaves.clone();
        let mut twice = l[k].clone();
        twice.1.push(9);
        if r.chance(1, 2) {
            l.push(twice);
        } else {
            l.insert(0, twice);
        }
        self.judge(root, &mk(&l, &items), "a leaf twice", false)?;
        // changed, missing, added, exchanged hashes
        if !items.is_empty() {
            let j = r.below(items.len());
            let mut i = items.clone();
            i[j][r.below(32)] ^= 1 << r.below(8);
            self.judge(root, &mk(&leaves, &i), "a changed hash", true)?;
            let mut i = items.clone();
            i.remove(j);
            self.judge(root, &mk(&leaves, &i), "a missing hash", true)?;
            let q = r.below(items.len());
            if items[j] != items[q] {
                let mut i = items.clone();
                i.swap(j, q);
                self.judge(root, &mk(&leaves, &i), "exchanged hashes", true)?;
            }
        }
        let mut i = items.clone();
        let at = r.below(i.len() + 1);
        i.insert(at, *root);
        self.judge(root, &mk(&leaves, &i), "an added hash", true)?;
        // a true leaf, with the hashes on its way, presented at another index
        for _ in 0..4 {
            let x = r.below(n as usize) as u64;
            let way = rf.beside(x);
            let at = r.below(n as usize) as u64;
            let mut i = way.clone();
            if !i.is_empty() {
                let rot = r.below(i.len());
                i.rotate_right(rot);
                if r.chance(1, 4) {
                    i.truncate(r.below(i.len()) + 1);
                }
            }
            let v = self.vals[x as usize].clone();
            self.judge(root, &MmrTreeProof::new(size, vec![(at, v.clone())], i), "a leaf at another index", false)?;
            // all rotations, unchanged length, to the leftmost leaf of each peak
            let s = rf.start[r.below(rf.start.len())];
            for rot in 0..way.len() {
                let mut i = way.clone();
                i.rotate_right(rot);
                let q = MmrTreeProof::new(size, vec![(s, v.clone())], i);
                self.judge(root, &q, "a leaf at another peak", false)?;
            }
        }
        // another size
        let other = MmrTreeProof::new(
            *r.pick(&[0, 1, size - 1, size + 1, size * 2, u64::MAX, u64::MAX / 2, 1 << 63, (1 << 63) - 1]),
            leaves.clone(),
            items.clone(),
        );
        let _ = other.verify(root);
        let _ = other.verify_and_get_root();
        let g = MerkleProof::new(other.mmr_size(), items.iter().map(|h| MmrNode::internal(*h)).collect());
        let bad: Vec<(u64, MmrNode)> =
            leaves.iter().map(|(i, v)| (i.wrapping_mul(r.next() | 1), MmrNode::leaf(v.clone()))).collect();
        let _ = g.verify(MmrNode::internal(*root), bad);
        // bytes
        let old = if self.seen.is_empty() { vec![] } else { self.seen[r.below(self.seen.len())].clone() };
        for _ in 0..6 {
            let d = damage(r, bytes, &old);
            if let Ok(q) = MmrTreeProof::decode_from_slice(&d) {
                self.judge(root, &q, "damaged bytes", false)?;
            }
        }
        if !old.is_empty() {
            if let Ok(q) = MmrTreeProof::decode_from_slice(&old) {
                self.judge(root, &q, "an old proof", false)?;
            }
        }
        // a stored node, damaged
        let node = MmrNode::leaf(self.vals[k.min(self.vals.len() - 1)].clone());
        if let Ok(b) = node.serialize() {
            match MmrNode::deserialize(&b) {
                Ok(x) => ensure(x.hash() == node.hash() && x.value() == node.value(), "mmr", || "node coding".into())?,
                Err(e) => return err("node coding", e),
            }
            ensure(b.len() as u64 == node.serialized_size(), "mmr", || "node size".into())?;
            let d = damage(r, &b, &[]);
            if let Ok(x) = MmrNode::deserialize(&d) {
                if d.first() == Some(&1) {
                    ensure(x.value().is_some_and(|v| b3(&[&[0], v]) == x.hash()), "mmr-forged", || {
                        "a damaged leaf was read".into()
                    })?;
                }
            }
        }
        Ok(())
    }

    fn grow(&mut self, a: &CAct) -> V {
        // the proof of the last k leaves shows the root before them
        let n = self.vals.len();
        if n < 2 {
            return Ok(());
        }
        let k = 1 + (a.get(0) as usize) % (n - 1);
        let m = self.mmr.as_ref().unwrap();
        let pos: Vec<u64> = (n - k..n).map(|i| leaf_to_pos(i as u64)).collect();
        let new: Vec<MmrNode> = self.vals[n - k..].iter().map(|v| MmrNode::leaf(v.clone())).collect();
        let now = MmrNode::internal(Ref::new(&self.vals).root());
        let before = MmrNode::internal(Ref::new(&self.vals[..n - k]).root());
        let p = match m.gen_proof(pos).unwrap() {
            Ok(p) => p,
            Err(e) => return err("gen_proof", e),
        };
        match p.verify_incremental(now.clone(), before.clone(), new.clone()) {
            Ok(true) => {}
            o => return err(&format!("growth from {} to {n} leaves", n - k), o),
        }
        let mut wrong = new.clone();
        wrong[0] = MmrNode::leaf(vec![0xaa; 3]);
        if wrong[0] != new[0] {
            ensure(
                !matches!(p.verify_incremental(now.clone(), before.clone(), wrong), Ok(true)),
                "mmr-forged",
                || "growth by other leaves accepted".into(),
            )?;
        }
        ensure(
            !matches!(p.verify_incremental(now.clone(), MmrNode::internal([3; 32]), new), Ok(true)),
            "mmr-forged",
            || "growth from another root accepted".into(),
        )?;
        // a proof of growth that a peer made up
        let mut r = Rng::new(a.get(0) ^ 77);
        for _ in 0..6 {
            let mut items = p.proof_items().to_vec();
            let (mut size, mut leaves) = (m.mmr_size, self.vals[n - k..].to_vec());
            let mut from = n - k;
            match r.below(6) {
                0 if !items.is_empty() => {
                    items.remove(r.below(items.len()));
                }
                1 => items.insert(r.below(items.len() + 1), if r.chance(1, 2) { now.clone() } else { before.clone() }),
                2 => items = vec![before.clone()],
                3 if items.len() > 1 => {
                    // bagged already
                    let (x, y) = (items.pop().unwrap(), items.pop().unwrap());
                    items.push(MmrNode::merge(&x, &y));
                }
                4 => size = *r.pick(&[1u64, 3, 4, 7, 8, 10, 11, 15, 16]),
                _ => {
                    leaves.remove(r.below(leaves.len()));
                    from = n - k + r.below(2);
                }
            }
            if r.chance(1, 3) {
                leaves.push(vec![0xcc; 2]);
            }
            let told = leaves.clone();
            let prev = MmrNode::internal(Ref::new(&self.vals[..from]).root());
            let g = MerkleProof::new(size, items);
            let inc = leaves.into_iter().map(MmrNode::leaf).collect();
            if let Ok(true) = g.verify_incremental(now.clone(), prev, inc) {
                ensure(self.vals[from..] == told, "mmr-forged", || {
                    format!("growth from {from} to {n} leaves by {} leaves accepted", told.len())
                })?;
            }
        }
        // the root after one more leaf, from the proof of the last
        let last = leaf_to_pos(n as u64 - 1);
        let p = match m.gen_proof(vec![last]).unwrap() {
            Ok(p) => p,
            Err(e) => return err("gen_proof", e),
        };
        let mut v2 = self.vals.clone();
        v2.push(vec![5; 5]);
        let n2 = v2.len() as u64;
        match p.calculate_root_with_new_leaf(
            vec![(last, MmrNode::leaf(self.vals[n - 1].clone()))],
            leaf_to_pos(n as u64),
            MmrNode::leaf(vec![5; 5]),
            2 * n2 - n2.count_ones() as u64,
        ) {
            Ok(h) if h.hash() == Ref::new(&v2).root() => Ok(()),
            o => err(&format!("root after leaf {n}"), o.map(|h| hex(&h.hash()))),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    crate::node::hx(b)
}

impl Machine for MmrM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let f = if r.chance(1, 4) { Some(r.below(6) as u32) } else { None };
        Some(Act::C(match r.below(20) {
            0..9 => {
                let (seed, len) = (r.next(), *r.pick(&[0u64, 1, 31, 32, 33, 64, 65, 100, 7]));
                if r.chance(1, 150) {
                    return Some(Act::C(ca("push", &[seed, *r.pick(&[256, 65_535, 65_536, 70_000]), 1]).fail(f)));
                }
                if r.chance(1, 60) {
                    let n = *r.pick(&[16, 40, 130, 300]);
                    return Some(Act::C(ca("push", &[seed, len, n]).fail(f.map(|f| f * 7))));
                }
                ca("push", &[seed, len, *r.pick(&[1, 1, 1, 2, 3, 5])]).fail(f)
            }
            9..12 => ca("commit", &[]).fail(f),
            12 => ca("overlay", &[]),
            13 => ca("reopen", &[]),
            14 => ca("grow", &[r.next() >> 40]),
            _ => ca("prove", &[r.next()]).fail(if r.chance(1, 6) { f } else { None }),
        }))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        match a.op.as_str() {
            "push" => {
                for k in 0..a.get(2).clamp(1, 8) {
                    let v = derive(a.get(0), 20 + k, a.get(1) as usize);
                    self.ctx().arm(a.fail);
                    let res = self.mmr.as_mut().unwrap().push(MmrNode::leaf(v.clone())).unwrap();
                    let failed = self.ctx().disarm();
                    match res {
                        Ok(pos) => {
                            ensure(!failed, "mmr-fault", || "push over a failed read succeeded".into())?;
                            ensure(pos == leaf_to_pos(self.vals.len() as u64), "mmr", || format!("pushed at {pos}"))?;
                            self.vals.push(v);
                            self.st.writes_ok += 1;
                        }
                        Err(_) if failed => {
                            *self.st.faults.entry("store_error".into()).or_default() += 1;
                            self.st.writes_refused += 1;
                            break;
                        }
                        Err(e) => return err("push", e),
                    }
                }
            }
            "commit" => {
                self.ctx().arm(a.fail);
                let res = self.mmr.as_mut().unwrap().commit().unwrap();
                let failed = self.ctx().disarm();
                match res {
                    Ok(()) => {
                        ensure(!failed, "mmr-fault", || "commit over a failed write succeeded".into())?;
                        self.ctx().flush();
                        self.durable = self.vals.len();
                    }
                    Err(_) if failed => {
                        *self.st.faults.entry("store_error".into()).or_default() += 1;
                    }
                    Err(e) => return err("commit", e),
                }
            }
            "overlay" => {
                let s = self.store();
                let m = self.mmr.as_mut().unwrap();
                let o = m.batch.take_overlay();
                let size = m.mmr_size;
                self.mmr = Some(MMR::new_with_overlay(size, s, o));
            }
            "reopen" => {
                *self.st.faults.entry("crash".into()).or_default() += 1;
                self.ctx().crash();
                self.vals.truncate(self.durable);
                let (s, size) = (self.store(), self.size());
                self.mmr = Some(MMR::new(size, s));
            }
            "grow" => self.grow(a)?,
            "prove" if !self.vals.is_empty() => {
                let s = self.store();
                // what cannot be read is not there
                let _ = (&s).element_at_position(0);
                self.prove(a)?
            }
            _ => {}
        }
        self.check()
    }

    fn last(&mut self) -> V {
        self.act(&Act::C(ca("commit", &[])))?;
        self.act(&Act::C(ca("reopen", &[])))
    }

    fn done(mut self: Box<Self>) -> Stats {
        self.st.engine_calls = self.ctx().calls();
        std::mem::take(&mut self.st)
    }
}
