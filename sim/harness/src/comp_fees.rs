//! What an append-only tree reports as cost, in a session that buffers and
//! caches, beside a twin that is saved and reopened after every operation.
use std::cell::RefCell;

use grovedb_bulk_append_tree::BulkAppendTree;
use grovedb_commitment_tree::{CommitmentTree, DashMemo, ciphertext_payload_size};
use grovedb_costs::OperationCost;
use grovedb_dense_fixed_sized_merkle_tree::{DenseFixedSizedMerkleTree, DenseTreeProof};
use grovedb_merkle_mountain_range::{
    MMR, MmrKeySize, MmrNode, MmrStore, MmrTreeProof, hash_count_for_push, leaf_to_pos,
};

use crate::{check::*, comp::*, component::derive, ops::B, plan::*, rng::*, sim::Stats};

type Live = MMR<&'static MmrStore<'static, MemCtx>>;

/// a mountain range and the store below it
struct Range {
    m: Option<Live>,
    store: *mut MmrStore<'static, MemCtx>,
    ctx: *mut MemCtx,
}
impl Range {
    fn new(size: MmrKeySize) -> Self {
        let ctx = Box::into_raw(Box::new(MemCtx::new(false)));
        let store = Box::into_raw(Box::new(MmrStore::with_key_size(unsafe { &*ctx }, size)));
        Range { m: Some(MMR::new(0, unsafe { &*store })), store, ctx }
    }
    fn m(&mut self) -> &mut Live {
        self.m.as_mut().unwrap()
    }
    fn ctx(&self) -> &MemCtx {
        unsafe { &*self.ctx }
    }
    fn save(&mut self) -> Result<OperationCost, String> {
        let c = self.m().commit();
        c.value.map_err(|e| e.to_string())?;
        self.ctx().flush();
        Ok(c.cost)
    }
    fn reopen(&mut self) {
        let size = self.m().mmr_size;
        self.m = Some(MMR::new(size, unsafe { &*self.store }));
    }
}
impl Drop for Range {
    fn drop(&mut self) {
        self.m = None;
        unsafe {
            drop(Box::from_raw(self.store));
            drop(Box::from_raw(self.ctx));
        }
    }
}

enum Tree {
    Range { a: Range, b: Range, owed: OperationCost },
    Dense { a: DenseFixedSizedMerkleTree<MemCtx>, b: DenseFixedSizedMerkleTree<MemCtx>, ca: MemCtx, cb: MemCtx, h: u8 },
    Bulk { a: BulkAppendTree<MemCtx>, b: BulkAppendTree<MemCtx>, ca: MemCtx, cb: MemCtx, h: u8 },
    Commit { a: Notes, b: Notes, ca: MemCtx, cb: MemCtx, h: u8 },
}
type Notes = CommitmentTree<MemCtx, DashMemo>;

/// what an append to a bulk-append tree hashes: the buffer and the state, or
/// a leaf of the chunks and the pairs it completes, and the state
fn bulk_hashes(n: u64, h: u8) -> u32 {
    let (chunk, at) = (n >> h, n & ((1 << h) - 1));
    1 + if at + 1 == 1 << h { 1 + chunk.trailing_ones() } else { 2 * (at as u32 + 1) }
}

pub struct FeesM {
    t: Tree,
    n: u64,
    r: Rng,
    left: usize,
    lens: u64,
    st: Stats,
}

fn err<T>(what: &str, e: impl std::fmt::Debug) -> V<T> {
    viol("fees", format!("{what}: {e:?}"))
}

fn same(what: &str, n: u64, a: &OperationCost, b: &OperationCost) -> V {
    ensure(a == b, "fees", || {
        format!("{what} at {n} values: {a:?} in the running session, {b:?} read back from storage")
    })
}

impl FeesM {
    pub fn new(seed: u64) -> V<Self> {
        let mut r = Rng::new(seed);
        let (ca, cb) = (MemCtx::new(false), MemCtx::new(false));
        let t = match r.below(4) {
            3 => {
                let h = *r.pick(&[1, 2, 3, 4]);
                match (Notes::new(h, ca.clone()), Notes::new(h, cb.clone())) {
                    (Ok(a), Ok(b)) => Tree::Commit { a, b, ca, cb, h },
                    _ => return err("new", h),
                }
            }
            0 => {
                let size = if r.chance(1, 2) { MmrKeySize::U32 } else { MmrKeySize::U64 };
                Tree::Range { a: Range::new(size), b: Range::new(size.clone()), owed: Default::default() }
            }
            1 => {
                let h = *r.pick(&[1, 2, 3, 4, 5]);
                let new = |c: &MemCtx| DenseFixedSizedMerkleTree::new(h, c.clone());
                match (new(&ca), new(&cb)) {
                    (Ok(a), Ok(b)) => Tree::Dense { a, b, ca, cb, h },
                    _ => return err("new", h),
                }
            }
            _ => {
                let h = *r.pick(&[1, 2, 3, 4]);
                let new = |c: &MemCtx| BulkAppendTree::new(h, c.clone());
                match (new(&ca), new(&cb)) {
                    (Ok(a), Ok(b)) => Tree::Bulk { a, b, ca, cb, h },
                    _ => return err("new", h),
                }
            }
        };
        let left = r.range(8, 50);
        let lens = r.below(3) as u64;
        Ok(FeesM { t, n: 0, r, left, lens, st: Stats::default() })
    }

    fn append(&mut self, v: B, fail: Option<u32>) -> V {
        let n = self.n;
        match &mut self.t {
            Tree::Range { a, b, owed } => {
                let e = MmrNode::leaf(v);
                a.ctx().arm(fail);
                let first = a.m().push(e.clone());
                let x = if a.ctx().disarm() {
                    *self.st.faults.entry("store_error".into()).or_default() += 1;
                    ensure(first.value.is_err(), "fees", || "push over a failed read succeeded".into())?;
                    a.m().push(e.clone())
                } else {
                    first
                };
                let y = b.m().push(e);
                let cost = match b.save() {
                    Ok(c) => c,
                    Err(e) => return err("commit", e),
                };
                *owed += cost;
                b.reopen();
                match (x.value, y.value) {
                    (Ok(p), Ok(q)) => ensure(p == q, "fees", || "pushed at two places".into())?,
                    (p, q) => return err("push", (p.is_ok(), q.is_ok())),
                }
                same("appending to a mountain range", n, &x.cost, &y.cost)?;
                // a leaf and every pair it completes
                let mut pairs = 0;
                while n & (1 << pairs) != 0 {
                    pairs += 1;
                }
                ensure(hash_count_for_push(n) == 1 + pairs, "fees", || {
                    format!("{} hashes reported for leaf {n} of a mountain range", hash_count_for_push(n))
                })?;
            }
            Tree::Dense { a, b, ca, cb, h } => {
                ca.arm(fail);
                let first = a.try_insert(&v);
                let x = if ca.disarm() {
                    *self.st.faults.entry("store_error".into()).or_default() += 1;
                    ensure(first.value.is_err(), "fees", || "insertion over a failed call succeeded".into())?;
                    a.try_insert(&v)
                } else {
                    first
                };
                let y = b.try_insert(&v);
                cb.flush();
                *b = match DenseFixedSizedMerkleTree::from_state(*h, b.count(), cb.clone()) {
                    Ok(t) => t,
                    Err(e) => return err("from_state", e),
                };
                same("inserting into a dense tree", n, &x.cost, &y.cost)?;
                match (x.value, y.value) {
                    (Ok(Some(p)), Ok(Some(q))) => {
                        ensure(p == q, "fees", || "two roots".into())?;
                        // every value and every node
                        let want = 2 * (n as u32 + 1);
                        ensure(x.cost.hash_node_calls == want, "fees", || {
                            format!("{} hashes reported for value {n}, {want} made", x.cost.hash_node_calls)
                        })?;
                    }
                    (Ok(None), Ok(None)) => return Ok(()),
                    (p, q) => return err("insert", (p.is_ok(), q.is_ok())),
                }
            }
            Tree::Commit { a, b, ca, cb, h } => {
                let c = crate::comp_commit::cmx(crate::rng::mix(v.len() as u64 ^ n << 8 ^ v.first().copied().unwrap_or(0) as u64));
                let (rho, body): ([u8; 32], _) = (c, derive(n, 3, ciphertext_payload_size::<DashMemo>()));
                ca.arm(fail);
                let first = a.append_raw(c, rho, &body);
                let x = if ca.disarm() {
                    *self.st.faults.entry("store_error".into()).or_default() += 1;
                    ensure(first.value.is_err(), "fees", || "append over a failed call succeeded".into())?;
                    a.append_raw(c, rho, &body)
                } else {
                    first
                };
                let y = b.append_raw(c, rho, &body);
                if let Err(e) = b.save().value.and_then(|_| b.commit_mmr()) {
                    return err("save", e);
                }
                cb.flush();
                *b = match Notes::open(n + 1, *h, cb.clone()).value {
                    Ok(t) => t,
                    Err(e) => return err("open", e),
                };
                same("appending to a commitment tree", n, &x.cost, &y.cost)?;
                // a path to the root and every pair the leaf before completed
                let want = OperationCost {
                    hash_node_calls: bulk_hashes(n, *h),
                    sinsemilla_hash_calls: 32 + n.checked_sub(1).map_or(0, |p| p.trailing_ones()),
                    ..Default::default()
                };
                ensure(x.cost == want, "fees", || format!("note {n} cost {:?}, not {want:?}", x.cost))?;
                match (x.value, y.value) {
                    (Ok(p), Ok(q)) => ensure(
                        p.hash_count == want.hash_node_calls && p.sinsemilla_root == q.sinsemilla_root && p.bulk_state_root == q.bulk_state_root,
                        "fees",
                        || "two states".into(),
                    )?,
                    (p, q) => return err("append", (p.is_ok(), q.is_ok())),
                }
            }
            Tree::Bulk { a, b, ca, cb, h } => {
                ca.arm(fail);
                let first = a.append(&v);
                let x = if ca.disarm() {
                    *self.st.faults.entry("store_error".into()).or_default() += 1;
                    ensure(first.is_err(), "fees", || "append over a failed call succeeded".into())?;
                    a.append(&v)
                } else {
                    first
                };
                let y = b.append(&v);
                if let Err(e) = b.commit_mmr() {
                    return err("commit_mmr", e);
                }
                cb.flush();
                *b = match BulkAppendTree::from_state(b.total_count, *h, cb.clone()) {
                    Ok(t) => t,
                    Err(e) => return err("from_state", e),
                };
                match (x, y) {
                    (Ok(p), Ok(q)) => {
                        ensure(p.hash_count == q.hash_count && p.compacted == q.compacted, "fees", || {
                            format!(
                                "appending value {n}: {} hashes in the running session, {} read back",
                                p.hash_count, q.hash_count
                            )
                        })?;
                        ensure(p.hash_count == bulk_hashes(n, *h), "fees", || {
                            format!("{} hashes reported for value {n}, {} made", p.hash_count, bulk_hashes(n, *h))
                        })?;
                        ensure(p.state_root == q.state_root && p.global_position == q.global_position, "fees", || {
                            "two states".into()
                        })?
                    }
                    (p, q) => return err("append", (p.is_ok(), q.is_ok())),
                }
            }
        }
        self.n += 1;
        self.st.writes_ok += 1;
        Ok(())
    }

    fn reads(&mut self, seed: u64) -> V {
        self.st.checks += 1;
        let n = self.n;
        let mut r = Rng::new(seed);
        let mut idx: Vec<u64> = (0..n).filter(|_| r.chance(1, 3)).collect();
        r.shuffle(&mut idx);
        match &mut self.t {
            Tree::Range { a, b, .. } => {
                let (a, b) = (a.m.as_ref().unwrap(), b.m.as_ref().unwrap());
                let (x, y) = (a.get_root(), b.get_root());
                same("the root of a mountain range", n, &x.cost, &y.cost)?;
                for i in 0..n + 1 {
                    let (x, y) = (
                        a.batch.element_at_position(leaf_to_pos(i)),
                        b.batch.element_at_position(leaf_to_pos(i)),
                    );
                    same(&format!("reading leaf {i} of a mountain range"), n, &x.cost, &y.cost)?;
                }
                if !idx.is_empty() {
                    let pos: Vec<u64> = idx.iter().map(|i| leaf_to_pos(*i)).collect();
                    let (x, y) = (a.gen_proof(pos.clone()), b.gen_proof(pos));
                    same(&format!("proving {idx:?} of a mountain range"), n, &x.cost, &y.cost)?;
                    let (p, q) = (RefCell::new(OperationCost::default()), RefCell::new(OperationCost::default()));
                    let _ = MmrTreeProof::generate(a.mmr_size, &idx, |i| {
                        a.batch.element_at_position(i).unwrap_add_cost(&mut p.borrow_mut())
                    });
                    let _ = MmrTreeProof::generate(b.mmr_size, &idx, |i| {
                        b.batch.element_at_position(i).unwrap_add_cost(&mut q.borrow_mut())
                    });
                    same(&format!("a proof of {idx:?} of a mountain range"), n, &p.borrow(), &q.borrow())?;
                }
            }
            Tree::Dense { a, b, .. } => {
                let (x, y) = (a.root_hash(), b.root_hash());
                same("the root of a dense tree", n, &x.cost, &y.cost)?;
                for i in 0..n + 1 {
                    let (x, y) = (a.get(i as u16), b.get(i as u16));
                    same(&format!("reading value {i} of a dense tree"), n, &x.cost, &y.cost)?;
                }
                if !idx.is_empty() {
                    let pos: Vec<u16> = idx.iter().map(|i| *i as u16).collect();
                    let (x, y) = (DenseTreeProof::generate(a, &pos), DenseTreeProof::generate(b, &pos));
                    same(&format!("proving {idx:?} of a dense tree"), n, &x.cost, &y.cost)?;
                }
            }
            Tree::Bulk { .. } | Tree::Commit { .. } => {}
        }
        self.st.states.insert(mix(n ^ seed << 20));
        Ok(())
    }

    fn save(&mut self) -> V {
        match &mut self.t {
            Tree::Range { a, owed, .. } => match a.save() {
                Ok(c) => {
                    let o = std::mem::take(owed);
                    same("saving a mountain range", self.n, &c, &o)
                }
                Err(e) => err("commit", e),
            },
            Tree::Dense { ca, .. } => {
                ca.flush();
                Ok(())
            }
            Tree::Commit { a, ca, .. } => {
                if let Err(e) = a.save().value.and_then(|_| a.commit_mmr()) {
                    return err("save", e);
                }
                ca.flush();
                Ok(())
            }
            Tree::Bulk { a, ca, .. } => {
                if let Err(e) = a.commit_mmr() {
                    return err("commit_mmr", e);
                }
                ca.flush();
                Ok(())
            }
        }
    }
}

impl Machine for FeesM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let lens = self.lens;
        let r = &mut self.r;
        let f = if r.chance(1, 5) { Some(r.below(6) as u32) } else { None };
        Some(Act::C(match r.below(10) {
            0..7 => {
                let len = match lens {
                    0 => 4,
                    1 => *r.pick(&[0u64, 1, 31, 32, 33, 64, 100, 300]),
                    _ => r.below(40) as u64,
                };
                if r.chance(1, 80) {
                    return Some(Act::C(ca("append", &[r.next(), len, *r.pick(&[20, 70, 140])]).fail(f.map(|f| f * 5))));
                }
                ca("append", &[r.next(), len, *r.pick(&[1, 1, 2, 3, 7])]).fail(f)
            }
            7 => ca("save", &[]),
            _ => ca("reads", &[r.next() >> 20]),
        }))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        match a.op.as_str() {
            "append" => {
                for k in 0..a.get(2).clamp(1, 8) {
                    self.append(derive(a.get(0), 20 + k, a.get(1) as usize), a.fail)?;
                }
                Ok(())
            }
            "save" => self.save(),
            _ => self.reads(a.get(0)),
        }
    }

    fn last(&mut self) -> V {
        self.act(&Act::C(ca("reads", &[9])))?;
        self.save()?;
        self.act(&Act::C(ca("reads", &[10])))
    }

    fn done(mut self: Box<Self>) -> Stats {
        self.st.engine_calls = match &self.t {
            Tree::Range { a, b, .. } => a.ctx().calls() + b.ctx().calls(),
            Tree::Dense { ca, cb, .. } | Tree::Bulk { ca, cb, .. } | Tree::Commit { ca, cb, .. } => ca.calls() + cb.calls(),
        };
        std::mem::take(&mut self.st)
    }
}
