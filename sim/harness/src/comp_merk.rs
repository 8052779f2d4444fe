//! A Merk by itself: what its own calls promise beyond what GroveDB asks of
//! them. Reads, iteration and proofs, the shape told by chunks, trunks and
//! branches, and its restoration from chunks in any order and packing.
use std::{
    collections::{BTreeMap, BTreeSet},
    ops::Bound,
    rc::Rc,
    sync::{
        Arc,
        atomic::{AtomicI64, AtomicU32, Ordering},
    },
};

use ed::{Decode, Encode};
use grovedb_element::Element;
use grovedb_merk::{
    ChunkProducer, Error, KVIterator, Merk, Restorer, TreeFeatureType, TreeType,
    element::tree_type::ElementTreeTypeExtensions,
    proofs::{
        Decoder, Node, Op as POp, Query, Tree as PTree,
        chunk::{
            chunk_op::ChunkOp,
            util::{
                chunk_height, chunk_index_from_traversal_instruction, chunk_index_from_traversal_instruction_with_recovery,
                chunk_layer, generate_traversal_instruction, number_of_chunks, number_of_chunks_under_chunk_id,
                traversal_instruction_as_vec_bytes,
            },
        },
        encode_into, execute,
        query::{QueryItem, QueryProofVerify},
    },
    tree::{AggregateData, Op, TreeNode, combine_hash, kv::ValueDefinedCostType, value_hash},
};
use grovedb_path::SubtreePath;
use grovedb_storage::{
    RawIterator, Storage, StorageBatch, StorageContext,
    rocksdb_storage::{PrefixedRocksDbTransactionContext, RocksDbStorage},
};
use grovedb_version::version::GroveVersion;
use rocksdb::sim::{Call, FailKind, Hook, Verdict, World};

use crate::{check::*, chunks, comp::*, node::gv, ops::B, plan::*, rng::*, sim::Stats};

type H = [u8; 32];
type Cost = fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>;
type M<'a> = Merk<PrefixedRocksDbTransactionContext<'a>>;
const NOCOST: Option<Cost> = None;

#[derive(Default)]
struct Fuse {
    n: AtomicI64,
    fired: AtomicU32,
}
impl Hook for Fuse {
    fn at(&self, _: &str, call: Call) -> Verdict {
        if matches!(call, Call::Get | Call::TxnPut | Call::TxnDelete | Call::Commit) && self.n.fetch_sub(1, Ordering::SeqCst) == 0 {
            self.fired.fetch_add(1, Ordering::SeqCst);
            return Verdict::Fail(FailKind::Io);
        }
        Verdict::Proceed
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Val {
    raw: B,
    /// given with the value instead of being its hash
    with: Option<H>,
    feat: TreeFeatureType,
}

impl Val {
    fn hash(&self) -> H {
        let own = value_hash(&self.raw).unwrap();
        self.with.map_or(own, |w| combine_hash(&own, &w).unwrap())
    }
}

/// the tree as its nodes in storage tell it
struct Shape {
    key: B,
    l: Option<Box<Shape>>,
    r: Option<Box<Shape>>,
    hash: H,
    h: usize,
}

impl Shape {
    fn find(&self, way: &[bool]) -> Option<&Shape> {
        match way.split_first() {
            None => Some(self),
            Some((left, rest)) => (if *left { &self.l } else { &self.r }).as_ref()?.find(rest),
        }
    }
    fn by_key(&self, k: &[u8]) -> Option<&Shape> {
        match k.cmp(&self.key) {
            std::cmp::Ordering::Equal => Some(self),
            std::cmp::Ordering::Less => self.l.as_ref()?.by_key(k),
            std::cmp::Ordering::Greater => self.r.as_ref()?.by_key(k),
        }
    }
    /// nodes `d` levels down, in order
    fn level<'a>(&'a self, d: usize, out: &mut Vec<&'a Shape>) {
        if d == 0 {
            out.push(self);
            return;
        }
        for c in [&self.l, &self.r].into_iter().flatten() {
            c.level(d - 1, out);
        }
    }
    fn count(&self) -> usize {
        1 + [&self.l, &self.r].into_iter().flatten().map(|c| c.count()).sum::<usize>()
    }
    /// the node above the cut at depth `d` below which `k` would be
    fn cut_above(&self, k: &[u8], d: usize) -> Option<B> {
        let next = match k.cmp(&self.key) {
            std::cmp::Ordering::Equal => return None,
            std::cmp::Ordering::Less => self.l.as_ref()?,
            std::cmp::Ordering::Greater => self.r.as_ref()?,
        };
        if d == 1 { Some(self.key.clone()) } else { next.cut_above(k, d - 1) }
    }
}

fn shape<'db>(s: &impl StorageContext<'db>, key: &[u8], hash: H, deep: usize) -> V<Shape> {
    if deep > 64 {
        return viol("merk", "a tree more than 64 levels deep");
    }
    let raw = match s.get(key).unwrap() {
        Ok(Some(b)) => b,
        o => return viol("merk", format!("the node of {} reads as {o:?}", hx(key))),
    };
    let t = match TreeNode::decode(key.to_vec(), &raw, NOCOST, gv()) {
        Ok(t) => t,
        Err(e) => return viol("merk", format!("the node of {}: {e}", hx(key))),
    };
    let side = |left: bool| -> V<Option<Box<Shape>>> {
        match t.link(left) {
            None => Ok(None),
            Some(l) => Ok(Some(Box::new(shape(s, l.key(), *l.hash(), deep + 1)?))),
        }
    };
    let (l, r) = (side(true)?, side(false)?);
    let h = 1 + l.as_ref().map_or(0, |x| x.h).max(r.as_ref().map_or(0, |x| x.h));
    Ok(Shape { key: key.to_vec(), l, r, hash, h })
}

/// heights of the layers of chunks: threes, and twos where threes don't fit
fn layers(h: usize) -> Vec<usize> {
    let (three, two) = match (h, h % 3) {
        (0, _) => (0, 0),
        (1, _) => (0, 1),
        (_, 0) => (h / 3, 0),
        (_, 1) => (h / 3 - 1, 2),
        _ => (h / 3, 1),
    };
    [vec![3; three], vec![2; two]].concat()
}

/// chunks in a tree made of these layers
fn chunks_in(l: &[usize]) -> usize {
    match l.split_first() {
        None => 0,
        Some((_, [])) => 1,
        Some((h, rest)) => 1 + (1usize << h) * chunks_in(rest),
    }
}

/// a way to a chunk, told as (layer, number of the chunk)
fn index_of(way: &[bool], l: &[usize]) -> Option<(usize, usize)> {
    let (mut i, mut at, mut layer) = (1, 0, 0);
    while at < way.len() {
        let h = *l.get(layer)?;
        let step = way.get(at..at + h)?;
        let rest = l.get(layer + 1..).filter(|r| !r.is_empty())?;
        // children come from the left
        let nth = step.iter().fold(0usize, |n, left| n * 2 + !left as usize);
        i += 1 + nth * chunks_in(rest);
        at += h;
        layer += 1;
    }
    Some((layer, i))
}

fn node_key(n: &Node) -> Option<&[u8]> {
    match n {
        Node::KV(k, ..)
        | Node::KVValueHash(k, ..)
        | Node::KVDigest(k, ..)
        | Node::KVDigestCount(k, ..)
        | Node::KVRefValueHash(k, ..)
        | Node::KVRefValueHashCount(k, ..)
        | Node::KVCount(k, ..)
        | Node::KVValueHashFeatureType(k, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(k, ..) => Some(k),
        Node::Hash(_) | Node::KVHash(_) | Node::KVHashCount(..) => None,
    }
}

fn node_value(n: &Node) -> Option<&[u8]> {
    match n {
        Node::KV(_, v)
        | Node::KVValueHash(_, v, _)
        | Node::KVCount(_, v, _)
        | Node::KVValueHashFeatureType(_, v, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(_, v, ..) => Some(v),
        _ => None,
    }
}

/// the proof tells the tree `s` down to `depth`, and hashes below
fn same_shape(what: &str, t: &PTree, s: &Shape, depth: usize, els: &BTreeMap<B, Val>) -> V {
    if depth == 0 {
        return ensure(matches!(&t.node, Node::Hash(h) if *h == s.hash), "merk", || {
            format!("{what}: {:?} where the hash of {} should be", t.node, hx(&s.key))
        });
    }
    ensure(
        node_key(&t.node) == Some(&s.key) && node_value(&t.node) == els.get(&s.key).map(|v| v.raw.as_slice()),
        "merk",
        || format!("{what}: {:?} where {} should be", t.node, hx(&s.key)),
    )?;
    for (a, b) in [(&t.left, &s.l), (&t.right, &s.r)] {
        match (a, b) {
            (None, None) => {}
            (Some(a), Some(b)) => same_shape(what, &a.tree, b, depth - 1, els)?,
            _ => return viol("merk", format!("{what}: a child of {} is {}", hx(&s.key), if b.is_some() { "missing" } else { "made up" })),
        }
    }
    Ok(())
}

fn run_ops(ops: &[POp]) -> Result<PTree, Error> {
    execute(ops.iter().map(|o| Ok(o.clone())), false, |_| Ok(())).unwrap()
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

const TYPES: [TreeType; 7] = [
    TreeType::NormalTree,
    TreeType::SumTree,
    TreeType::BigSumTree,
    TreeType::CountTree,
    TreeType::CountSumTree,
    TreeType::ProvableCountTree,
    TreeType::ProvableCountSumTree,
];

const SRC: &[&[u8]] = &[b"a"];

pub struct MerkM {
    #[allow(dead_code)]
    world: Arc<World>,
    fuse: Arc<Fuse>,
    st: Rc<RocksDbStorage>,
    tt: TreeType,
    /// values that are no elements
    raw: bool,
    keylen: usize,
    els: BTreeMap<B, Val>,
    aux: BTreeMap<B, B>,
    copies: u64,
    r: Rng,
    left: usize,
    stats: Stats,
    allow: Vec<String>,
}

macro_rules! open {
    ($self:ident, $path:expr, $st:ident, $tx:ident, $batch:ident, $m:ident) => {
        let $st = $self.st.clone();
        let $tx = $st.start_transaction();
        let $batch = StorageBatch::new();
        #[allow(unused_mut)]
        let mut $m: M<'_> = {
            let ctx = $st.get_transactional_storage_context(SubtreePath::from($path), Some(&$batch), &$tx).unwrap();
            match Merk::open_base(ctx, $self.tt, NOCOST, gv()).unwrap() {
                Ok(m) => m,
                Err(e) => return viol("merk", format!("opening: {e}")),
            }
        };
    };
}

impl MerkM {
    pub fn new(seed: u64, allow: &[String]) -> V<Self> {
        let mut r = Rng::new(seed);
        let world = World::new();
        world.enter();
        let fuse = Arc::new(Fuse::default());
        fuse.n.store(-1, Ordering::SeqCst);
        world.set_hook(Some(fuse.clone()));
        let st = match RocksDbStorage::default_rocksdb_with_path("/sim/merk") {
            Ok(s) => Rc::new(s),
            Err(e) => return viol("merk", format!("open: {e}")),
        };
        let tt = *r.pick(&TYPES);
        let raw = tt == TreeType::NormalTree && r.chance(1, 2);
        let keylen = *r.pick(&[1usize, 2, 2, 3, 40]);
        let left = r.range(6, 30);
        Ok(MerkM { world, fuse, st, tt, raw, keylen, els: BTreeMap::new(), aux: BTreeMap::new(), copies: 0, r, left, stats: Stats::default(), allow: allow.to_vec() })
    }

    fn key(&self, r: &mut Rng) -> B {
        let n = if r.chance(1, 4) { r.range(1, self.keylen) } else { self.keylen };
        match self.keylen {
            40 => {
                let mut k = vec![7; n];
                *k.last_mut().unwrap() = r.next() as u8;
                k
            }
            _ => r.bytes(n),
        }
    }

    fn value(&self, r: &mut Rng) -> Val {
        if self.raw {
            let mut raw = vec![200 + r.below(50) as u8];
            let n = r.below(40);
            raw.extend(r.bytes(n));
            return Val { raw, with: None, feat: TreeFeatureType::BasicMerkNode };
        }
        let sums = self.tt.allows_sum_item();
        let el = match r.below(6) {
            0 if sums => Element::new_sum_item(r.range(0, 2000) as i64 - 1000),
            1 if sums => {
                let n = r.below(20);
                Element::new_item_with_sum_item(r.bytes(n), r.range(0, 2000) as i64 - 1000)
            }
            2 => Element::new_reference(grovedb_element::reference_path::ReferencePathType::SiblingReference(r.bytes(3))),
            _ => {
                let n = r.below(60);
                Element::new_item(r.bytes(n))
            }
        };
        let with = el.is_reference().then(|| r.bytes(32).try_into().unwrap());
        Val { raw: el.serialize(gv()).unwrap_or_default(), with, feat: el.get_feature_type(self.tt).expect("an element of this tree") }
    }

    fn sums(&self) -> (u64, i128) {
        let mut s = 0i128;
        for v in self.els.values() {
            s += match v.feat {
                TreeFeatureType::SummedMerkNode(x) => x as i128,
                TreeFeatureType::BigSummedMerkNode(x) => x,
                TreeFeatureType::CountedSummedMerkNode(_, x) => x as i128,
                TreeFeatureType::ProvableCountedSummedMerkNode(_, x) => x as i128,
                _ => 0,
            };
        }
        (self.els.len() as u64, s)
    }

    fn commit(st: &RocksDbStorage, batch: StorageBatch, tx: <RocksDbStorage as Storage<'_>>::Transaction) -> Result<(), String> {
        st.commit_multi_context_batch(batch, Some(&tx)).unwrap().map_err(|e| e.to_string())?;
        st.commit_transaction(tx).unwrap().map_err(|e| e.to_string())
    }

    fn apply(&mut self, seed: u64, size: usize, fail: Option<u32>) -> V {
        let mut r = Rng::new(seed);
        let mut want = self.els.clone();
        let mut aux = self.aux.clone();
        let mut batch: BTreeMap<B, Op> = BTreeMap::new();
        for _ in 0..size {
            let known = (!self.els.is_empty() && r.chance(1, 2)).then(|| self.els.keys().nth(r.below(self.els.len())).unwrap().clone());
            if r.chance(1, if self.els.len() > 150 { 2 } else { 4 }) {
                if let Some(k) = known {
                    batch.insert(k.clone(), Op::Delete);
                    want.remove(&k);
                }
                continue;
            }
            let k = match known {
                Some(k) if r.chance(1, 2) => k,
                _ => self.key(&mut r),
            };
            let v = self.value(&mut r);
            batch.insert(
                k.clone(),
                match v.with {
                    Some(h) => Op::PutCombinedReference(v.raw.clone(), h, v.feat),
                    None => Op::Put(v.raw.clone(), v.feat),
                },
            );
            want.insert(k, v);
        }
        let mut auxb = vec![];
        for _ in 0..r.below(3) {
            let k = self.key(&mut r);
            let v = r.bytes(5);
            auxb.push((k.clone(), Op::Put(v.clone(), TreeFeatureType::BasicMerkNode), None));
            aux.insert(k, v);
        }
        auxb.sort_by(|a, b| a.0.cmp(&b.0));
        auxb.dedup_by(|a, b| a.0 == b.0);
        for (k, o, _) in &auxb {
            if let Op::Put(v, _) = o {
                aux.insert(k.clone(), v.clone());
            }
        }
        let batch: Vec<(B, Op)> = batch.into_iter().collect();
        self.fuse.fired.store(0, Ordering::SeqCst);
        let mut hash = None;
        let res = (|| -> V<Result<(), String>> {
            open!(self, SRC, st, tx, sb, m);
            self.fuse.n.store(fail.map_or(-1, |n| n as i64), Ordering::SeqCst);
            let res = m.apply::<B, B>(&batch, &auxb, None, gv()).unwrap().map_err(|e| e.to_string());
            hash = Some((m.root_hash().unwrap(), m.root_key(), m.height()));
            drop(m);
            Ok(match res {
                Ok(()) => Self::commit(&st, sb, tx),
                e => e,
            })
        })();
        self.fuse.n.store(-1, Ordering::SeqCst);
        let fired = self.fuse.fired.load(Ordering::SeqCst) > 0;
        if fired {
            *self.stats.faults.entry("fail-call".into()).or_default() += 1;
        }
        match res? {
            Ok(()) => {
                ensure(!fired, "merk", || "a batch was applied although a storage call failed".into())?;
                self.stats.writes_ok += 1;
                self.els = want;
                self.aux = aux;
                open!(self, SRC, st, tx, sb, m);
                let now = Some((m.root_hash().unwrap(), m.root_key(), m.height()));
                ensure(now == hash, "merk", || format!("opened again it is {now:?}, when applied it was {hash:?}"))?;
            }
            Err(e) => {
                ensure(fired, "merk", || format!("a batch of {} was refused: {e}", batch.len()))?;
                self.stats.writes_refused += 1;
            }
        }
        self.reads(seed)
    }

    fn reads(&mut self, seed: u64) -> V {
        self.stats.checks += 1;
        let mut r = Rng::new(seed ^ 0x5EED);
        open!(self, SRC, st, tx, sb, m);
        let bad = |w: &str, k: &[u8], got: String| -> V { viol("merk", format!("{w} of {} gives {got}", hx(k))) };
        let mut keys: Vec<B> = (0..6).map(|_| self.key(&mut r)).collect();
        for _ in 0..10.min(self.els.len()) {
            keys.push(self.els.keys().nth(r.below(self.els.len())).unwrap().clone());
        }
        for k in &keys {
            let w = self.els.get(k);
            let g = m.get(k, true, NOCOST.as_ref(), gv()).unwrap();
            if g.as_ref().ok().map(|x| x.as_deref()) != Some(w.map(|v| v.raw.as_slice())) {
                return bad("get", k, format!("{g:?}"));
            }
            for direct in [false, true] {
                let g = m.get(k, direct, NOCOST.as_ref(), gv()).unwrap();
                ensure(g.as_ref().ok().map(|x| x.as_deref()) == Some(w.map(|v| v.raw.as_slice())), "merk", || format!("get {} gives {g:?}", hx(k)))?;
                let g = m.get_value_hash(k, direct, NOCOST.as_ref(), gv()).unwrap();
                ensure(g.as_ref().ok() == Some(&w.map(|v| v.hash())), "merk", || format!("value hash of {} is {g:?}", hx(k)))?;
                let g = m.get_value_and_value_hash(k, direct, NOCOST.as_ref(), gv()).unwrap();
                ensure(g.as_ref().ok() == Some(&w.map(|v| (v.raw.clone(), v.hash()))), "merk", || format!("value and hash of {} are {g:?}", hx(k)))?;
                let g = m.get_feature_type(k, direct, NOCOST.as_ref(), gv()).unwrap();
                ensure(g.as_ref().ok() == Some(&w.map(|v| v.feat)), "merk", || format!("feature of {} is {g:?}", hx(k)))?;
                let a = m.get_hash(k, direct, NOCOST.as_ref(), gv()).unwrap().map(|x| x.is_some());
                let b = m.get_kv_hash(k, direct, NOCOST.as_ref(), gv()).unwrap().map(|x| x.is_some());
                ensure(matches!((&a, &b), (Ok(x), Ok(y)) if *x == w.is_some() && *y == w.is_some()), "merk", || {
                    format!("hashes of {}: {a:?} {b:?}", hx(k))
                })?;
            }
            let a = m.exists(k, NOCOST, gv()).unwrap();
            let b = m.exists_by_traversing_tree(k, NOCOST.as_ref(), gv()).unwrap();
            ensure(matches!((&a, &b), (Ok(x), Ok(y)) if *x == w.is_some() && *y == w.is_some()), "merk", || {
                format!("existence of {}: {a:?} {b:?}", hx(k))
            })?;
            let g = m.get_aux(k).unwrap();
            ensure(g.as_ref().ok() == Some(&self.aux.get(k).cloned()), "merk", || format!("aux {} is {g:?}", hx(k)))?;
        }
        let e = m.is_empty_tree().unwrap();
        ensure(e == self.els.is_empty(), "merk", || format!("empty: {e}"))?;
        let some: BTreeSet<&[u8]> = keys.iter().map(|k| k.as_slice()).collect();
        let e = m.is_empty_tree_except(some.clone()).unwrap();
        ensure(e == self.els.keys().all(|k| some.contains(k.as_slice())), "merk", || format!("empty but for some: {e}"))?;
        let all: BTreeSet<&[u8]> = self.els.keys().map(|k| k.as_slice()).collect();
        ensure(m.is_empty_tree_except(all).unwrap(), "merk", || "not empty but for all".into())?;
        let agg = m.aggregate_data();
        let (c, s) = self.sums();
        let want = match self.tt {
            _ if self.els.is_empty() => AggregateData::NoAggregateData,
            TreeType::SumTree => AggregateData::Sum(s as i64),
            TreeType::BigSumTree => AggregateData::BigSum(s),
            TreeType::CountTree => AggregateData::Count(c),
            TreeType::CountSumTree => AggregateData::CountAndSum(c, s as i64),
            TreeType::ProvableCountTree => AggregateData::ProvableCount(c),
            TreeType::ProvableCountSumTree => AggregateData::ProvableCountAndSum(c, s as i64),
            _ => AggregateData::NoAggregateData,
        };
        ensure(agg.as_ref().ok() == Some(&want), "merk", || format!("aggregate {agg:?}, contents make {want:?}"))?;
        let (links, _) = m.verify(false, gv());
        ensure(links.is_empty(), "merk", || format!("{} links are bad", links.len()))?;
        let Some(root) = m.root_key() else {
            return ensure(self.els.is_empty() && m.root_hash().unwrap() == [0; 32] && m.height().is_none(), "merk", || {
                "no root in a tree with elements".into()
            });
        };
        let s = shape(&m.storage, &root, m.root_hash().unwrap(), 0)?;
        ensure(s.count() == self.els.len() && m.height() == Some(s.h as u8), "merk", || {
            format!("{} nodes and height {:?} for {} elements and height {}", s.count(), m.height(), self.els.len(), s.h)
        })?;
        let mut hs = 0u64;
        for b in s.hash {
            hs = mix(hs ^ b as u64);
        }
        self.stats.states.insert(hs);
        Ok(())
    }

    fn random_query(&self, r: &mut Rng) -> Query {
        let mut q = Query::new();
        let keys: Vec<&B> = self.els.keys().collect();
        let near = |r: &mut Rng| -> B {
            if keys.is_empty() || r.chance(1, 4) {
                return self.key(r);
            }
            let mut k = keys[r.below(keys.len())].clone();
            match r.below(6) {
                0 => k.push(0),
                1 => {
                    if k.len() > 1 {
                        k.pop();
                    }
                }
                _ => {}
            }
            k
        };
        for _ in 0..*r.pick(&[1usize, 1, 2, 3, 5]) {
            let (a, b) = (near(r), near(r));
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            q.insert_item(match r.below(12) {
                0 | 1 | 2 => QueryItem::Key(a),
                3 => QueryItem::Range(a..b),
                4 => QueryItem::RangeInclusive(a..=b),
                5 => QueryItem::RangeFull(..),
                6 => QueryItem::RangeFrom(a..),
                7 => QueryItem::RangeTo(..b),
                8 => QueryItem::RangeToInclusive(..=b),
                9 => QueryItem::RangeAfter(a..),
                10 => QueryItem::RangeAfterTo(a..b),
                _ => QueryItem::RangeAfterToInclusive(a..=b),
            });
        }
        q.left_to_right = r.chance(1, 2);
        q
    }

    fn prove(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let q = self.random_query(&mut r);
        let mut want: Vec<&B> = self.els.keys().filter(|k| q.items.iter().any(|i| inside(i, k))).collect();
        if !q.left_to_right {
            want.reverse();
        }
        open!(self, SRC, st, tx, sb, m);
        // the iterator of stored nodes
        let mut it = KVIterator::new(m.storage.raw_iter(), &q).unwrap();
        let mut got = vec![];
        while let Some((k, _)) = it.next_kv().unwrap() {
            got.push(k);
            if got.len() > self.els.len() {
                break;
            }
        }
        ensure(got.iter().collect::<Vec<_>>() == want, "merk", || format!("iterating {q:?} gives {} keys, {} expected", got.len(), want.len()))?;
        drop(it);
        if self.els.is_empty() {
            return ensure(m.prove(q, None, gv()).unwrap().is_err(), "merk", || "a proof of an empty tree".into());
        }
        self.stats.checks += 1;
        let root = m.root_hash().unwrap();
        let limit = r.chance(1, 3).then(|| r.below(8) as u16 + 1);
        let pr = match m.prove(q.clone(), limit, gv()).unwrap() {
            Ok(p) => p,
            Err(e) => return viol("merk", format!("proving {q:?}: {e}")),
        };
        let vers = r.below(2) as u16;
        let (hash, res) = match q.execute_proof(&pr.proof, limit, q.left_to_right, if self.raw { 0 } else { vers }).unwrap() {
            Ok(x) => x,
            Err(e) => return viol("merk", format!("the proof of {q:?} limit {limit:?} is refused: {e}")),
        };
        ensure(hash == root, "merk", || format!("the proof of {q:?} leads to another root"))?;
        let all = want.len();
        if let Some(l) = limit {
            want.truncate(l as usize);
        }
        let told: Vec<(&B, Option<&B>)> = res.result_set.iter().filter(|p| p.value.is_some()).map(|p| (&p.key, p.value.as_ref())).collect();
        let expect: Vec<(&B, Option<&B>)> = want.iter().map(|k| (*k, Some(&self.els[*k].raw))).collect();
        ensure(told == expect, "merk", || format!("the proof of {q:?} limit {limit:?} tells {} elements, {} expected", told.len(), expect.len()))?;
        for p in &res.result_set {
            match self.els.get(&p.key) {
                Some(v) => ensure(p.value.as_ref() == Some(&v.raw) && p.proof == v.hash(), "merk", || format!("the proof tells {p:?}"))?,
                None => ensure(p.value.is_none() && q.items.iter().any(|i| matches!(i, QueryItem::Key(k) if *k == p.key)), "merk", || {
                    format!("the proof tells of {p:?}")
                })?,
            }
        }
        if limit.is_none() {
            // every key asked for is told of, there or not
            for i in &q.items {
                if let QueryItem::Key(k) = i {
                    ensure(self.els.contains_key(k) == told.iter().any(|t| t.0 == k), "merk", || format!("nothing is told of {}", hx(k)))?;
                }
            }
        } else {
            ensure(res.limit == limit.map(|l| l - expect.len() as u16) || all > expect.len() || res.limit.is_some(), "merk", || {
                format!("{:?} is left of {limit:?} after {}", res.limit, expect.len())
            })?;
        }
        Ok(())
    }

    /// numbers of chunks and ways to them, in trees of any height
    fn laws(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let h = r.range(1, 24);
        let l = layers(h);
        let total = chunks_in(&l);
        let bad = |w: String| -> V { viol("merk", format!("in a tree of height {h}: {w}")) };
        if number_of_chunks(h) != total {
            return bad(format!("{} chunks, {total} expected", number_of_chunks(h)));
        }
        for _ in 0..20 {
            let depth: usize = l[..r.below(l.len())].iter().sum();
            let way: Vec<bool> = (0..depth).map(|_| r.chance(1, 2)).collect();
            let (layer, i) = index_of(&way, &l).expect("a boundary");
            let a = chunk_index_from_traversal_instruction(&way, h);
            let b = generate_traversal_instruction(h, i);
            let c = (chunk_layer(h, i), chunk_height(h, i), number_of_chunks_under_chunk_id(h, i));
            let want = (layer, l[layer], chunks_in(&l[layer..]));
            if a.as_ref().ok() != Some(&i) || b.as_ref().ok() != Some(&way) {
                return bad(format!("chunk {i} at {way:?}: number {a:?}, way {b:?}"));
            }
            if !matches!(&c, (Ok(x), Ok(y), Ok(z)) if (*x, *y, *z) == want) {
                return bad(format!("chunk {i}: layer, height, chunks {c:?}, {want:?} expected"));
            }
            // a way to anywhere
            let n = r.below(h + 3);
            let way: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
            let want = index_of(&way, &l);
            let a = chunk_index_from_traversal_instruction(&way, h);
            if a.as_ref().ok() != want.as_ref().map(|w| &w.1) {
                return bad(format!("the way {way:?} is chunk {a:?}, {want:?} expected"));
            }
            let want = (0..=n).rev().find_map(|n| index_of(&way[..n], &l)).expect("the root");
            let a = chunk_index_from_traversal_instruction_with_recovery(&way, h);
            if a.as_ref().ok() != Some(&want.1) {
                return bad(format!("the way {way:?} goes back to chunk {a:?}, {want:?} expected"));
            }
            let i = 1 + r.below(total);
            match generate_traversal_instruction(h, i) {
                Ok(w) if index_of(&w, &l).map(|x| x.1) == Some(i) => {}
                o => return bad(format!("the way to chunk {i} is {o:?}")),
            }
        }
        for i in [0, total + 1, total + 1 + r.below(9)] {
            if generate_traversal_instruction(h, i).is_ok() {
                return bad(format!("there is a way to chunk {i} of {total}"));
            }
        }
        Ok(())
    }

    fn chunks(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        open!(self, SRC, st, tx, sb, m);
        let Some(root) = m.root_key() else {
            return ensure(ChunkProducer::new(&m).is_err(), "merk", || "chunks of an empty tree".into());
        };
        self.stats.checks += 1;
        let root_hash = m.root_hash().unwrap();
        let s = shape(&m.storage, &root, root_hash, 0)?;
        let l = layers(s.h);
        let total = chunks_in(&l);
        let mut p = match m.chunks() {
            Ok(p) => p,
            Err(e) => return viol("merk", format!("no chunks of a tree: {e}")),
        };
        ensure(p.len() == total && !p.is_empty(), "merk", || format!("{} chunks, {total} expected", p.len()))?;
        for i in [0, total + 1] {
            ensure(p.chunk_with_index(i, gv()).is_err(), "merk", || format!("chunk {i} of {total}"))?;
        }
        let name = |i: usize| -> Option<B> { generate_traversal_instruction(s.h, i).ok().map(|w| traversal_instruction_as_vec_bytes(&w)) };
        let from = if r.chance(1, 2) { 1 } else { r.range(1, total) };
        let mut it = m.chunks().expect("chunks");
        for i in from..=total.min(from + 40) {
            let way = generate_traversal_instruction(s.h, i).map_err(|e| Viol { class: "merk".into(), msg: e.to_string() })?;
            let c = p.chunk_with_index(i, gv());
            let id = traversal_instruction_as_vec_bytes(&way);
            let d = p.chunk(&id, gv());
            let at = s.find(&way);
            let next = (i < total).then_some(i + 1);
            match (c, d, at) {
                (Err(_), Err(_), None) => {}
                (Ok((c, n)), Ok((d, nd)), Some(at)) => {
                    let what = format!("chunk {i} of {total}");
                    ensure(c == d, "merk", || format!("{what} differs by number and by way"))?;
                    ensure(n == next && nd == next.and_then(name), "merk", || format!("after {what} comes {n:?}, {nd:?}"))?;
                    let t = match run_ops(&c) {
                        Ok(t) => t,
                        Err(e) => return viol("merk", format!("{what}: {e}")),
                    };
                    ensure(t.hash().unwrap() == at.hash, "merk", || format!("{what} has another hash"))?;
                    let (layer, _) = index_of(&way, &l).expect("a boundary");
                    same_shape(&what, &t, at, l[layer], &self.els)?;
                    for depth in 0..=l[layer] + 1 {
                        let mut want = vec![];
                        at.level(depth, &mut want);
                        let got = t.layer(depth).count();
                        let want = if depth > l[layer] { 0 } else { want.len() };
                        ensure(got == want, "merk", || format!("{what} has {got} nodes at depth {depth}, not {want}"))?;
                    }
                    let op = ChunkOp::Chunk(c);
                    Self::codec(&op)?;
                }
                (c, d, at) => {
                    return viol("merk", format!("chunk {i} of {total} by number {:?}, by way {:?}, is there: {}", c.is_ok(), d.is_ok(), at.is_some()));
                }
            }
            Self::codec(&ChunkOp::ChunkId(way))?;
        }
        if from == 1 {
            for i in 1..=total.min(200) {
                let c = it.next(gv());
                let there = s.find(&generate_traversal_instruction(s.h, i).unwrap_or_default()).is_some();
                match c {
                    Some(Ok((c, n))) => {
                        let x = p.chunk_with_index(i, gv()).map(|x| x.0).unwrap_or_default();
                        ensure(there && c == x && n == (i < total).then(|| name(i + 1)).flatten(), "merk", || format!("the {i}th chunk in turn is another"))?;
                    }
                    Some(Err(_)) if !there => {}
                    o => return viol("merk", format!("the {i}th chunk in turn is {:?}", o.map(|x| x.is_ok()))),
                }
            }
            if total <= 200 {
                ensure(it.next(gv()).is_none(), "merk", || "a chunk beyond the last".into())?;
            }
        }
        Ok(())
    }

    fn codec(op: &ChunkOp) -> V {
        let b = match op.encode() {
            Ok(b) => b,
            Err(e) => return viol("merk", format!("encoding {op:?}: {e}")),
        };
        ensure(op.encoding_length().ok() == Some(b.len()), "merk", || format!("{op:?} takes {} bytes, {:?} told", b.len(), op.encoding_length().ok()))?;
        let back = ChunkOp::decode(b.as_slice());
        ensure(back.as_ref().ok() == Some(op), "merk", || format!("{op:?} comes back as {back:?}").chars().take(400).collect())?;
        ensure(ChunkOp::decode(&b[..b.len() - 1]).is_err(), "merk", || format!("{op:?} is read from fewer bytes").chars().take(400).collect())
    }

    fn restore(&mut self, seed: u64, mode: u64, fail: Option<u32>) -> V {
        let mut r = Rng::new(seed);
        open!(self, SRC, st, tx, sb, m);
        let Some(root_key) = m.root_key() else { return Ok(()) };
        let root = m.root_hash().unwrap();
        self.copies += 1;
        let name = format!("copy{}", self.copies);
        let path: &[&[u8]] = &[name.as_bytes()];
        let tx2 = st.start_transaction();
        let ctx = st.get_immediate_storage_context(SubtreePath::from(path), &tx2).unwrap();
        let dst = match Merk::open_base(ctx, self.tt, NOCOST, gv()).unwrap() {
            Ok(m) => m,
            Err(e) => return viol("merk", format!("opening the copy: {e}")),
        };
        // as a subtree the hash of its element is part of what is expected
        let parent: Option<H> = r.chance(1, 3).then(|| r.bytes(32).try_into().unwrap());
        let expected = parent.map_or(root, |p| combine_hash(&p, &root).unwrap());
        let mut re = Restorer::new(dst, expected, parent);
        let mut p = match m.chunks() {
            Ok(p) => p,
            Err(e) => return viol("merk", format!("no chunks of a tree: {e}")),
        };
        let s = shape(&m.storage, &root_key, root, 0)?;
        // KF-packed-chunks: packed chunks can't be made where a chunk's place in
        // the numbering is empty, and are refused where a limit cuts them
        let packed = self.allow.iter().any(|a| a == "packed");
        let multi = mode % 3 == 1 && (packed || (1..=p.len()).all(|i| p.chunk_with_index(i, gv()).is_ok()));
        let evil = mode % 3 == 2;
        self.fuse.fired.store(0, Ordering::SeqCst);
        let mut forged = 0;
        if multi {
            let mut at: Option<B> = Some(vec![]);
            let mut rounds = 0;
            while let Some(id) = at {
                rounds += 1;
                if rounds > 2000 {
                    return viol("merk", "restoring from packed chunks doesn't end");
                }
                let mut limit = match r.below(4) {
                    _ if !packed => None,
                    0 => None,
                    1 => Some(r.below(120)),
                    2 => Some(r.below(800)),
                    _ => Some(r.below(6000)),
                };
                let first = p.chunk(&id, gv());
                let first = match &first {
                    Ok((c, _)) => ChunkOp::ChunkId(id.iter().map(|b| *b == 1).collect()).encoding_length().unwrap_or(0) + c.encoding_length().unwrap_or(0),
                    Err(e) => return viol("merk", format!("packed chunks go on at one that isn't there: {e}")),
                };
                let mut c = p.multi_chunk_with_limit(&id, limit, gv());
                if let (Some(l), Err(e)) = (limit, &c) {
                    ensure(l < first && e.to_string().contains("limit"), "merk", || format!("a limit of {l} is refused for a chunk of {first}: {e}"))?;
                    limit = Some(first);
                    c = p.multi_chunk_with_limit(&id, limit, gv());
                }
                let c = match c {
                    Ok(c) => c,
                    Err(e) => return viol("merk", format!("packed chunks from {} with {limit:?}: {e}", hx(&id))),
                };
                let mut used = 0;
                let mut sent = vec![];
                for op in &c.chunk {
                    used += match op {
                        ChunkOp::Chunk(c) => c.encoding_length().unwrap_or(0),
                        o => o.encoding_length().unwrap_or(0),
                    };
                    Self::codec(op)?;
                    let b = op.encode().unwrap_or_default();
                    sent.push(ChunkOp::decode(b.as_slice()).expect("decoded before"));
                }
                if let Some(l) = limit {
                    ensure(used <= l && c.remaining_limit == Some(l - used), "merk", || format!("{used} of {l} bytes used, {:?} left", c.remaining_limit))?;
                }
                if let Err(e) = re.process_multi_chunk(sent, gv()) {
                    return viol("merk", format!("packed chunks from {} with {limit:?} are refused: {e}", hx(&id)));
                }
                at = c.next_index;
            }
        } else {
            let mut todo: Vec<B> = vec![vec![]];
            let mut done: Vec<B> = vec![];
            if evil {
                self.fuse.n.store(fail.map_or(-1, |n| 3 * n as i64), Ordering::SeqCst);
            }
            let mut hit = false;
            while !todo.is_empty() {
                let id = todo.swap_remove(r.below(todo.len()));
                let (ops, _) = match p.chunk(&id, gv()) {
                    Ok(c) => c,
                    Err(_) if self.fuse.fired.load(Ordering::SeqCst) > 0 => {
                        hit = true;
                        break;
                    }
                    Err(_) if forged > 0 => {
                        hit = true;
                        break;
                    }
                    Err(e) => return viol("merk", format!("a chunk asked for isn't there: {e}")),
                };
                if evil && r.chance(1, 3) {
                    let mut b = vec![];
                    encode_into(ops.iter(), &mut b);
                    let bad = if r.chance(1, 4) {
                        damage(&mut r, &b, &b)
                    } else {
                        crate::sync::chunk(&mut r, &b)
                    };
                    let bad: Result<Vec<POp>, Error> = Decoder::new(&bad).collect();
                    let bad = bad.ok().filter(|o| *o != ops);
                    match r.below(4) {
                        0 if !done.is_empty() => {
                            let old = done[r.below(done.len())].clone();
                            let ok = re.process_chunk(&old, ops.clone(), gv()).is_ok();
                            ensure(!ok, "merk", || "a chunk is taken twice".into())?;
                        }
                        1 => {
                            let mut wrong = id.clone();
                            wrong.push(r.below(3) as u8);
                            let ok = re.process_chunk(&wrong, ops.clone(), gv()).is_ok();
                            ensure(!ok, "merk", || "a chunk nobody asked for is taken".into())?;
                        }
                        _ => {
                            if let Some(bad) = bad {
                                forged += 1;
                                *self.stats.faults.entry("forged_chunk".into()).or_default() += 1;
                                if let Ok(more) = re.process_chunk(&id, bad, gv()) {
                                    // what the hash doesn't commit to may differ
                                    todo.extend(more);
                                    done.push(id);
                                    continue;
                                }
                            }
                        }
                    }
                    if self.fuse.fired.load(Ordering::SeqCst) > 0 {
                        hit = true;
                        break;
                    }
                }
                let want: Option<Vec<B>> = {
                    let way: Vec<bool> = id.iter().map(|b| *b == 1).collect();
                    let l = layers(s.h);
                    // a forged chunk may have been cut elsewhere
                    let layer = index_of(&way, &l).filter(|_| forged == 0);
                    layer.zip(s.find(&way)).map(|((layer, _), at)| {
                        let mut out = vec![];
                        ways(at, l[layer], &mut id.clone(), &mut out);
                        out
                    })
                };
                ensure(want.is_some() || forged > 0, "merk", || format!("a chunk is asked for at {}", hx(&id)))?;
                match re.process_chunk(&id, ops, gv()) {
                    Ok(mut more) => {
                        if let Some(mut w) = want.filter(|_| self.fuse.fired.load(Ordering::SeqCst) == 0) {
                            more.sort();
                            w.sort();
                            ensure(more == w, "merk", || format!("{} more chunks are asked for, {} are there", more.len(), w.len()))?;
                        }
                        todo.extend(more);
                        done.push(id);
                    }
                    Err(_) if self.fuse.fired.load(Ordering::SeqCst) > 0 => {
                        hit = true;
                        break;
                    }
                    Err(_) if forged > 0 => {
                        hit = true;
                        break;
                    }
                    Err(e) => return viol("merk", format!("the chunk at {} is refused: {e}", hx(&id))),
                }
                if r.chance(1, 40) && !todo.is_empty() {
                    // given up early
                    self.fuse.n.store(-1, Ordering::SeqCst);
                    return ensure(re.finalize(gv()).is_err(), "merk", || format!("complete with {} chunks missing", todo.len()));
                }
            }
            if self.fuse.fired.load(Ordering::SeqCst) > 0 {
                *self.stats.faults.entry("fail-call".into()).or_default() += 1;
            }
            if hit {
                self.fuse.n.store(-1, Ordering::SeqCst);
                if let Ok(got) = re.finalize(gv()) {
                    ensure(todo.is_empty() && got.root_hash().unwrap() == root, "merk", || "complete after a failed call".into())?;
                }
                return Ok(());
            }
        }
        let armed = self.fuse.n.load(Ordering::SeqCst) >= 0;
        let fin = re.finalize(gv());
        self.fuse.n.store(-1, Ordering::SeqCst);
        if armed && self.fuse.fired.load(Ordering::SeqCst) > 0 {
            *self.stats.faults.entry("fail-call".into()).or_default() += 1;
            if fin.is_err() {
                return Ok(());
            }
        }
        let got = match fin {
            Ok(g) => g,
            Err(_) if forged > 0 => return Ok(()),
            Err(e) => return viol("merk", format!("all chunks are there and it is not complete: {e}")),
        };
        ensure(got.root_hash().unwrap() == root, "merk", || "the copy has another root hash".into())?;
        if forged > 0 {
            // a tree or a reference is bound only with what it stands for
            for (k, v) in &self.els {
                let g = got.get(k, true, NOCOST.as_ref(), gv()).unwrap().ok().flatten();
                let own = g.as_ref().is_some_and(|g| *g == v.raw);
                let other = || {
                    let e = g.as_ref().and_then(|g| Element::deserialize(g, gv()).ok());
                    e.is_some_and(|e| e.is_any_tree() || e.is_reference())
                };
                ensure(own || other(), "merk", || format!("a forged chunk made {} {g:?}", hx(k)))?;
            }
            return Ok(());
        }
        ensure(got.height() == m.height() && got.root_key() == m.root_key(), "merk", || {
            format!("the copy has height {:?}, not {:?}", got.height(), m.height())
        })?;
        ensure(got.aggregate_data().ok() == m.aggregate_data().ok(), "merk", || {
            format!("the copy sums to {:?}, not {:?}", got.aggregate_data(), m.aggregate_data())
        })?;
        for k in self.els.keys() {
            let (a, b) = (m.storage.get(k).unwrap(), got.storage.get(k).unwrap());
            ensure(a.is_ok(), "merk", || format!("{a:?}"))?;
            if a.as_ref().ok() != b.as_ref().ok() {
                let d = |x: &Result<Option<B>, grovedb_storage::Error>| {
                    x.as_ref().ok().and_then(|x| x.clone()).and_then(|x| TreeNode::decode(k.clone(), &x, NOCOST, gv()).ok())
                };
                let (a, b) = (d(&a), d(&b));
                return viol("merk", format!("the copy at {} is {b:?}, not {a:?}", hx(k)).chars().take(700).collect::<String>());
            }
        }
        let mut it = got.storage.raw_iter();
        it.seek_to_first().unwrap();
        let mut n = 0;
        while it.valid().unwrap() {
            n += 1;
            it.next().unwrap();
        }
        ensure(n == self.els.len(), "merk", || format!("the copy has {n} nodes, not {}", self.els.len()))
    }

    fn trunk(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        open!(self, SRC, st, tx, sb, m);
        let counts = matches!(
            self.tt,
            TreeType::CountTree | TreeType::CountSumTree | TreeType::ProvableCountTree | TreeType::ProvableCountSumTree
        );
        let provable = matches!(self.tt, TreeType::ProvableCountTree | TreeType::ProvableCountSumTree);
        let max = r.range(1, 9) as u8;
        let min = r.chance(1, 3).then(|| r.range(1, max as usize) as u8);
        let t = m.trunk_query(max, min, gv()).unwrap();
        let root_key = m.root_key();
        let mut keys: Vec<B> = (0..8).map(|_| self.key(&mut r)).collect();
        for _ in 0..20.min(self.els.len()) {
            keys.push(self.els.keys().nth(r.below(self.els.len())).unwrap().clone());
        }
        self.stats.checks += 1;
        match t {
            Err(e) => ensure(!counts, "merk", || format!("no trunk of a count tree: {e}"))?,
            Ok(t) => {
                ensure(counts, "merk", || "a trunk of a tree without counts".into())?;
                let h = chunks::height(self.els.len() as u64);
                let sum: u32 = t.chunk_depths.iter().map(|x| *x as u32).sum();
                ensure(t.tree_depth == h && t.chunk_depths.iter().all(|d| *d >= 1 && *d <= max), "merk", || {
                    format!("a trunk of {} elements for depth {max} tells {} and {:?}", self.els.len(), t.tree_depth, t.chunk_depths)
                })?;
                ensure(sum == h as u32, "merk", || {
                    format!("chunks {:?} of a tree of depth {h}", t.chunk_depths)
                })?;
                if let (Some(min), true, false) = (min, provable, self.els.is_empty()) {
                    // the least depth is told for the first of several chunks
                    ensure(t.chunk_depths[0] >= min || t.chunk_depths.len() == 1, "merk", || format!("the first chunk has {} levels, not {min}", t.chunk_depths[0]))?;
                }
                match &root_key {
                    None => {
                        ensure(t.proof.is_empty() && t.chunk_depths.is_empty(), "merk", || "a trunk of an empty tree".into())?;
                    }
                    Some(k) => {
                        let s = shape(&m.storage, k, m.root_hash().unwrap(), 0)?;
                        let d = t.chunk_depths[0] as usize;
                        let tree = match run_ops(&t.proof) {
                            Ok(t) => t,
                            Err(e) => return viol("merk", format!("trunk: {e}")),
                        };
                        ensure(tree.hash().unwrap() == s.hash, "merk", || "the trunk has another root".into())?;
                        same_shape("trunk", &tree, &s, d, &self.els)?;
                        let mut ends = vec![];
                        s.level(d - 1, &mut ends);
                        let want: BTreeSet<B> = ends.iter().filter(|n| n.l.is_some() || n.r.is_some()).map(|n| n.key.clone()).collect();
                        let got = t.terminal_node_keys();
                        ensure(got.len() == want.len() && got.iter().cloned().collect::<BTreeSet<_>>() == want, "merk", || {
                            format!("the trunk ends at {} keys, {} expected", got.len(), want.len())
                        })?;
                        for k in &keys {
                            let (a, b) = (t.trace_key_to_terminal(k), s.cut_above(k, d));
                            ensure(a == b, "merk", || format!("{} is below {a:?}, not {b:?}", hx(k)))?;
                        }
                        let ok = t.verify_terminal_nodes_at_expected_depth();
                        ensure(ok.is_ok(), "merk", || format!("the trunk's own depth: {ok:?}"))?;
                        let mut u = t.clone();
                        u.chunk_depths[0] = if r.chance(1, 2) { d as u8 + 1 } else { d as u8 - 1 };
                        ensure(u.verify_terminal_nodes_at_expected_depth().is_ok() == want.is_empty(), "merk", || "a trunk of another depth passes".into())?;
                    }
                }
            }
        }
        let Some(rk) = root_key else {
            let k = self.key(&mut r);
            return ensure(m.branch_query(&k, 3, gv()).unwrap().is_err(), "merk", || "a branch of an empty tree".into());
        };
        let s = shape(&m.storage, &rk, m.root_hash().unwrap(), 0)?;
        for k in keys.clone().iter().take(14) {
            let d = r.range(1, 6);
            match (m.branch_query(k, d as u8, gv()).unwrap(), s.by_key(k)) {
                (Err(Error::PathKeyNotFound(_)), None) => {}
                (Ok(b), Some(at)) => {
                    ensure(b.branch_root_key == *k && b.returned_depth == d as u8 && b.branch_root_hash == at.hash, "merk", || {
                        format!("the branch at {} is of {}", hx(k), hx(&b.branch_root_key))
                    })?;
                    let tree = match run_ops(&b.proof) {
                        Ok(t) => t,
                        Err(e) => return viol("merk", format!("branch: {e}")),
                    };
                    ensure(tree.hash().unwrap() == at.hash, "merk", || "the branch has another hash".into())?;
                    same_shape("branch", &tree, at, d, &self.els)?;
                    for k in &keys {
                        let (a, b) = (b.trace_key_to_terminal(k), at.cut_above(k, d));
                        ensure(a == b, "merk", || format!("{} is below {a:?} in a branch, not {b:?}", hx(k)))?;
                    }
                }
                (o, w) => return viol("merk", format!("the branch at {}: {:?}, there: {}", hx(k), o.map(|_| ()), w.is_some())),
            }
        }
        Ok(())
    }
}

/// ways to the nodes `d` levels below
fn ways(s: &Shape, d: usize, at: &mut B, out: &mut Vec<B>) {
    if d == 0 {
        out.push(at.clone());
        return;
    }
    for (c, b) in [(&s.l, 1u8), (&s.r, 0u8)] {
        if let Some(c) = c {
            at.push(b);
            ways(c, d - 1, at, out);
            at.pop();
        }
    }
}

fn bounds(i: &QueryItem) -> (Bound<&[u8]>, Bound<&[u8]>) {
    use Bound::*;
    match i {
        QueryItem::Key(k) => (Included(k), Included(k)),
        QueryItem::Range(r) => (Included(&r.start), Excluded(&r.end)),
        QueryItem::RangeInclusive(r) => (Included(r.start()), Included(r.end())),
        QueryItem::RangeFull(_) => (Unbounded, Unbounded),
        QueryItem::RangeFrom(r) => (Included(&r.start), Unbounded),
        QueryItem::RangeTo(r) => (Unbounded, Excluded(&r.end)),
        QueryItem::RangeToInclusive(r) => (Unbounded, Included(&r.end)),
        QueryItem::RangeAfter(r) => (Excluded(&r.start), Unbounded),
        QueryItem::RangeAfterTo(r) => (Excluded(&r.start), Excluded(&r.end)),
        QueryItem::RangeAfterToInclusive(r) => (Excluded(r.start()), Included(r.end())),
    }
}

fn inside(i: &QueryItem, k: &[u8]) -> bool {
    let (lo, hi) = bounds(i);
    (match lo {
        Bound::Included(x) => k >= x,
        Bound::Excluded(x) => k > x,
        Bound::Unbounded => true,
    }) && (match hi {
        Bound::Included(x) => k <= x,
        Bound::Excluded(x) => k < x,
        Bound::Unbounded => true,
    })
}

impl Machine for MerkM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let s = r.next() >> 12;
        let op = *r.pick(&["apply", "apply", "apply", "prove", "prove", "chunks", "restore", "restore", "trunk", "laws"]);
        let n = match op {
            "apply" => *r.pick(&[1u64, 2, 5, 10, 20, 40, 80]),
            _ => r.next() >> 40,
        };
        let f = (matches!(op, "apply" | "restore") && r.chance(1, 6)).then(|| r.below(40) as u32);
        Some(Act::C(ca(op, &[s, n]).fail(f)))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.stats, a);
        match a.op.as_str() {
            "apply" => self.apply(a.get(0), a.get(1).min(100) as usize, a.fail),
            "prove" => self.prove(a.get(0)),
            "chunks" => self.chunks(a.get(0)),
            "restore" => self.restore(a.get(0), a.get(1), a.fail),
            "trunk" => self.trunk(a.get(0)),
            "laws" => self.laws(a.get(0)),
            _ => Ok(()),
        }
    }

    fn last(&mut self) -> V {
        self.reads(7)?;
        self.restore(11, 0, None)?;
        self.restore(13, 1, None)
    }

    fn done(self: Box<Self>) -> Stats {
        self.stats
    }
}
