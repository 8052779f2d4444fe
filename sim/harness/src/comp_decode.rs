//! Decoders fed with what a disk or a peer may supply: every decoder gets
//! encodings of generated values, the same damaged, encodings meant for other
//! decoders, and noise. None may crash, run away or take memory out of
//! proportion; what was encoded comes back; what was accepted is stable.
use ed::{Decode as _, Encode as _};
use grovedb::{
    AggregateSumPathQuery, Element, GroveDb, PathQuery, SizedQuery, TreeFeatureType,
    operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes, ProveOptions},
    reference_path::{ReferencePathType as Rp, path_from_reference_path_type, path_from_reference_qualified_path_type},
};
use grovedb_bulk_append_tree::{BulkAppendTreeProof, deserialize_chunk_blob, serialize_chunk_blob};
use grovedb_commitment_tree::{
    CommitmentFrontier, DashMemo, TransmittedNoteCiphertext, deserialize_ciphertext, serialize_ciphertext,
};
use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
use grovedb_epoch_based_storage_flags::StorageFlags;
use grovedb_merk::{
    proofs::{
        query::QueryProofVerify as _,
        Decoder, Node, Op, Query,
        chunk::{chunk_op::ChunkOp, util},
        encode_into, execute,
    },
    tree::{AggregateData, TreeNode},
    Link,
};
use grovedb_merkle_mountain_range::{MmrNode, MmrTreeProof};
use grovedb_path::SubtreePath;
use grovedb_query::{AggregateSumQuery, QueryItem, SubqueryBranch};

use crate::{alloc::peak, check::*, comp::*, node::{Caught, guard, gv, hx}, ops::B, plan::*, rng::*, sim::Stats};

const MIB: u64 = 1 << 20;

/// one decoder
struct Dec {
    name: &'static str,
    /// memory it may take whatever the input, for small inputs
    fixed: u64,
    /// decode, look at it, encode again
    f: fn(&[u8]) -> Option<B>,
    /// encoding of a generated value, or how it failed to come back
    gen_: fn(&mut Rng) -> Result<B, String>,
}

const DECS: &[Dec] = &[
    Dec { name: "element", fixed: 16 * MIB, f: f_element, gen_: g_element },
    Dec { name: "reference", fixed: 16 * MIB, f: f_reference, gen_: g_reference },
    Dec { name: "proof op", fixed: 160 * MIB, f: f_op, gen_: g_op },
    Dec { name: "proof ops", fixed: 160 * MIB, f: f_ops, gen_: g_ops },
    Dec { name: "feature type", fixed: MIB, f: f_feature, gen_: g_feature },
    Dec { name: "query", fixed: 48 * MIB, f: f_query, gen_: g_query },
    Dec { name: "query item", fixed: 16 * MIB, f: f_item, gen_: g_item },
    Dec { name: "path query", fixed: 48 * MIB, f: f_pathquery, gen_: g_pathquery },
    Dec { name: "sum query", fixed: 48 * MIB, f: f_sumquery, gen_: g_sumquery },
    Dec { name: "trunk query", fixed: 16 * MIB, f: f_trunk, gen_: g_trunk },
    Dec { name: "branch query", fixed: 16 * MIB, f: f_branch, gen_: g_branch },
    Dec { name: "proof", fixed: 640 * MIB, f: f_proof, gen_: g_proof },
    Dec { name: "tree node", fixed: 16 * MIB, f: f_node, gen_: g_node },
    Dec { name: "chunk op", fixed: 160 * MIB, f: f_chunkop, gen_: g_chunkop },
    Dec { name: "chunk instruction", fixed: MIB, f: f_instr, gen_: g_instr },
    Dec { name: "mmr proof", fixed: 256 * MIB, f: f_mmr, gen_: g_mmr },
    Dec { name: "mmr node", fixed: MIB, f: f_mmrnode, gen_: g_mmrnode },
    Dec { name: "chunk blob", fixed: 16 * MIB, f: f_blob, gen_: g_blob },
    Dec { name: "bulk proof", fixed: 512 * MIB, f: f_bulk, gen_: g_bulk },
    Dec { name: "dense proof", fixed: 256 * MIB, f: f_dense, gen_: g_dense },
    Dec { name: "storage flags", fixed: MIB, f: f_flags, gen_: g_flags },
    Dec { name: "frontier", fixed: MIB, f: f_frontier, gen_: g_frontier },
    Dec { name: "ciphertext", fixed: MIB, f: f_cipher, gen_: g_cipher },
    Dec { name: "query as text", fixed: 48 * MIB, f: f_text::<PathQuery>, gen_: |r| g_text(&text_query(r, true)) },
    Dec { name: "sum query as text", fixed: 48 * MIB, f: f_text::<AggregateSumPathQuery>, gen_: |r| g_text(&sum_query(r)) },
    Dec { name: "element as text", fixed: 48 * MIB, f: f_text::<Element>, gen_: |r| g_text(&element(r)) },
    Dec { name: "query by serde", fixed: 48 * MIB, f: f_serde::<PathQuery>, gen_: |r| g_serde(&text_query(r, false)) },
    Dec { name: "element by serde", fixed: 48 * MIB, f: f_serde::<Element>, gen_: |r| g_serde(&element(r)) },
];

// ---------------------------------------------------------------- values

fn some<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 2) { Some(f(r)) } else { None }
}

/// mostly short; lengths at which encodings change sometimes
fn bytes(r: &mut Rng) -> B {
    let n = match r.below(24) {
        0 => r.range(249, 258),
        1 if r.chance(1, 8) => r.range(65533, 65538),
        2 => 0,
        3 => r.range(31, 33),
        _ => r.range(1, 12),
    };
    r.bytes(n)
}

fn key(r: &mut Rng) -> B {
    let n = match r.below(12) {
        0 => 255,
        1 => 0,
        2 => r.range(250, 254),
        _ => r.range(1, 8),
    };
    r.bytes(n)
}

fn path(r: &mut Rng) -> Vec<B> {
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(250, 260),
        _ => r.range(1, 5),
    };
    (0..n).map(|_| if n > 100 { r.bytes(1) } else { key(r) }).collect()
}

fn i64s(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => r.next() as i64,
        3 => -(r.below(300) as i64),
        _ => r.below(300) as i64,
    }
}

fn u64s(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => u64::MAX,
        1 => r.next(),
        2 => u32::MAX as u64 + r.below(3) as u64 - 1,
        3 => 0,
        _ => r.below(300) as u64,
    }
}

fn i128s(r: &mut Rng) -> i128 {
    match r.below(5) {
        0 => i128::MIN,
        1 => i128::MAX,
        2 => ((r.next() as u128) << 64 | r.next() as u128) as i128,
        _ => i64s(r) as i128,
    }
}

fn h32(r: &mut Rng) -> [u8; 32] {
    r.bytes(32).try_into().unwrap()
}

fn reference(r: &mut Rng) -> Rp {
    let n = *r.pick(&[0u8, 1, 2, 3, 255]);
    match r.below(7) {
        0 => Rp::AbsolutePathReference(path(r)),
        1 => Rp::UpstreamRootHeightReference(n, path(r)),
        2 => Rp::UpstreamRootHeightWithParentPathAdditionReference(n, path(r)),
        3 => Rp::UpstreamFromElementHeightReference(n, path(r)),
        4 => Rp::CousinReference(key(r)),
        5 => Rp::RemovedCousinReference(path(r)),
        _ => Rp::SiblingReference(key(r)),
    }
}

fn element(r: &mut Rng) -> Element {
    let f = some(r, bytes);
    let k = some(r, key);
    match r.below(15) {
        0 => Element::Item(bytes(r), f),
        1 => Element::Reference(reference(r), some(r, |r| r.next() as u8), f),
        2 => Element::Tree(k, f),
        3 => Element::SumItem(i64s(r), f),
        4 => Element::SumTree(k, i64s(r), f),
        5 => Element::BigSumTree(k, i128s(r), f),
        6 => Element::CountTree(k, u64s(r), f),
        7 => Element::CountSumTree(k, u64s(r), i64s(r), f),
        8 => Element::ProvableCountTree(k, u64s(r), f),
        9 => Element::ItemWithSumItem(bytes(r), i64s(r), f),
        10 => Element::ProvableCountSumTree(k, u64s(r), i64s(r), f),
        11 => Element::CommitmentTree(u64s(r), r.next() as u8, f),
        12 => Element::MmrTree(u64s(r), f),
        13 => Element::BulkAppendTree(u64s(r), r.next() as u8, f),
        _ => Element::DenseAppendOnlyFixedSizeTree(r.next() as u16, r.next() as u8, f),
    }
}

fn feature(r: &mut Rng) -> TreeFeatureType {
    use TreeFeatureType::*;
    match r.below(7) {
        0 => BasicMerkNode,
        1 => SummedMerkNode(i64s(r)),
        2 => BigSummedMerkNode(i128s(r)),
        3 => CountedMerkNode(u64s(r)),
        4 => CountedSummedMerkNode(u64s(r), i64s(r)),
        5 => ProvableCountedMerkNode(u64s(r)),
        _ => ProvableCountedSummedMerkNode(u64s(r), i64s(r)),
    }
}

fn pnode(r: &mut Rng) -> Node {
    let (k, h) = (key(r), h32(r));
    let v = if r.chance(1, 2) { element(r).serialize(gv()).unwrap() } else { bytes(r) };
    match r.below(12) {
        0 => Node::Hash(h),
        1 => Node::KVHash(h),
        2 => Node::KVDigest(k, h),
        3 => Node::KV(k, v),
        4 => Node::KVValueHash(k, v, h),
        5 => Node::KVValueHashFeatureType(k, v, h, feature(r)),
        6 => Node::KVRefValueHash(k, v, h),
        7 => Node::KVCount(k, v, u64s(r)),
        8 => Node::KVHashCount(h, u64s(r)),
        9 => Node::KVRefValueHashCount(k, v, h, u64s(r)),
        10 => Node::KVDigestCount(k, h, u64s(r)),
        _ => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, feature(r), h32(r)),
    }
}

fn op(r: &mut Rng) -> Op {
    match r.below(8) {
        0 => Op::Parent,
        1 => Op::Child,
        2 => Op::ParentInverted,
        3 => Op::ChildInverted,
        4 => Op::PushInverted(pnode(r)),
        _ => Op::Push(pnode(r)),
    }
}

/// a sequence that builds a tree, with ordered keys when plain
fn ops(r: &mut Rng) -> Vec<Op> {
    if r.chance(1, 3) {
        return (0..r.range(0, 8)).map(|_| op(r)).collect();
    }
    fn build(r: &mut Rng, n: usize, out: &mut Vec<Op>) {
        // a tree of n nodes, left part first
        let l = r.below(n.min(5));
        if l > 0 {
            build(r, l, out);
        }
        out.push(Op::Push(pnode(r)));
        if l > 0 {
            out.push(Op::Parent);
        }
        let rt = n - 1 - l;
        if rt > 0 {
            build(r, rt, out);
            out.push(Op::Child);
        }
    }
    let mut v = vec![];
    let n = r.range(1, 9);
    build(r, n, &mut v);
    v
}

fn item(r: &mut Rng) -> QueryItem {
    let (a, b) = (key(r), key(r));
    match r.below(10) {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(..),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..b),
        6 => QueryItem::RangeToInclusive(..=b),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}

fn branch(r: &mut Rng, depth: usize) -> SubqueryBranch {
    SubqueryBranch {
        subquery_path: some(r, path),
        subquery: if depth > 0 && r.chance(1, 2) { Some(Box::new(query(r, depth - 1))) } else { None },
    }
}

fn query(r: &mut Rng, depth: usize) -> Query {
    let n = r.below(4);
    let mut q = Query::new();
    q.items = (0..n).map(|_| item(r)).collect();
    q.default_subquery_branch = branch(r, depth);
    if r.chance(1, 2) {
        q.conditional_subquery_branches = Some((0..r.below(3)).map(|_| (item(r), branch(r, depth))).collect());
    }
    q.left_to_right = r.chance(1, 2);
    q.add_parent_tree_on_subquery = r.chance(1, 2);
    q
}

fn u16o(r: &mut Rng) -> Option<u16> {
    some(r, |r| *r.pick(&[0, 1, 250, 251, 256, u16::MAX]))
}

fn lim() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_limit::<{ 1 << 20 }>()
}

fn big() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_limit::<{ 256 << 20 }>()
}

/// encode, decode, compare
fn trip<T>(what: &str, v: &T, e: B, back: Option<T>) -> Result<B, String>
where
    T: PartialEq + std::fmt::Debug,
{
    match back {
        Some(b) if b == *v => Ok(e),
        Some(b) => Err(format!("{what} {v:?} came back as {b:?}")),
        None => Err(format!("{what} {v:?} was refused by its decoder: {}", hx(&e))),
    }
}

/// the same for what can only be printed
fn trip_shown<T>(what: &str, v: &T, e: B, back: Option<T>, show: impl Fn(&T) -> String) -> Result<B, String> {
    let s = show(v);
    match back {
        Some(b) if show(&b) == s => Ok(e),
        Some(b) => Err(format!("{what} {s} came back as {}", show(&b))),
        None => Err(format!("{what} {s} was refused by its decoder: {}", hx(&e))),
    }
}

fn bin<T: bincode::Encode>(v: &T) -> B {
    bincode::encode_to_vec(v, bincode::config::standard().with_big_endian().with_no_limit()).unwrap()
}

fn unbin<T: bincode::Decode<()>>(b: &[u8]) -> Option<T> {
    bincode::decode_from_slice(b, lim()).ok().map(|x| x.0)
}

// --------------------------------------------------------------- decoders

fn f_element(b: &[u8]) -> Option<B> {
    let e = Element::deserialize(b, gv()).ok()?;
    let _ = format!("{e} {e:?}");
    let _ = (e.type_str(), e.is_any_tree(), e.get_flags(), e.sum_value_or_default(), e.count_sum_value_or_default());
    let s = e.serialize(gv()).ok()?;
    let _ = e.serialized_size(gv());
    Some(s)
}
fn g_element(r: &mut Rng) -> Result<B, String> {
    let e = element(r);
    let b = e.serialize(gv()).map_err(|x| format!("{e:?}: {x}"))?;
    let n = e.serialized_size(gv()).map_err(|x| x.to_string())?;
    if n != b.len() {
        return Err(format!("serialized_size of {e:?} is {n}, the encoding has {}", b.len()));
    }
    let back = Element::deserialize(&b, gv()).ok();
    trip("element", &e, b, back)
}

fn look_ref(v: &Rp) {
    let paths: [Vec<B>; 4] = [vec![], vec![b"a".to_vec()], vec![b"a".to_vec(), b"bc".to_vec()], vec![b"x".to_vec(); 5]];
    let k = b"key";
    for p in &paths {
        let one = path_from_reference_path_type(v.clone(), p, Some(k));
        let _ = path_from_reference_path_type(v.clone(), p, None);
        let mut q = p.clone();
        q.push(k.to_vec());
        let two = path_from_reference_qualified_path_type(v.clone(), &q);
        let _ = path_from_reference_qualified_path_type::<B>(v.clone(), p);
        assert_eq!(one.is_ok(), two.is_ok(), "{v:?} from {p:?}: {one:?}, qualified {two:?}");
        if let (Ok(a), Ok(b)) = (one, two) {
            assert_eq!(a, b, "{v:?} from {p:?}");
        }
        let s: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
        let sp = SubtreePath::from(s.as_slice());
        let _ = v.invert(sp.clone(), k);
        let _ = v.clone().absolute_qualified_path(sp.derive_owned(), k);
    }
    let _ = format!("{v} {v:?} {}", v.serialized_size());
}

fn f_reference(b: &[u8]) -> Option<B> {
    let v: Rp = unbin(b)?;
    look_ref(&v);
    Some(bin(&v))
}
fn g_reference(r: &mut Rng) -> Result<B, String> {
    let v = reference(r);
    let b = bin(&v);
    let back = unbin(&b);
    trip("reference", &v, b, back)
}

fn f_op(b: &[u8]) -> Option<B> {
    let o = Op::decode(b).ok()?;
    let _ = format!("{o:?}");
    let mut v = vec![];
    encode_into([&o].into_iter(), &mut v);
    assert_eq!(v.len(), o.encoding_length(), "encoding length of {o:?}");
    Some(v)
}
fn g_op(r: &mut Rng) -> Result<B, String> {
    let o = op(r);
    let mut v = vec![];
    encode_into([&o].into_iter(), &mut v);
    if v.len() != o.encoding_length() {
        return Err(format!("encoding length of {o:?}: {} for {}", o.encoding_length(), v.len()));
    }
    let back = Op::decode(&v).ok();
    trip("proof op", &o, v, back)
}

fn dec_ops(b: &[u8]) -> Option<Vec<Op>> {
    Decoder::new(b).collect::<Result<Vec<_>, _>>().ok()
}

fn f_ops(b: &[u8]) -> Option<B> {
    let ops = dec_ops(b);
    // as verifiers do: straight from the bytes
    for collapse in [true, false] {
        if let Ok(t) = execute(Decoder::new(b), collapse, |_| Ok(())).unwrap() {
            let _ = (t.hash().unwrap(), t.height);
            if !collapse {
                let _ = t.visit_refs(&mut |n| {
                    let _ = format!("{:?}", n.node);
                    Ok(())
                });
            }
        }
    }
    let q = Query::new_range_full();
    for v in [0, 1] {
        let _ = q.execute_proof(b, Some(3), true, v).unwrap();
    }
    let ops = ops?;
    let mut v = vec![];
    encode_into(ops.iter(), &mut v);
    Some(v)
}
fn g_ops(r: &mut Rng) -> Result<B, String> {
    let o = ops(r);
    let mut v = vec![];
    encode_into(o.iter(), &mut v);
    let back = dec_ops(&v);
    trip("proof ops", &o, v, back)
}

fn f_feature(b: &[u8]) -> Option<B> {
    let t = TreeFeatureType::decode(b).ok()?;
    let _ = (format!("{t:?}"), t.count(), t.encoding_cost(), t.node_type());
    let v = t.encode().ok()?;
    assert_eq!(v.len(), t.encoding_length().unwrap(), "encoding length of {t:?}");
    Some(v)
}
fn g_feature(r: &mut Rng) -> Result<B, String> {
    let t = feature(r);
    let v = t.encode().map_err(|e| format!("{t:?}: {e:?}"))?;
    let back = TreeFeatureType::decode(v.as_slice()).ok();
    trip("feature type", &t, v, back)
}

fn look_query(q: &Query) {
    let _ = format!("{q} {q:?}");
    for i in &q.items {
        let _ = (i.processing_footprint(), i.lower_bound(), i.upper_bound(), i.enum_value());
    }
    let mut out = vec![];
    let _ = q.terminal_keys(vec![], 40, &mut out);
    let _ = (q.max_depth(), q.has_subquery());
}
fn f_query(b: &[u8]) -> Option<B> {
    let q: Query = unbin(b)?;
    look_query(&q);
    Some(bin(&q))
}
fn g_query(r: &mut Rng) -> Result<B, String> {
    let q = query(r, 3);
    let b = bin(&q);
    let back = unbin(&b);
    trip("query", &q, b, back)
}

fn f_item(b: &[u8]) -> Option<B> {
    let q: QueryItem = unbin(b)?;
    let _ = format!("{q} {q:?}");
    let _ = (q.contains(b"x"), q.is_range(), q.processing_footprint());
    let _ = q.keys();
    let _ = q.intersect(&QueryItem::Range(b"a".to_vec()..b"x".to_vec()));
    Some(bin(&q))
}
fn g_item(r: &mut Rng) -> Result<B, String> {
    let q = item(r);
    let b = bin(&q);
    let back = unbin(&b);
    trip("query item", &q, b, back)
}

fn f_pathquery(b: &[u8]) -> Option<B> {
    let q: PathQuery = unbin(b)?;
    let _ = format!("{q} {q:?}");
    look_query(&q.query.query);
    let _ = q.terminal_keys(40, gv());
    let _ = PathQuery::merge(vec![&q, &q], gv());
    let _ = q.query_items_at_path(&[b"a"], gv());
    Some(bin(&q))
}
fn g_pathquery(r: &mut Rng) -> Result<B, String> {
    let q = PathQuery::new(path(r), SizedQuery::new(query(r, 2), u16o(r), u16o(r)));
    let b = bin(&q);
    let back = unbin(&b);
    trip("path query", &q, b, back)
}

fn f_sumquery(b: &[u8]) -> Option<B> {
    let q: AggregateSumPathQuery = unbin(b)?;
    let _ = format!("{q} {q:?}");
    Some(bin(&q))
}
fn sum_query(r: &mut Rng) -> AggregateSumPathQuery {
    AggregateSumPathQuery {
        path: path(r),
        aggregate_sum_query: AggregateSumQuery {
            items: (0..r.below(4)).map(|_| item(r)).collect(),
            left_to_right: r.chance(1, 2),
            sum_limit: u64s(r),
            limit_of_items_to_check: u16o(r),
        },
    }
}
fn g_sumquery(r: &mut Rng) -> Result<B, String> {
    let q = sum_query(r);
    let b = bin(&q);
    let back = unbin(&b);
    trip("aggregate sum query", &q, b, back)
}

/// text has no form for maps with structured keys
fn plain(q: &mut Query) {
    q.conditional_subquery_branches = None;
    if let Some(s) = q.default_subquery_branch.subquery.as_mut() {
        plain(s);
    }
}
fn text_query(r: &mut Rng, text: bool) -> PathQuery {
    let mut q = PathQuery::new(path(r), SizedQuery::new(query(r, 2), u16o(r), u16o(r)));
    if text {
        plain(&mut q.query.query);
    }
    q
}
fn f_text<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) -> Option<B> {
    let v: T = serde_json::from_slice(b).ok()?;
    serde_json::to_vec(&v).ok()
}
fn g_text<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T) -> Result<B, String> {
    let b = serde_json::to_vec(v).map_err(|e| format!("{v:?} has no text: {e}"))?;
    match serde_json::from_slice::<T>(&b) {
        Ok(x) if x == *v => Ok(b),
        Ok(x) => Err(format!("{v:?} came back as {x:?}")),
        Err(e) => Err(format!("{} was refused: {e}", String::from_utf8_lossy(&b))),
    }
}
fn f_serde<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) -> Option<B> {
    let (v, _): (T, _) = bincode::serde::decode_from_slice(b, lim()).ok()?;
    bincode::serde::encode_to_vec(&v, lim()).ok()
}
fn g_serde<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T) -> Result<B, String> {
    let b = bincode::serde::encode_to_vec(v, lim()).map_err(|e| format!("{v:?} has no encoding: {e}"))?;
    match bincode::serde::decode_from_slice::<T, _>(&b, lim()) {
        Ok((x, _)) if x == *v => Ok(b),
        Ok((x, _)) => Err(format!("{v:?} came back as {x:?}")),
        Err(e) => Err(format!("{} was refused: {e}", hx(&b))),
    }
}

fn f_trunk(b: &[u8]) -> Option<B> {
    let q: grovedb::PathTrunkChunkQuery = unbin(b)?;
    let _ = format!("{q:?}");
    Some(bin(&q))
}
fn g_trunk(r: &mut Rng) -> Result<B, String> {
    let q = grovedb::PathTrunkChunkQuery { path: path(r), max_depth: r.next() as u8, min_depth: some(r, |r| r.next() as u8) };
    let b = bin(&q);
    let back = unbin(&b);
    trip("trunk query", &q, b, back)
}
fn f_branch(b: &[u8]) -> Option<B> {
    let q: grovedb::PathBranchChunkQuery = unbin(b)?;
    let _ = (format!("{q:?}"), q.path_slices());
    Some(bin(&q))
}
fn g_branch(r: &mut Rng) -> Result<B, String> {
    let q = grovedb::PathBranchChunkQuery { path: path(r), key: key(r), depth: r.next() as u8 };
    let b = bin(&q);
    let back = unbin(&b);
    trip("branch query", &q, b, back)
}

fn layer0(r: &mut Rng, depth: usize) -> MerkOnlyLayerProof {
    let n = if depth == 0 { 0 } else { r.below(3) };
    MerkOnlyLayerProof {
        merk_proof: g_ops(r).unwrap_or_default(),
        lower_layers: (0..n).map(|_| (key(r), layer0(r, depth - 1))).collect(),
    }
}

fn layer1(r: &mut Rng, depth: usize) -> LayerProof {
    let n = if depth == 0 { 0 } else { r.below(3) };
    LayerProof {
        merk_proof: match r.below(8) {
            0 => ProofBytes::MMR(g_mmr(r).unwrap_or_default()),
            1 => ProofBytes::BulkAppendTree(g_bulk(r).unwrap_or_default()),
            2 => ProofBytes::DenseTree(g_dense(r).unwrap_or_default()),
            3 => {
                let mut b = r.bytes(32);
                b.extend(g_bulk(r).unwrap_or_default());
                ProofBytes::CommitmentTree(b)
            }
            _ => ProofBytes::Merk(g_ops(r).unwrap_or_default()),
        },
        lower_layers: (0..n).map(|_| (key(r), layer1(r, depth - 1))).collect(),
    }
}

fn f_proof(b: &[u8]) -> Option<B> {
    let p: GroveDBProof = bincode::decode_from_slice(b, big()).ok()?.0;
    let _ = std::fmt::Write::write_fmt(&mut String::new(), format_args!("{p}"));
    let q = PathQuery::new_unsized(vec![], Query::new_range_full());
    let _ = GroveDb::verify_query(b, &q, gv());
    let _ = GroveDb::verify_query_raw(b, &q, gv());
    let _ = p.verify(&q, gv());
    let tq = grovedb::PathTrunkChunkQuery::new(vec![b"a".to_vec()], 3);
    let _ = GroveDb::verify_trunk_chunk_proof(b, &tq, gv());
    Some(bin(&p))
}
fn g_proof(r: &mut Rng) -> Result<B, String> {
    let p = if r.chance(1, 3) {
        GroveDBProof::V0(GroveDBProofV0 {
            root_layer: layer0(r, 3),
            prove_options: ProveOptions { decrease_limit_on_empty_sub_query_result: r.chance(1, 2) },
        })
    } else {
        GroveDBProof::V1(GroveDBProofV1 { root_layer: layer1(r, 3) })
    };
    let b = bin(&p);
    let back: Option<GroveDBProof> = bincode::decode_from_slice(&b, big()).ok().map(|x| x.0);
    trip_shown("proof", &p, b, back, |p| hx(&bin(p)))
}

fn link(r: &mut Rng) -> Option<Link> {
    some(r, |r| Link::Reference {
        hash: h32(r),
        child_heights: (r.below(60) as u8, r.below(60) as u8),
        key: key(r),
        aggregate_data: match r.below(7) {
            0 => AggregateData::NoAggregateData,
            1 => AggregateData::Sum(i64s(r)),
            2 => AggregateData::BigSum(i128s(r)),
            3 => AggregateData::Count(u64s(r)),
            4 => AggregateData::CountAndSum(u64s(r), i64s(r)),
            5 => AggregateData::ProvableCount(u64s(r)),
            _ => AggregateData::ProvableCountAndSum(u64s(r), i64s(r)),
        },
    })
}

fn f_node(b: &[u8]) -> Option<B> {
    use grovedb_merk::element::{costs::ElementCostExtensions, decode::ElementDecodeExtensions};
    let _ = Element::raw_decode(b, gv());
    let t = TreeNode::decode(b"k".to_vec(), b, Some(Element::value_defined_cost_for_serialized_value), gv()).ok()?;
    let _ = format!("{t:?}");
    let _ = (t.height(), t.child_heights(), t.balance_factor(), t.hash().unwrap(), t.aggregate_data().is_ok());
    let _ = t.value_encoding_length_with_parent_to_child_reference();
    let v = t.encode();
    assert_eq!(v.len(), t.encoding_length(), "encoding length of {t:?}");
    Some(v)
}
fn g_node(r: &mut Rng) -> Result<B, String> {
    let v = element(r).serialize(gv()).unwrap();
    let k = b"k".to_vec();
    let t = TreeNode::from_fields(k.clone(), v, h32(r), link(r), link(r), feature(r)).unwrap();
    let b = t.encode();
    let none: Option<fn(&[u8], &grovedb_version::version::GroveVersion) -> Option<grovedb_merk::tree::kv::ValueDefinedCostType>> = None;
    let back = TreeNode::decode(k, &b, none, gv()).ok();
    trip_shown("tree node", &t, b, back, |t| {
        format!(
            "{} {} {} {} {:?} {:?} {:?}",
            hx(t.key()),
            hx(t.value_as_slice()),
            hx(t.kv_hash()),
            hx(t.value_hash()),
            t.feature_type(),
            t.link(true),
            t.link(false)
        )
    })
}

fn f_chunkop(b: &[u8]) -> Option<B> {
    let c = ChunkOp::decode(b).ok()?;
    let _ = format!("{c:?}");
    let v = c.encode().ok()?;
    assert_eq!(v.len(), c.encoding_length().unwrap(), "encoding length of {c:?}");
    Some(v)
}
fn g_chunkop(r: &mut Rng) -> Result<B, String> {
    let c = if r.chance(1, 2) {
        let n = *r.pick(&[0, 1, 5, 127, 128, 300]);
        ChunkOp::ChunkId((0..n).map(|_| r.chance(1, 2)).collect())
    } else {
        ChunkOp::Chunk(ops(r))
    };
    let b = c.encode().map_err(|e| format!("{e:?}"))?;
    let back = ChunkOp::decode(b.as_slice()).ok();
    trip("chunk op", &c, b, back)
}

fn f_instr(b: &[u8]) -> Option<B> {
    let i = util::vec_bytes_as_traversal_instruction(b).ok()?;
    for h in [0usize, 1, 2, 3, 4, 5, 6, 9, 13, 20, 33] {
        let _ = util::chunk_index_from_traversal_instruction(&i, h);
        let _ = util::chunk_index_from_traversal_instruction_with_recovery(&i, h);
        let n = i.iter().fold(i.len(), |a, b| (a * 2 + *b as usize) & 0xffff_ffff);
        let _ = util::generate_traversal_instruction(h, n);
        let _ = (util::chunk_height(h, n), util::number_of_chunks_under_chunk_id(h, n), util::chunk_layer(h, n));
    }
    Some(util::traversal_instruction_as_vec_bytes(&i))
}
/// the chunks of a tree of some height are numbered one to one
fn g_instr(r: &mut Rng) -> Result<B, String> {
    let h = r.range(1, 24);
    let n = util::number_of_chunks(h);
    let i = match r.below(4) {
        0 => 1,
        1 => n,
        _ => 1 + r.below(n.min(1 << 30)),
    };
    let t = util::generate_traversal_instruction(h, i).map_err(|e| format!("chunk {i} of {n} at height {h}: {e}"))?;
    let j = util::chunk_index_from_traversal_instruction(&t, h).map_err(|e| format!("chunk {i} of {n} at height {h}: {e}"))?;
    if i != j {
        return Err(format!("chunk {i} of {n} at height {h} is found at {t:?}, where chunk {j} is said to be"));
    }
    let b = util::generate_traversal_instruction_as_vec_bytes(h, i).map_err(|e| e.to_string())?;
    let back = util::vec_bytes_as_traversal_instruction(&b).ok();
    trip("chunk instruction", &t, b, back)
}

fn f_mmr(b: &[u8]) -> Option<B> {
    let p = MmrTreeProof::decode_from_slice(b).ok()?;
    let _ = format!("{p:?}");
    let _ = p.verify_and_get_root();
    let _ = p.verify(&[0; 32]);
    p.encode_to_vec().ok()
}
fn mmr(r: &mut Rng) -> MmrTreeProof {
    let n = r.below(4);
    let l = (0..n).map(|_| (u64s(r), bytes(r))).collect();
    let k = r.below(5);
    let size = if r.chance(1, 2) { r.below(40) as u64 } else { u64s(r) };
    MmrTreeProof::new(size, l, (0..k).map(|_| h32(r)).collect())
}
fn g_mmr(r: &mut Rng) -> Result<B, String> {
    let p = mmr(r);
    let b = p.encode_to_vec().map_err(|e| e.to_string())?;
    let back = MmrTreeProof::decode_from_slice(&b).ok();
    trip_shown("mmr proof", &p, b, back, |p| format!("{p:?}"))
}

fn f_mmrnode(b: &[u8]) -> Option<B> {
    let n = MmrNode::deserialize(b).ok()?;
    let _ = format!("{n:?}");
    let v = n.serialize().ok()?;
    assert_eq!(v.len() as u64, n.serialized_size(), "size of {n:?}");
    Some(v)
}
fn g_mmrnode(r: &mut Rng) -> Result<B, String> {
    let n = if r.chance(1, 2) { MmrNode::leaf(bytes(r)) } else { MmrNode::internal(h32(r)) };
    let b = n.serialize().map_err(|e| e.to_string())?;
    let back = MmrNode::deserialize(&b).ok();
    trip_shown("mmr node", &n, b, back, |n| format!("{n:?}"))
}

fn f_blob(b: &[u8]) -> Option<B> {
    let v = deserialize_chunk_blob(b).ok()?;
    serialize_chunk_blob(&v).ok()
}
fn g_blob(r: &mut Rng) -> Result<B, String> {
    let n = r.below(9);
    let fixed = r.chance(1, 2);
    let len = *r.pick(&[0, 1, 3, 32]);
    let v: Vec<B> = (0..n).map(|_| if fixed { r.bytes(len) } else { bytes(r) }).collect();
    let b = serialize_chunk_blob(&v).map_err(|e| e.to_string())?;
    let back = deserialize_chunk_blob(&b).ok();
    trip("chunk blob", &v, b, back)
}

fn f_bulk(b: &[u8]) -> Option<B> {
    let p = BulkAppendTreeProof::decode_from_slice(b).ok()?;
    let _ = format!("{p:?}");
    for (h, n) in [(1u8, 0u64), (1, 3), (2, 1), (3, 20), (16, u64::MAX), (0, 5), (255, 9)] {
        if let Ok((_, x)) = p.verify_and_compute_root(h, n) {
            let _ = x.values_in_range(0, 5);
            let _ = x.values_in_range(u64::MAX - 1, u64::MAX);
        }
    }
    p.encode_to_vec().ok()
}
fn dense(r: &mut Rng) -> DenseTreeProof {
    let p = |r: &mut Rng| if r.chance(3, 4) { r.below(8) as u16 } else { r.next() as u16 };
    DenseTreeProof {
        entries: (0..r.below(4)).map(|_| (p(r), bytes(r))).collect(),
        node_value_hashes: (0..r.below(4)).map(|_| (p(r), h32(r))).collect(),
        node_hashes: (0..r.below(4)).map(|_| (p(r), h32(r))).collect(),
    }
}
fn g_bulk(r: &mut Rng) -> Result<B, String> {
    let p = BulkAppendTreeProof { chunk_proof: mmr(r), buffer_proof: dense(r) };
    let b = p.encode_to_vec().map_err(|e| e.to_string())?;
    let back = BulkAppendTreeProof::decode_from_slice(&b).ok();
    trip_shown("bulk proof", &p, b, back, |p| format!("{p:?}"))
}

fn f_dense(b: &[u8]) -> Option<B> {
    let p = DenseTreeProof::decode_from_slice(b).ok()?;
    let _ = format!("{p:?}");
    for (h, n) in [(1u8, 1u16), (3, 5), (16, u16::MAX), (0, 0), (255, 1), (4, u16::MAX)] {
        let _ = p.verify_and_get_root::<Vec<_>>(h, n);
    }
    p.encode_to_vec().ok()
}
fn g_dense(r: &mut Rng) -> Result<B, String> {
    let p = dense(r);
    let b = p.encode_to_vec().map_err(|e| e.to_string())?;
    let back = DenseTreeProof::decode_from_slice(&b).ok();
    trip_shown("dense proof", &p, b, back, |p| format!("{p:?}"))
}

fn f_flags(b: &[u8]) -> Option<B> {
    let f = StorageFlags::deserialize(b).ok()??;
    let _ = format!("{f} {f:?}");
    let v = f.serialize();
    assert_eq!(v.len() as u32, f.serialized_size(), "size of {f:?}");
    let mut c = f.clone();
    c.set_owner_id([7; 32]);
    let _ = (f.base_epoch(), f.owner_id(), f.epoch_index_map());
    let _ = f.split_storage_removed_bytes(10, 50);
    Some(v)
}
fn g_flags(r: &mut Rng) -> Result<B, String> {
    let base = r.next() as u16;
    let n = r.range(1, 5);
    let m = (0..n)
        .map(|_| {
            let e = if r.chance(1, 3) { *r.pick(&[0, 1, 127, 128, 255, 256, u16::MAX]) } else { r.next() as u16 };
            let v = *r.pick(&[0u32, 3, 127, 128, 16383, 16384, u32::MAX]);
            (e, v)
        })
        .collect();
    let f = match r.below(4) {
        0 => StorageFlags::SingleEpoch(base),
        1 => StorageFlags::MultiEpoch(base, m),
        2 => StorageFlags::SingleEpochOwned(base, h32(r)),
        _ => StorageFlags::MultiEpochOwned(base, m, h32(r)),
    };
    let b = f.serialize();
    let back = StorageFlags::deserialize(&b).ok().flatten();
    trip("storage flags", &f, b, back)
}

fn f_frontier(b: &[u8]) -> Option<B> {
    let f = CommitmentFrontier::deserialize(b).ok()?;
    let _ = format!("{f:?}");
    let _ = (f.root_hash(), f.position(), f.tree_size());
    Some(f.serialize())
}
fn g_frontier(r: &mut Rng) -> Result<B, String> {
    let mut f = CommitmentFrontier::new();
    for _ in 0..r.below(9) {
        let mut c = h32(r);
        c[31] &= 0x3f;
        let _ = f.append(c).unwrap();
    }
    let b = f.serialize();
    let back = CommitmentFrontier::deserialize(&b).ok();
    trip_shown("frontier", &f, b, back, |f| format!("{f:?}"))
}

fn f_cipher(b: &[u8]) -> Option<B> {
    let c: TransmittedNoteCiphertext<DashMemo> = deserialize_ciphertext(b)?;
    Some(serialize_ciphertext(&c))
}
fn g_cipher(r: &mut Rng) -> Result<B, String> {
    let n = grovedb_commitment_tree::ciphertext_payload_size::<DashMemo>();
    let b = r.bytes(n);
    match f_cipher(&b) {
        Some(c) if c == b => Ok(b),
        x => Err(format!("ciphertext {} came back as {:?}", hx(&b), x.map(|x| hx(&x)))),
    }
}

// ------------------------------------------------------------------- runs

pub struct DecodeM {
    r: Rng,
    left: usize,
    st: Stats,
}

impl DecodeM {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let left = r.range(20, 80);
        DecodeM { r, left, st: Stats::default() }
    }

    fn made(&mut self, d: &Dec, s: u64) -> V<B> {
        let mut r = Rng::new(s);
        match guard(|| (d.gen_)(&mut r)) {
            Caught::Done(Ok(b)) => Ok(b),
            Caught::Done(Err(e)) => Err(Viol { class: "decode-trip".into(), msg: cut(e) }),
            Caught::Panicked(e) => Err(Viol { class: "panic".into(), msg: format!("encoding a {}: {e}", d.name) }),
            Caught::Crashed => unreachable!(),
        }
    }

    /// decode it; the result if accepted
    fn feed(&mut self, d: &Dec, b: &[u8], src: &str) -> V<Option<B>> {
        let (x, top) = peak(|| guard(|| (d.f)(b)));
        let x = match x {
            Caught::Done(x) => x,
            Caught::Panicked(e) => {
                return Err(Viol { class: "panic".into(), msg: cut(format!("{} from {src} {}: {e}", d.name, hx(b))) });
            }
            Caught::Crashed => unreachable!(),
        };
        let tier = if d.name == "element" && b.len() > 0xffff { 1 << 30 } else { 0 };
        let most = d.fixed + tier + 512 * b.len() as u64;
        ensure(top <= most, "decode-memory", || {
            cut(format!("{} of {} bytes ({src}) took {top} bytes of memory: {}", d.name, b.len(), hx(b)))
        })?;
        if let Some(e) = &x {
            self.st.ev(&format!("probe.{} accepted from {src}", d.name));
            let again = match guard(|| (d.f)(e)) {
                Caught::Done(y) => y,
                _ => None,
            };
            ensure(again.as_ref() == Some(e), "decode-stable", || {
                cut(format!(
                    "{}: {} was accepted and encodes to {}, which is taken as {:?}",
                    d.name,
                    hx(b),
                    hx(e),
                    again.as_ref().map(|x| hx(x))
                ))
            })?;
        } else {
            self.st.ev(&format!("probe.{} refused from {src}", d.name));
        }
        Ok(x)
    }

    fn nested(&mut self, s: u64, n: usize) -> V {
        let mut r = Rng::new(s);
        let mut q = Query::new_single_key(b"a".to_vec());
        let by_path = r.chance(1, 3);
        for i in 0..n {
            let mut up = Query::new_single_key(vec![i as u8]);
            if r.chance(1, 4) {
                up.conditional_subquery_branches = Some(
                    [(
                        QueryItem::Key(vec![i as u8]),
                        SubqueryBranch { subquery_path: if by_path { Some(vec![vec![1]]) } else { None }, subquery: Some(Box::new(q)) },
                    )]
                    .into_iter()
                    .collect(),
                );
            } else {
                up.default_subquery_branch.subquery = Some(Box::new(q));
            }
            q = up;
        }
        let b = bin(&q);
        let x = unbin::<Query>(&b);
        if n <= 60 {
            ensure(x.as_ref() == Some(&q), "decode-trip", || format!("query nested {n} deep is refused or changed"))?;
        }
        let d = DECS.iter().find(|d| d.name == "query").unwrap();
        if let Some(q) = &x {
            let _ = bin(q);
        }
        self.feed(d, &b, "nesting")?;
        let mut l = LayerProof { merk_proof: ProofBytes::Merk(vec![]), lower_layers: Default::default() };
        for i in 0..n {
            l = LayerProof { merk_proof: ProofBytes::Merk(vec![]), lower_layers: [(vec![i as u8], l)].into_iter().collect() };
        }
        let p = GroveDBProof::V1(GroveDBProofV1 { root_layer: l });
        let b = bin(&p);
        let d = DECS.iter().find(|d| d.name == "proof").unwrap();
        let x = self.feed(d, &b, "nesting")?;
        if n <= 120 {
            ensure(x.as_ref() == Some(&b), "decode-trip", || format!("proof nested {n} deep is refused or changed"))?;
        }
        Ok(())
    }
}

fn cut(s: String) -> String {
    if s.len() > 1200 { format!("{}..", s.chars().take(1200).collect::<String>()) } else { s }
}

/// bytes shaped like encodings: markers, lengths, short runs
fn noise(r: &mut Rng) -> B {
    let mut v = vec![];
    for _ in 0..r.range(0, 12) {
        match r.below(8) {
            0 => v.extend(0xfdu8.to_be_bytes().iter().chain(&r.next().to_be_bytes())),
            1 => v.extend([0xfc, 0xff, 0xff, 0xff, 0xff]),
            2 => v.extend((r.below(1 << 20) as u32).to_be_bytes()),
            3 => v.extend([0xfb, r.next() as u8, r.next() as u8]),
            4 => v.extend((0..r.below(40)).map(|_| 0)),
            5 => v.extend((0..r.below(12)).map(|_| 0xff)),
            6 => {
                let n = r.below(40);
                v.extend(r.bytes(n))
            }
            _ => v.push(r.below(32) as u8),
        }
    }
    v
}

impl Machine for DecodeM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let d = self.r.below(DECS.len()) as u64;
        let (s, t) = (self.r.next(), self.r.next());
        Some(Act::C(match self.r.below(40) {
            0..=7 => ca("whole", &[d, s]),
            8..=29 => ca("hurt", &[d, s, t]),
            30..=33 => ca("other", &[d, self.r.below(DECS.len()) as u64, s]),
            34..=38 => ca("noise", &[d, s]),
            _ => {
                let n = *self.r.pick(&[2, 20, 60, 63, 64, 65, 66, 100, 120, 127, 128, 129, 130, 400, 3000]);
                ca("nested", &[s, n])
            }
        }))
    }
    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        self.st.checks += 1;
        self.st.writes_ok += 1;
        let d = &DECS[a.get(0) as usize % DECS.len()];
        match a.op.as_str() {
            "whole" => {
                let b = self.made(d, a.get(1))?;
                let x = self.feed(d, &b, "its encoding")?;
                // hand-made MMR sizes and the like need not be encodable again
                ensure(x.as_ref() == Some(&b), "decode-trip", || {
                    cut(format!("{}: {} was decoded and encoded to {:?}", d.name, hx(&b), x.as_ref().map(|x| hx(x))))
                })
            }
            "hurt" => {
                let b = self.made(d, a.get(1))?;
                let mut r = Rng::new(a.get(2));
                let o = self.made(d, r.next())?;
                let b = damage(&mut r, &b, &o);
                self.feed(d, &b, "damage").map(|_| ())
            }
            "other" => {
                let o = &DECS[a.get(1) as usize % DECS.len()];
                let b = self.made(o, a.get(2))?;
                self.feed(d, &b, "another's encoding").map(|_| ())
            }
            "noise" => {
                let b = noise(&mut Rng::new(a.get(1)));
                self.feed(d, &b, "noise").map(|_| ())
            }
            "nested" => self.nested(a.get(0), a.get(1) as usize),
            _ => Ok(()),
        }
    }
    fn last(&mut self) -> V {
        Ok(())
    }
    fn done(self: Box<Self>) -> Stats {
        self.st
    }
}
