//! Forged proofs: an adversary who sees the whole state, holds honest proofs
//! and knows the format rewrites what travels from prover to verifier. What
//! a verifier accepts under the root it trusts must still be exact.
use std::collections::BTreeMap;

use grovedb::{Element, GroveDb};
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, LayerProof, MerkOnlyLayerProof, ProofBytes, ProveOptions};
use grovedb::reference_path::ReferencePathType;
use grovedb_merk::{
    TreeFeatureType,
    proofs::{Decoder, Node, Op as POp, encode_into},
    tree::{NULL_HASH, combine_hash, kv_digest_to_kv_hash, kv_hash, value_hash},
};
use serde::{Deserialize, Serialize};

use crate::{check::*, model::*, node::*, prove::*, query::*, rng::Rng, sim::Sim};

/// one attempt; everything it does follows from the number
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Edit {
    pub k: u64,
}

type H = [u8; 32];

/// a Merk proof as the tree it describes
#[derive(Clone)]
pub struct T {
    pub n: Node,
    pub l: Option<Box<T>>,
    pub r: Option<Box<T>>,
}

pub fn parse(bytes: &[u8]) -> Option<(T, bool)> {
    let mut st: Vec<T> = vec![];
    let mut inv = false;
    for op in Decoder::new(bytes) {
        match op.ok()? {
            POp::Push(n) => st.push(T { n, l: None, r: None }),
            POp::PushInverted(n) => {
                inv = true;
                st.push(T { n, l: None, r: None })
            }
            POp::Parent => {
                let (mut p, c) = (st.pop()?, st.pop()?);
                p.l = Some(Box::new(c));
                st.push(p);
            }
            POp::Child => {
                let (c, mut p) = (st.pop()?, st.pop()?);
                p.r = Some(Box::new(c));
                st.push(p);
            }
            POp::ParentInverted => {
                let (mut p, c) = (st.pop()?, st.pop()?);
                p.r = Some(Box::new(c));
                st.push(p);
            }
            POp::ChildInverted => {
                let (c, mut p) = (st.pop()?, st.pop()?);
                p.l = Some(Box::new(c));
                st.push(p);
            }
        }
    }
    let t = st.pop()?;
    st.is_empty().then_some((t, inv))
}

/// dir: 0 left to right, 1 right to left, 2 each node as it likes
pub fn emit(t: &T, dir: u8, r: &mut Rng, out: &mut Vec<POp>) {
    let inv = match dir {
        2 => r.chance(1, 2),
        d => d == 1,
    };
    let (first, second) = if inv { (&t.r, &t.l) } else { (&t.l, &t.r) };
    if let Some(c) = first {
        emit(c, dir, r, out);
    }
    out.push(if inv { POp::PushInverted(t.n.clone()) } else { POp::Push(t.n.clone()) });
    if first.is_some() {
        out.push(if inv { POp::ParentInverted } else { POp::Parent });
    }
    if let Some(c) = second {
        emit(c, dir, r, out);
        out.push(if inv { POp::ChildInverted } else { POp::Child });
    }
}

pub fn size(t: &T) -> usize {
    1 + t.l.as_ref().map_or(0, |c| size(c)) + t.r.as_ref().map_or(0, |c| size(c))
}

pub fn nth(t: &mut T, n: &mut usize) -> Option<*mut T> {
    if *n == 0 {
        return Some(t);
    }
    *n -= 1;
    for c in [&mut t.l, &mut t.r].into_iter().flatten() {
        if let Some(x) = nth(c, n) {
            return Some(x);
        }
    }
    None
}

pub fn hash_of(t: &T) -> H {
    // the code's own notion of it
    let mut ops = vec![];
    emit(t, 0, &mut Rng::new(0), &mut ops);
    match grovedb_merk::proofs::execute(ops.into_iter().map(Ok), false, |_| Ok(())).unwrap() {
        Ok(x) => x.hash().unwrap(),
        Err(_) => NULL_HASH,
    }
}

fn key_of(n: &Node) -> Option<&Vec<u8>> {
    match n {
        Node::KV(k, _)
        | Node::KVValueHash(k, ..)
        | Node::KVValueHashFeatureType(k, ..)
        | Node::KVRefValueHash(k, ..)
        | Node::KVCount(k, ..)
        | Node::KVRefValueHashCount(k, ..)
        | Node::KVDigest(k, _)
        | Node::KVDigestCount(k, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(k, ..) => Some(k),
        Node::Hash(_) | Node::KVHash(_) | Node::KVHashCount(..) => None,
    }
}

/// key, value (if told), value hash, count (if hashed)
pub fn parts(n: &Node) -> Option<(Vec<u8>, Option<Vec<u8>>, H, Option<u64>)> {
    use TreeFeatureType::*;
    let c = |f: &TreeFeatureType| match f {
        ProvableCountedMerkNode(c) | ProvableCountedSummedMerkNode(c, _) => Some(*c),
        _ => None,
    };
    let rf = |v: &Vec<u8>, h: &H| combine_hash(h, &value_hash(v).unwrap()).unwrap();
    Some(match n {
        Node::KV(k, v) => (k.clone(), Some(v.clone()), value_hash(v).unwrap(), None),
        Node::KVCount(k, v, n) => (k.clone(), Some(v.clone()), value_hash(v).unwrap(), Some(*n)),
        Node::KVValueHash(k, v, h) => (k.clone(), Some(v.clone()), *h, None),
        Node::KVValueHashFeatureType(k, v, h, f) | Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, _) => {
            (k.clone(), Some(v.clone()), *h, c(f))
        }
        Node::KVRefValueHash(k, v, h) => (k.clone(), Some(v.clone()), rf(v, h), None),
        Node::KVRefValueHashCount(k, v, h, n) => (k.clone(), Some(v.clone()), rf(v, h), Some(*n)),
        Node::KVDigest(k, h) => (k.clone(), None, *h, None),
        Node::KVDigestCount(k, h, n) => (k.clone(), None, *h, Some(*n)),
        _ => return None,
    })
}

pub fn feature(r: &mut Rng, count: Option<u64>) -> TreeFeatureType {
    use TreeFeatureType::*;
    match count {
        Some(c) => {
            if r.chance(1, 2) {
                ProvableCountedMerkNode(c)
            } else {
                ProvableCountedSummedMerkNode(c, r.below(9) as i64)
            }
        }
        None => match r.below(5) {
            0 | 1 => BasicMerkNode,
            2 => SummedMerkNode(r.below(9) as i64),
            3 => CountedMerkNode(r.below(9) as u64),
            _ => BigSummedMerkNode(r.below(9) as i128),
        },
    }
}

/// what the adversary would like to have been stored
pub fn fake_value(r: &mut Rng, old: Option<&[u8]>) -> Vec<u8> {
    let g = gv();
    let root = Some(vec![r.below(256) as u8]);
    let n = r.below(7) as u64;
    let e = match r.below(20) {
        0 | 1 => Element::Item(b"forged".to_vec(), None),
        2 => Element::SumItem(7, None),
        3 => Element::ItemWithSumItem(b"forged".to_vec(), 3, None),
        4..=6 => Element::Tree(None, None),
        7 => Element::Tree(root, None),
        8 => Element::SumTree(None, n as i64, None),
        9 => Element::SumTree(root, n as i64, None),
        10 => Element::CountTree(None, n, None),
        11 => Element::ProvableCountTree(root, n, None),
        12 => Element::MmrTree(n, None),
        13 => Element::BulkAppendTree(n, 2, None),
        14 => Element::DenseAppendOnlyFixedSizeTree(n as u16, 3, None),
        15 => Element::CommitmentTree(n, 2, None),
        16 => Element::Reference(ReferencePathType::AbsolutePathReference(vec![b"a".to_vec()]), None, None),
        _ => {
            // the old one with something changed
            let Some(mut e) = old.and_then(|o| Element::deserialize(o, g).ok()) else {
                return old.map(|o| o.to_vec()).unwrap_or_default();
            };
            match &mut e {
                Element::Item(v, _) => v.push(1),
                Element::SumItem(v, _) => *v = v.wrapping_add(1),
                Element::ItemWithSumItem(_, v, _) => *v = v.wrapping_add(1),
                Element::Reference(_, h, _) => *h = Some(3),
                Element::Tree(k, _) => *k = if k.is_some() { None } else { root },
                Element::SumTree(_, v, _) => *v = v.wrapping_add(1),
                Element::BigSumTree(_, v, _) => *v = v.wrapping_add(1),
                Element::CountTree(_, v, _) | Element::ProvableCountTree(_, v, _) => *v = v.wrapping_add(1),
                Element::CountSumTree(_, v, ..) | Element::ProvableCountSumTree(_, v, ..) => *v = v.wrapping_add(1),
                Element::CommitmentTree(v, ..) | Element::MmrTree(v, _) | Element::BulkAppendTree(v, ..) => *v = v.wrapping_add(1),
                Element::DenseAppendOnlyFixedSizeTree(v, ..) => *v = v.wrapping_sub(1),
            }
            e
        }
    };
    e.serialize(g).unwrap_or_default()
}

/// another kind of node with the same hash
pub fn convert(r: &mut Rng, n: &Node) -> Node {
    if let Some((k, v, h, c)) = parts(n) {
        let val = |r: &mut Rng| match (&v, r.below(3)) {
            (Some(v), 0) => v.clone(),
            (v, _) => fake_value(r, v.as_deref()),
        };
        let kvh = kv_digest_to_kv_hash(&k, &h).unwrap();
        return match (r.below(8), c) {
            (0, None) => Node::KVHash(kvh),
            (0, Some(c)) => Node::KVHashCount(kvh, c),
            (1, None) => Node::KVDigest(k, h),
            (1, Some(c)) => Node::KVDigestCount(k, h, c),
            (2..=4, None) => Node::KVValueHash(k, val(r), h),
            (7, c) => Node::KVValueHashFeatureTypeWithChildHash(
                k,
                val(r),
                h,
                feature(r, c),
                match n {
                    Node::KVValueHashFeatureTypeWithChildHash(.., x) => *x,
                    _ => NULL_HASH,
                },
            ),
            (_, c) => Node::KVValueHashFeatureType(k, val(r), h, feature(r, c)),
        };
    }
    n.clone()
}

/// a node that does not keep the hash
pub fn spoil(r: &mut Rng, n: &Node) -> Node {
    let mut n = n.clone();
    let flip = |r: &mut Rng, h: &mut H| h[r.below(32)] ^= 1 << r.below(8);
    match &mut n {
        Node::Hash(h) | Node::KVHash(h) => flip(r, h),
        Node::KVHashCount(h, c) => {
            if r.chance(1, 2) {
                flip(r, h)
            } else {
                *c = c.wrapping_add(1)
            }
        }
        Node::KV(k, v) => {
            if r.chance(1, 2) {
                *v = fake_value(r, Some(&v.clone()));
            } else {
                k.push(0);
            }
        }
        Node::KVCount(_, v, c) | Node::KVRefValueHashCount(_, v, _, c) => {
            if r.chance(1, 2) {
                *v = fake_value(r, Some(&v.clone()));
            } else {
                *c = c.wrapping_add(1);
            }
        }
        Node::KVValueHash(_, v, h) | Node::KVRefValueHash(_, v, h) | Node::KVValueHashFeatureType(_, v, h, _) => {
            if r.chance(3, 4) {
                *v = fake_value(r, Some(&v.clone()));
            } else {
                flip(r, h);
            }
        }
        Node::KVValueHashFeatureTypeWithChildHash(_, v, h, _, c) => match r.below(3) {
            0 => {
                *v = fake_value(r, Some(&v.clone()));
                *h = combine_hash(&value_hash(v).unwrap(), c).unwrap();
            }
            1 => {
                let new = fake_value(r, Some(&v.clone()));
                *v = new;
            }
            _ => flip(r, c),
        },
        Node::KVDigest(k, h) | Node::KVDigestCount(k, h, _) => {
            if r.chance(1, 2) {
                flip(r, h);
            } else {
                k.push(0);
            }
        }
    }
    n
}

fn near(r: &mut Rng, keys: &[Vec<u8>], q: &Q) -> Vec<u8> {
    let mut pool: Vec<Vec<u8>> = keys.to_vec();
    pool.extend(q.path.iter().cloned());
    for i in &q.q.items {
        pool.extend(i.bounds().into_iter().cloned());
    }
    if pool.is_empty() {
        return vec![r.below(256) as u8];
    }
    let mut k = r.pick(&pool).clone();
    match r.below(4) {
        0 => k.push(0),
        1 => {
            if let Some(x) = k.last_mut() {
                *x = x.wrapping_add(1)
            }
        }
        2 => {
            if let Some(x) = k.last_mut() {
                *x = x.wrapping_sub(1)
            }
        }
        _ => {}
    }
    k
}

fn fake_tree(r: &mut Rng, keys: &[Vec<u8>], q: &Q) -> T {
    let k = near(r, keys, q);
    let v = fake_value(r, None);
    let n = match r.below(3) {
        0 => Node::KV(k, v),
        1 => {
            let h = combine_hash(&value_hash(&v).unwrap(), &NULL_HASH).unwrap();
            Node::KVValueHash(k, v, h)
        }
        _ => Node::KVDigest(k, NULL_HASH),
    };
    T { n, l: None, r: None }
}

fn keys(t: &T, out: &mut Vec<Vec<u8>>) {
    if let Some(l) = &t.l {
        keys(l, out);
    }
    out.extend(key_of(&t.n).cloned());
    if let Some(x) = &t.r {
        keys(x, out);
    }
}

fn merk(r: &mut Rng, bytes: &[u8], q: &Q, st: &mut Vec<&'static str>) -> Vec<u8> {
    let Some((mut t, inv)) = parse(bytes) else { return bytes.to_vec() };
    let mut ks = vec![];
    keys(&t, &mut ks);
    let mut dir = inv as u8;
    for _ in 0..1 + r.weighted(&[5, 3, 2]) {
        let mut n = r.below(size(&t));
        let x = unsafe { &mut *nth(&mut t, &mut n).unwrap() };
        match r.below(16) {
            0..=6 => {
                x.n = convert(r, &x.n);
                st.push("node kind");
            }
            7 => {
                x.n = spoil(r, &x.n);
                st.push("node contents");
            }
            8 => {
                // only the hash of a whole branch is left
                let h = hash_of(x);
                *x = T { n: Node::Hash(h), l: None, r: None };
                st.push("branch withheld");
            }
            9 | 10 => {
                // the same with something else below it
                let h = hash_of(x);
                x.n = Node::Hash(h);
                if r.chance(1, 2) {
                    x.l = None;
                    x.r = None;
                }
                let f = Some(Box::new(fake_tree(r, &ks, q)));
                if r.chance(1, 2) { x.l = f } else { x.r = f }
                st.push("branch invented");
            }
            11 => {
                dir = r.below(3) as u8;
                st.push("order of nodes");
            }
            12 => {
                if r.chance(1, 2) { x.l = None } else { x.r = None }
                st.push("branch dropped");
            }
            13 => {
                std::mem::swap(&mut x.l, &mut x.r);
                st.push("branches swapped");
            }
            14 => {
                let f = Some(Box::new(fake_tree(r, &ks, q)));
                if x.l.is_none() && r.chance(1, 2) {
                    x.l = f
                } else if x.r.is_none() {
                    x.r = f
                }
                st.push("node added");
            }
            _ => {
                if let Some(k) = key_of(&x.n).cloned() {
                    // hide a key behind its node's hash
                    if let Some((_, _, h, c)) = parts(&x.n) {
                        let kvh = kv_digest_to_kv_hash(&k, &h).unwrap();
                        x.n = match c {
                            Some(c) => Node::KVHashCount(kvh, c),
                            None => Node::KVHash(kvh),
                        };
                    }
                    let _ = kv_hash;
                }
                st.push("key withheld");
            }
        }
    }
    let mut ops = vec![];
    emit(&t, dir, r, &mut ops);
    if r.chance(1, 12) && !ops.is_empty() {
        let i = r.below(ops.len());
        match r.below(4) {
            0 => {
                ops.remove(i);
            }
            1 => {
                let o = ops[i].clone();
                ops.insert(r.below(ops.len() + 1), o);
            }
            2 => {
                let j = r.below(ops.len());
                ops.swap(i, j);
            }
            _ => ops.push(r.pick(&[POp::Parent, POp::Child, POp::ParentInverted, POp::ChildInverted]).clone()),
        }
        st.push("proof operations");
    }
    let mut out = vec![];
    encode_into(ops.iter(), &mut out);
    out
}

pub fn bytes(r: &mut Rng, b: &[u8], donor: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        match r.below(8) {
            0..=2 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            3 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]);
            }
            4 if n > 0 => b.truncate(r.below(n)),
            5 => {
                let k = r.range(1, 9);
                let x = r.bytes(k);
                b.extend(x)
            }
            6 if n > 0 => {
                let (i, j) = (r.below(n), r.range(1, 40));
                b.drain(i..(i + j).min(n));
            }
            _ if !donor.is_empty() && n > 0 => {
                let i = r.below(donor.len());
                let l = r.range(1, 64).min(donor.len() - i);
                let at = r.below(n);
                let end = (at + l).min(n);
                b.splice(at..end, donor[i..i + l].iter().copied());
            }
            _ => {}
        }
    }
    b
}

fn layer_paths(l: &LayerProof, at: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
    out.push(at.clone());
    for (k, x) in &l.lower_layers {
        at.push(k.clone());
        layer_paths(x, at, out);
        at.pop();
    }
}

fn layer<'a>(l: &'a mut LayerProof, p: &[Vec<u8>]) -> Option<&'a mut LayerProof> {
    match p {
        [] => Some(l),
        [k, r @ ..] => layer(l.lower_layers.get_mut(k)?, r),
    }
}

fn inner(p: &ProofBytes) -> &[u8] {
    match p {
        ProofBytes::Merk(b) | ProofBytes::MMR(b) | ProofBytes::BulkAppendTree(b) | ProofBytes::DenseTree(b) | ProofBytes::CommitmentTree(b) => b,
    }
}

fn wrap(k: usize, b: Vec<u8>) -> ProofBytes {
    match k {
        0 => ProofBytes::Merk(b),
        1 => ProofBytes::MMR(b),
        2 => ProofBytes::BulkAppendTree(b),
        3 => ProofBytes::DenseTree(b),
        _ => ProofBytes::CommitmentTree(b),
    }
}

fn kind(p: &ProofBytes) -> usize {
    match p {
        ProofBytes::Merk(_) => 0,
        ProofBytes::MMR(_) => 1,
        ProofBytes::BulkAppendTree(_) => 2,
        ProofBytes::DenseTree(_) => 3,
        ProofBytes::CommitmentTree(_) => 4,
    }
}

fn copy(l: &LayerProof) -> LayerProof {
    LayerProof {
        merk_proof: wrap(kind(&l.merk_proof), inner(&l.merk_proof).to_vec()),
        lower_layers: l.lower_layers.iter().map(|(k, v)| (k.clone(), copy(v))).collect(),
    }
}

/// the same in the format without the later checks
fn downgrade(l: &LayerProof) -> Option<MerkOnlyLayerProof> {
    let ProofBytes::Merk(b) = &l.merk_proof else { return None };
    let mut lower_layers = BTreeMap::new();
    for (k, x) in &l.lower_layers {
        lower_layers.insert(k.clone(), downgrade(x)?);
    }
    Some(MerkOnlyLayerProof { merk_proof: b.clone(), lower_layers })
}

fn decode(b: &[u8]) -> Option<GroveDBProof> {
    let config = bincode::config::standard().with_big_endian().with_limit::<{ 64 << 20 }>();
    bincode::decode_from_slice(b, config).ok().map(|x| x.0)
}

fn encode(p: &GroveDBProof) -> Vec<u8> {
    bincode::encode_to_vec(p, bincode::config::standard().with_big_endian()).unwrap_or_default()
}

/// replace what a Merk layer says about a key, keeping the layer's hash
fn retell(r: &mut Rng, b: &[u8], key: &[u8]) -> Option<Vec<u8>> {
    let (mut t, inv) = parse(b)?;
    for i in 0..size(&t) {
        let mut n = i;
        let x = unsafe { &mut *nth(&mut t, &mut n)? };
        if key_of(&x.n).map(|k| k.as_slice()) == Some(key) {
            let (k, v, h, c) = parts(&x.n)?;
            let v = fake_value(r, v.as_deref());
            x.n = match (c, r.chance(1, 4)) {
                (None, false) => Node::KVValueHash(k, v, h),
                (c, _) => Node::KVValueHashFeatureType(k, v, h, feature(r, c)),
            };
        }
    }
    let mut ops = vec![];
    emit(&t, inv as u8, r, &mut ops);
    let mut out = vec![];
    encode_into(ops.iter(), &mut out);
    Some(out)
}

fn structural(r: &mut Rng, root: &mut LayerProof, donor: Option<&LayerProof>, q: &Q, st: &mut Vec<&'static str>) {
    for _ in 0..1 + r.weighted(&[6, 2, 1]) {
        let mut ps = vec![];
        layer_paths(root, &mut vec![], &mut ps);
        let p = r.pick(&ps).clone();
        let other = r.pick(&ps).clone();
        let from = layer(root, &other).map(|l| copy(l));
        let l = layer(root, &p).unwrap();
        match r.below(20) {
            0..=8 => {
                l.merk_proof = match &l.merk_proof {
                    ProofBytes::Merk(b) => ProofBytes::Merk(merk(r, b, q, st)),
                    x => {
                        st.push("append-only tree proof");
                        let d = from.as_ref().map(|f| inner(&f.merk_proof).to_vec()).unwrap_or_default();
                        wrap(kind(x), bytes(r, inner(x), &d))
                    }
                };
            }
            9..=12 => {
                // a tree with a layer below is said to be something else, and
                // the layer may be gone
                let ks: Vec<Vec<u8>> = l.lower_layers.keys().cloned().collect();
                if ks.is_empty() {
                    continue;
                }
                let k = r.pick(&ks).clone();
                if let ProofBytes::Merk(b) = &l.merk_proof {
                    if let Some(b) = retell(r, b, &k) {
                        l.merk_proof = ProofBytes::Merk(b);
                    }
                }
                if r.chance(2, 3) {
                    l.lower_layers.remove(&k);
                }
                st.push("tree retold");
            }
            13 => {
                if let Some(k) = l.lower_layers.keys().next().cloned() {
                    l.lower_layers.remove(&k);
                    st.push("layer dropped");
                }
            }
            14 => {
                if let Some(f) = from {
                    let mut ks = vec![];
                    if let ProofBytes::Merk(b) = &l.merk_proof {
                        if let Some((t, _)) = parse(b) {
                            keys(&t, &mut ks);
                        }
                    }
                    let k = if ks.is_empty() { near(r, &ks, q) } else { r.pick(&ks).clone() };
                    l.lower_layers.insert(k, f);
                    st.push("layer added");
                }
            }
            15 => {
                if let Some(f) = from {
                    *l = f;
                    st.push("layer replaced");
                }
            }
            16 => {
                if let Some(f) = from {
                    l.merk_proof = f.merk_proof;
                    st.push("layer replaced");
                }
            }
            17 => {
                let b = inner(&l.merk_proof).to_vec();
                l.merk_proof = wrap(r.below(5), b);
                st.push("kind of layer");
            }
            18 => {
                let ks: Vec<Vec<u8>> = l.lower_layers.keys().cloned().collect();
                if ks.len() > 1 {
                    let (a, b) = (r.pick(&ks).clone(), r.pick(&ks).clone());
                    if a != b {
                        let (x, y) = (l.lower_layers.remove(&a).unwrap(), l.lower_layers.remove(&b).unwrap());
                        l.lower_layers.insert(a, y);
                        l.lower_layers.insert(b, x);
                        st.push("layers swapped");
                    }
                }
            }
            _ => {
                // the same layer from a proof of something else
                let Some(d) = donor else { continue };
                let mut d = copy(d);
                if let Some(x) = layer(&mut d, &p) {
                    if r.chance(1, 2) {
                        l.merk_proof = wrap(kind(&x.merk_proof), inner(&x.merk_proof).to_vec());
                    } else {
                        *l = copy(x);
                    }
                    st.push("layer of another proof");
                }
            }
        }
    }
}

/// a query close to this one
fn relative(r: &mut Rng, q: &Q, m: &Model) -> Q {
    let mut x = if r.chance(1, 2) { gen_pq(r, m) } else { q.clone() };
    match r.below(6) {
        0 => x.limit = Some(r.range(1, 4) as u16),
        1 => x.limit = None,
        2 => x.q.ltr = !x.q.ltr,
        3 => {
            let o = gen_pq(r, m);
            x.q.items = o.q.items;
        }
        4 if !x.path.is_empty() => {
            x.path.pop();
        }
        _ => {
            x.path = q.path.clone();
        }
    }
    x.offset = None;
    x
}

fn forge(r: &mut Rng, s: &Sim, honest: &[u8], q: &Q, m: &Model, pool: &[Vec<u8>], st: &mut Vec<&'static str>) -> Vec<u8> {
    let g = gv();
    let donor = if r.chance(1, 2) {
        let d = relative(r, q, m);
        if d.limit == Some(0) { None } else { s.node.db().prove_query(&d.to(), None, g).value.ok() }
    } else {
        None
    };
    let donor = donor.or_else(|| if pool.is_empty() { None } else { Some(r.pick(pool).clone()) });
    match r.below(16) {
        0 | 1 => {
            st.push("bytes");
            bytes(r, honest, donor.as_deref().unwrap_or(&[]))
        }
        2 | 3 if donor.is_some() => {
            st.push("another query's proof");
            donor.unwrap()
        }
        4 if !pool.is_empty() => {
            st.push("an earlier state's proof");
            r.pick(pool).clone()
        }
        5 => {
            let mut d = relative(r, q, m);
            if d.limit == Some(0) {
                d.limit = None;
            }
            let (a, b) = (q.to(), d.to());
            st.push("a proof of two queries");
            s.node.db().prove_query_many(vec![&a, &b], None, g).value.unwrap_or_else(|_| honest.to_vec())
        }
        x => {
            let base = if x == 6 { donor.clone().unwrap_or(honest.to_vec()) } else { honest.to_vec() };
            let Some(GroveDBProof::V1(mut p)) = decode(&base) else { return base };
            let d = donor.and_then(|d| decode(&d));
            let d = match &d {
                Some(GroveDBProof::V1(d)) => Some(&d.root_layer),
                _ => None,
            };
            structural(r, &mut p.root_layer, d, q, st);
            if s.allow.contains("proof-v0") {
                if let Some(root_layer) = downgrade(&p.root_layer) {
                    st.push("older format");
                    let prove_options = ProveOptions { decrease_limit_on_empty_sub_query_result: r.chance(1, 2) };
                    return encode(&GroveDBProof::V0(GroveDBProofV0 { root_layer, prove_options }));
                }
            }
            encode(&GroveDBProof::V1(p))
        }
    }
}

pub fn tamper(s: &mut Sim, q: &Q, edits: &[Edit]) -> V {
    if q.limit == Some(0) || q.offset.is_some() {
        return Ok(());
    }
    let m = s.expected();
    if m.root.map.is_empty() {
        return Ok(());
    }
    let g = gv();
    let a = peval(&m, q);
    let skip = a.open || a.stale || a.soft;
    let pq = q.to();
    let Ok(root) = s.node.db().root_hash(None, g).value else { return Ok(()) };
    let Ok(honest) = s.node.db().prove_query(&pq, None, g).value else { return Ok(()) };
    let pool = s.proofs.clone();
    if s.proofs.len() < 24 {
        s.proofs.push(honest.clone());
    } else {
        let n = s.proofs.len();
        s.proofs[(edits.first().map_or(0, |e| e.k) % n as u64) as usize] = honest.clone();
    }
    s.st.queries += 1;
    for e in edits {
        let mut r = Rng::new(e.k);
        let mut st = vec![];
        let forged = forge(&mut r, s, &honest, q, &m, &pool, &mut st);
        for k in &st {
            s.st.ev(&format!("forgery: {k}"));
        }
        if forged == honest {
            continue;
        }
        let v0 = matches!(decode(&forged), Some(GroveDBProof::V0(_)));
        // another question than the one that was asked
        let mut asked = q.clone();
        let mut aq = pq.clone();
        let mut ans = None;
        if r.chance(1, 6) {
            asked = relative(&mut r, q, &m);
            if asked.limit == Some(0) {
                continue;
            }
            aq = asked.to();
            let x = peval(&m, &asked);
            ans = Some(x);
        }
        let ans = ans.as_ref().unwrap_or(&a);
        let skip = if asked == *q { skip } else { ans.open || ans.stale || ans.soft };
        match guard(|| judge(&forged, &asked, &aq, ans, &m, root, s.allow.contains("proof-v0") || !v0, skip)) {
            Caught::Done(Ok(n)) => {
                s.st.ev(if n { "forged proofs accepted and exact" } else { "forged proofs refused" });
            }
            Caught::Done(Err(x)) => {
                return viol("forged", format!("{x}; forgery: {}; query {}", st.join(", "), show_q(&asked)));
            }
            Caught::Panicked(x) => {
                return viol("panic", format!("verifying a forged proof panicked: {x}; forgery: {}; query {}", st.join(", "), show_q(&asked)));
            }
            Caught::Crashed => {}
        }
    }
    Ok(())
}

fn judge(f: &[u8], q: &Q, pq: &grovedb::PathQuery, a: &PAns, m: &Model, root: H, judged: bool, skip: bool) -> Result<bool, String> {
    let g = gv();
    let rows: Vec<&PRow> = a.rows.iter().collect();
    let mut any = false;
    let mut look = |what: &str, rows: &[&PRow], x: Result<(H, Vec<grovedb::query_result_type::PathKeyOptionalElementTrio>), grovedb::Error>| -> Result<(), String> {
        if let Ok((h, got)) = x {
            if h == root && judged && !skip {
                any = true;
                compare(rows, &got, what).map_err(|e| format!("a forged proof is accepted by {e}"))?;
            }
        }
        Ok(())
    };
    look("verify", &rows, GroveDb::verify_query_with_options(f, pq, ALL, g))?;
    look("verify (subset)", &rows, GroveDb::verify_query_with_options(f, pq, opts(false, false, true), g))?;
    let raw = GroveDb::verify_query_raw(f, pq, g).map(|(h, rows)| {
        (h, rows.into_iter().map(|r| (r.path, r.key, Element::deserialize(&r.value, g).ok())).collect::<Vec<_>>())
    });
    look("verify_query_raw", &rows, raw)?;
    if let Ok((h, got)) = GroveDb::verify_query(f, pq, g) {
        if h == root && judged && !skip && q.limit.is_none() {
            let fewer: Vec<&PRow> = rows.iter().filter(|r| !plain_empty(r)).copied().collect();
            compare(&fewer, &got, "verify_query").map_err(|e| format!("a forged proof is accepted by {e}"))?;
        }
    }
    if let Ok((h, info, got)) = GroveDb::verify_query_get_parent_tree_info(f, pq, g) {
        let _ = info;
        if h == root && judged && !skip && q.limit.is_none() {
            let fewer: Vec<&PRow> = rows.iter().filter(|r| !plain_empty(r)).copied().collect();
            compare(&fewer, &got, "verify_query_get_parent_tree_info").map_err(|e| format!("a forged proof is accepted by {e}"))?;
        }
    }
    // absence
    if let (Some(l), false) = (q.limit, q.q.has_sub() || q.q.items.iter().any(|i| !i.is_key())) {
        if let Ok((h, got)) = GroveDb::verify_query_with_options(f, pq, opts(true, true, true), g) {
            if h == root && judged && !skip {
                if let Some(sub) = m.sub(&q.path) {
                    let told: BTreeMap<&Vec<u8>, bool> = got.iter().map(|(_, k, e)| (k, e.is_some())).collect();
                    for (k, there) in told {
                        let has = a.rows.iter().any(|r| &r.key == k);
                        if there != has && (there || sub.map.contains_key(k) && a.rows.len() < l as usize) {
                            return Err(format!("a forged proof is accepted by verify with absence: key {} told {}", hx(k), if there { "present" } else { "absent" }));
                        }
                    }
                }
            }
        }
    }
    Ok(any)
}
