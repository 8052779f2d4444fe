//! Trunk and branch chunks: a client collects a whole count tree chunk by
//! chunk, as the chunks themselves tell it to; some of them are forged.
use std::collections::{BTreeMap, BTreeSet};

use grovedb::{Element, GroveDb, GroveTrunkQueryResult, LeafInfo, PathBranchChunkQuery, PathTrunkChunkQuery};
use grovedb::operations::proof::{GroveDBProof, LayerProof, MerkOnlyLayerProof, ProofBytes};
use grovedb_merk::proofs::{Node, tree::Tree};
use grovedb_version::version::GroveVersion;
use serde::{Deserialize, Serialize};

use crate::{check::*, gen_::Gen, model::*, node::*, ops::*, prove::version, rng::*, sim::Sim, sync::{chunk, retell}, tamper::{bytes, fake_value}};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ChunkPlan {
    pub path: Path,
    pub max: u8,
    pub min: Option<u8>,
    /// depths of the branches asked for, in turn; 0: what the trunk says
    pub branch: Vec<u8>,
    /// the number of the chunk that gets forged, and how
    pub edits: Vec<(u16, u64)>,
    pub v: u8,
}

type H = [u8; 32];

pub fn counts(k: Kind) -> bool {
    matches!(k, Kind::Count | Kind::CountSum | Kind::PCount | Kind::PCountSum)
}

/// the height of the tallest AVL tree of `n` nodes
pub fn height(n: u64) -> u8 {
    // fewest nodes of a tree of height h: 1 + those of h-1 and h-2
    let (mut a, mut b, mut h) = (0u128, 1u128, 0u8);
    while b <= n as u128 {
        (a, b) = (b, a + b + 1);
        h += 1;
    }
    h
}

/// how much one element counts
fn weight(e: &Ent) -> u64 {
    match &e.v {
        Val::Tree(s) if counts(s.kind) => s.agg().count,
        _ => 1,
    }
}

fn has_ref(s: &Sub) -> bool {
    s.map.values().any(|e| matches!(e.v, Val::Ref(..)))
}

struct Job<'a> {
    m: &'a Model,
    sub: &'a Sub,
    p: &'a ChunkPlan,
    root: H,
    g: &'static GroveVersion,
    /// forged chunks: their trees are not bound to their keys (see KF-chunk-tree)
    trees: bool,
    n: u16,
    got: BTreeMap<Vec<u8>, ()>,
}

fn same(j: &Job, k: &[u8], e: &Element, forged: bool) -> V {
    let Some(x) = j.sub.map.get(k) else {
        return viol("chunk", format!("a chunk of {} tells of an element at {} that isn't there", pp(&j.p.path), hx(k)));
    };
    if let Err(w) = same_element(x, e) {
        if forged && e.is_any_tree() && !j.trees {
            tag("chunk-tree");
            return Ok(());
        }
        return viol("chunk", format!("a chunk of {} at {}: {w}", pp(&j.p.path), hx(k)));
    }
    Ok(())
}

/// where the hashes that stand for subtrees are
fn cuts(t: &Tree, d: usize, out: &mut BTreeSet<usize>) {
    if matches!(t.node, Node::Hash(_)) {
        out.insert(d);
    }
    for c in [&t.left, &t.right].into_iter().flatten() {
        cuts(&c.tree, d + 1, out);
    }
}

fn forge_layer1(r: &mut Rng, l: &mut LayerProof, deep: usize) {
    if deep > 0 && !l.lower_layers.is_empty() {
        if let Some(x) = l.lower_layers.values_mut().next() {
            return forge_layer1(r, x, deep - 1);
        }
    }
    match r.below(14) {
        0 => l.merk_proof = ProofBytes::Merk(vec![]),
        1 => {
            let b = match &l.merk_proof {
                ProofBytes::Merk(b) => b.clone(),
                _ => return,
            };
            l.merk_proof = match r.below(4) {
                0 => ProofBytes::MMR(b),
                1 => ProofBytes::BulkAppendTree(b),
                2 => ProofBytes::DenseTree(b),
                _ => ProofBytes::CommitmentTree(b),
            }
        }
        2 => l.lower_layers.clear(),
        3 => {
            if let Some((_, x)) = l.lower_layers.pop_first() {
                l.lower_layers.insert(vec![r.next() as u8], x);
            }
        }
        4 => {
            if let ProofBytes::Merk(b) = &mut l.merk_proof {
                *b = bytes(r, b, b);
            }
        }
        _ => {
            if let ProofBytes::Merk(b) = &mut l.merk_proof {
                for _ in 0..r.range(1, 2) {
                    *b = chunk(r, b);
                }
            }
        }
    }
}

/// the parent's word about the tree is changed: another count, another kind
fn forge_parent(r: &mut Rng, l: &mut LayerProof, deep: usize) {
    if deep > 0 {
        if let Some(x) = l.lower_layers.values_mut().next() {
            return forge_parent(r, x, deep - 1);
        }
        return;
    }
    let ProofBytes::Merk(b) = &mut l.merk_proof else { return };
    let Some((t, _)) = crate::tamper::parse(b) else { return };
    let mut t = t;
    // the node that tells a value
    fn find(r: &mut Rng, t: &mut crate::tamper::T) -> bool {
        if let Node::KVValueHash(_, v, _) | Node::KVValueHashFeatureType(_, v, ..) | Node::KVValueHashFeatureTypeWithChildHash(_, v, ..) = &mut t.n {
            *v = if r.chance(1, 2) { retell(r, &v.clone()) } else { fake_value(r, Some(&v.clone())) };
            return true;
        }
        for c in [&mut t.l, &mut t.r].into_iter().flatten() {
            if find(r, c) {
                return true;
            }
        }
        false
    }
    if !find(r, &mut t) {
        return;
    }
    let mut ops = vec![];
    crate::tamper::emit(&t, 0, r, &mut ops);
    let mut out = vec![];
    grovedb_merk::proofs::encode_into(ops.iter(), &mut out);
    *b = out;
    if r.chance(1, 2) {
        if let Some(x) = l.lower_layers.values_mut().next() {
            x.merk_proof = ProofBytes::Merk(vec![]);
        }
    }
}

fn v0_of(l: &LayerProof) -> Option<MerkOnlyLayerProof> {
    let ProofBytes::Merk(b) = &l.merk_proof else { return None };
    let mut lower_layers = BTreeMap::new();
    for (k, v) in &l.lower_layers {
        lower_layers.insert(k.clone(), v0_of(v)?);
    }
    Some(MerkOnlyLayerProof { merk_proof: b.clone(), lower_layers })
}

/// a trunk as a liar would like it
fn forge_trunk(r: &mut Rng, honest: &[u8], other: &[u8], depth: usize) -> Vec<u8> {
    let conf = bincode::config::standard().with_big_endian().with_no_limit();
    let Ok((GroveDBProof::V1(mut p), _)) = bincode::decode_from_slice::<GroveDBProof, _>(honest, conf) else {
        return bytes(r, honest, other);
    };
    match r.below(12) {
        0 => return bytes(r, honest, other),
        1 if !other.is_empty() => return other.to_vec(),
        2 => {
            // the same in the old format
            if let Some(root_layer) = v0_of(&p.root_layer) {
                let x = GroveDBProof::V0(grovedb::operations::proof::GroveDBProofV0 { root_layer, prove_options: Default::default() });
                return bincode::encode_to_vec(x, conf).unwrap_or_default();
            }
        }
        3..=5 => forge_parent(r, &mut p.root_layer, depth - 1),
        6 => {
            let d = r.below(depth + 1);
            forge_layer1(r, &mut p.root_layer, d);
        }
        _ => forge_layer1(r, &mut p.root_layer, depth),
    }
    bincode::encode_to_vec(GroveDBProof::V1(p), conf).unwrap_or_default()
}

/// the elements that hang below a node, in the real tree
fn ranged<'a>(sub: &'a Sub, known: &BTreeSet<Vec<u8>>, k: &[u8]) -> Vec<&'a Vec<u8>> {
    let lo = known.range::<[u8], _>((std::ops::Bound::Unbounded, std::ops::Bound::Excluded(k))).next_back();
    let hi = known.range::<[u8], _>((std::ops::Bound::Excluded(k), std::ops::Bound::Unbounded)).next();
    sub.map.keys().filter(|x| lo.is_none_or(|l| *x > l) && hi.is_none_or(|h| *x < h)).collect()
}

/// one accepted chunk: its elements and where it says more is
fn take(
    j: &mut Job,
    elements: &BTreeMap<Vec<u8>, Element>,
    leaves: &BTreeMap<Vec<u8>, LeafInfo>,
    top: Option<&[u8]>,
    forged: bool,
) -> V {
    for (k, e) in elements {
        same(j, k, e, forged)?;
        if j.got.insert(k.clone(), ()).is_some() && top != Some(k) {
            return viol("chunk", format!("the element at {} of {} came twice", hx(k), pp(&j.p.path)));
        }
    }
    let known: BTreeSet<Vec<u8>> = j.got.keys().cloned().collect();
    for (k, l) in leaves {
        if !elements.contains_key(k) {
            return viol("chunk", format!("a leaf {} that isn't part of its chunk", hx(k)));
        }
        if matches!(j.sub.kind, Kind::PCount | Kind::PCountSum) {
            let below: u64 = ranged(j.sub, &known, k).into_iter().map(|x| weight(&j.sub.map[x])).sum();
            if l.count.is_some_and(|c| c != below) || l.count.is_none() && !forged {
                return viol("chunk", format!("{} elements are said to be below {} of {}, it is {below}", l.count.map_or("unknown".into(), |c| c.to_string()), hx(k), pp(&j.p.path)));
            }
        }
    }
    Ok(())
}

/// walking to a leaf with what the chunk tells
fn traces(
    j: &Job,
    elements: &BTreeMap<Vec<u8>, Element>,
    leaves: &BTreeMap<Vec<u8>, LeafInfo>,
    trace: impl Fn(&[u8]) -> Option<(Vec<u8>, LeafInfo)>,
    below: &BTreeSet<&Vec<u8>>,
) -> V {
    let mut lead: BTreeMap<&Vec<u8>, &Vec<u8>> = BTreeMap::new();
    let known: BTreeSet<Vec<u8>> = elements.keys().cloned().collect();
    for l in leaves.keys() {
        for x in ranged(j.sub, &known, l) {
            lead.entry(x).or_insert(l);
        }
    }
    for k in below {
        let got = trace(k);
        if elements.contains_key(*k) {
            if got.is_some() {
                return viol("chunk", format!("{} is in the chunk but said to be below {}", hx(k), hx(&got.unwrap().0)));
            }
            continue;
        }
        match got {
            Some((l, i)) if leaves.get(&l) == Some(&i) && ranged(j.sub, &known, &l).contains(k) => {}
            x => {
                return viol("chunk", format!("{} of {} is said to be below {}", hx(k), pp(&j.p.path), x.map_or("nothing".into(), |x| hx(&x.0))));
            }
        }
    }
    Ok(())
}

/// a subtree above a leaf, for those who hide what they look for
fn above(s: &Sim, j: &Job, t: &Tree, leaf: &[u8], want: u64, got: Option<(u8, u64, Vec<u8>, H)>) -> V {
    // the path from the top to the leaf
    let mut path: Vec<&Tree> = vec![];
    let mut x = Some(t);
    while let Some(n) = x {
        path.push(n);
        let Some(k) = n.key() else { break };
        x = match leaf.cmp(k) {
            std::cmp::Ordering::Equal => None,
            std::cmp::Ordering::Less => n.left.as_ref().map(|c| &*c.tree),
            std::cmp::Ordering::Greater => n.right.as_ref().map(|c| &*c.tree),
        };
    }
    let at = path.len() - 1;
    let Some((up, count, key, hash)) = got else {
        if at > 1 {
            return viol("chunk", format!("no subtree above {} is named, though it is {at} levels down", hx(leaf)));
        }
        return Ok(());
    };
    let up = up as usize;
    if up == 0 || up >= at || path[at - up].key() != Some(&key[..]) || path[at - up].hash().unwrap() != hash {
        return viol("chunk", format!("{} is named as {up} levels above {}", hx(&key), hx(leaf)));
    }
    if matches!(j.sub.kind, Kind::PCount | Kind::PCountSum) {
        // all of the tree's keys between those the path excludes
        let (mut lo, mut hi) = (None, None);
        for n in &path[..at - up] {
            let k = n.key().unwrap();
            if k < &key[..] { lo = Some(k) } else { hi = Some(k) }
        }
        // keys above the top of this chunk bound it too
        let real: u64 = j.sub.map.iter().filter(|(x, _)| lo.is_none_or(|l| &x[..] > l) && hi.is_none_or(|h| &x[..] < h)).map(|(_, e)| weight(e)).sum();
        if count != real && std::ptr::eq(t, path[0]) && j.n == 1 {
            return viol("chunk", format!("{} is said to have {count} elements below it, it is {real}", hx(&key)));
        }
        if count < want && up != at - 1 {
            return viol("chunk", format!("{} has {count} elements below it, {want} are asked for, and there is one above it", hx(&key)));
        }
    }
    let q = PathBranchChunkQuery::new(j.p.path.clone(), key.clone(), 3);
    let b = match s.node.db().prove_branch_chunk(&q, j.g).value {
        Ok(b) => b,
        Err(e) => return viol("read-error", format!("no branch chunk for {}: {e}", hx(&key))),
    };
    match GroveDb::verify_branch_chunk_proof(&b, &q, hash, j.g) {
        Ok(x) => {
            for (k, e) in &x.elements {
                same(j, k, e, false)?;
            }
            Ok(())
        }
        Err(_) if has_ref(j.sub) => Ok(()),
        Err(e) => viol("chunk", format!("the branch at {} is refused under the hash the trunk tells: {e}", hx(&key))),
    }
}

fn want_depths(j: &Job, t: &GroveTrunkQueryResult, forged: bool) -> V {
    let n = j.sub.agg().count;
    let bad = |w: String| viol("chunk", format!("trunk of {} ({n} elements, at most {}, at least {:?} levels): {w}", pp(&j.p.path), j.p.max, j.p.min));
    if n == 0 {
        return Ok(());
    }
    let h = height(n);
    if t.max_tree_depth != h {
        return bad(format!("depth {} is told, {h} is right", t.max_tree_depth));
    }
    let sum: u32 = t.chunk_depths.iter().map(|x| *x as u32).sum();
    if sum != h as u32 || t.chunk_depths.iter().any(|d| *d > j.p.max) || t.chunk_depths.len() != (h as usize).div_ceil(j.p.max as usize) {
        return bad(format!("chunk depths {:?} for a depth of {h}", t.chunk_depths));
    }
    let first = t.chunk_depths[0];
    let hides = matches!(j.sub.kind, Kind::PCount | Kind::PCountSum);
    match j.p.min.filter(|_| hides) {
        Some(m) if t.chunk_depths.len() > 1 && first < m => return bad(format!("chunk depths {:?}", t.chunk_depths)),
        None if t.chunk_depths.iter().any(|d| *d + 1 < first || *d > first) => return bad(format!("uneven chunk depths {:?}", t.chunk_depths)),
        _ => {}
    }
    let mut at = BTreeSet::new();
    cuts(&t.tree, 0, &mut at);
    if !forged && at.iter().any(|d| *d != first as usize) {
        return bad(format!("chunk depths {:?}, but it is cut at {at:?}", t.chunk_depths));
    }
    if at.iter().any(|d| *d > first as usize + 1) {
        return bad(format!("more levels than asked for: {at:?}"));
    }
    Ok(())
}

pub fn run(s: &mut Sim, p: &ChunkPlan) -> V {
    let m = s.expected();
    let Some(sub) = m.sub(&p.path) else { return Ok(()) };
    let g = version(p.v);
    let old = g.grovedb_versions.operations.proof.prove_trunk_chunk_non_serialized == 0;
    let mut q = PathTrunkChunkQuery::new(p.path.clone(), p.max);
    q.min_depth = p.min;
    let p = &ChunkPlan { max: q.max_depth, ..p.clone() };
    let hides = matches!(sub.kind, Kind::PCount | Kind::PCountSum);
    let odd = p.min.is_some_and(|x| hides && (x == 0 || x > p.max)) && !sub.map.is_empty();
    let root = match s.node.db().root_hash(None, g).value {
        Ok(h) => h,
        Err(e) => return viol("read-error", format!("root hash failed: {e}")),
    };
    let refs = has_ref(sub) && !s.allow.contains("chunk-ref");
    if refs {
        tag("chunk-ref");
    }
    let honest = match s.node.db().prove_trunk_chunk(&q, g).value {
        Ok(b) => b,
        Err(_) if !counts(sub.kind) || p.path.is_empty() || odd => {
            s.st.ev("chunks refused");
            return Ok(());
        }
        Err(_) if !sub.map.is_empty() && sub.agg().count == 0 && !s.allow.contains("chunk-zero") => {
            tag("chunk-zero");
            return Ok(());
        }
        Err(e) => return viol("read-error", format!("no trunk chunk for {} ({} elements): {e}", pp(&p.path), sub.map.len())),
    };
    if !counts(sub.kind) || odd {
        return viol("chunk", format!("a trunk chunk of {}, a {:?} tree, min {:?} max {}", pp(&p.path), sub.kind, p.min, p.max));
    }
    let mut j = Job { m: &m, sub, p, root, g, trees: s.allow.contains("chunk-tree"), n: 0, got: BTreeMap::new() };
    let res = guard(|| collect(s, &mut j, &q, honest, refs, old));
    match res {
        Caught::Done(x) => x,
        Caught::Panicked(e) => viol("panic", format!("while taking in chunks of {}: {e}", pp(&p.path))),
        Caught::Crashed => Ok(()),
    }
}

fn collect(s: &mut Sim, j: &mut Job, q: &PathTrunkChunkQuery, honest: Vec<u8>, refs: bool, old: bool) -> V {
    let p = j.p;
    let edit = |n: u16| p.edits.iter().filter(move |e| e.0 == n).map(|e| e.1);
    let mut trunk = None;
    for k in edit(0) {
        let mut r = Rng::new(k);
        let other = s.proofs.last().cloned().unwrap_or_default();
        let f = forge_trunk(&mut r, &honest, &other, p.path.len());
        s.st.ev("forged trunks");
        let conf = bincode::config::standard().with_big_endian().with_limit::<{ 1 << 28 }>();
        let v0 = matches!(bincode::decode_from_slice::<GroveDBProof, _>(&f, conf), Ok((GroveDBProof::V0(_), _)));
        match GroveDb::verify_trunk_chunk_proof(&f, q, j.g) {
            Ok((h, t)) if h == j.root && f != honest && (!v0 || old && f == honest) => {
                s.st.ev("forged trunks believed");
                trunk = Some((t, true));
                break;
            }
            _ => {}
        }
    }
    if s.proofs.len() > 24 {
        s.proofs.clear();
    }
    s.proofs.push(honest.clone());
    let (t, forged) = match trunk {
        Some(t) => t,
        None => match GroveDb::verify_trunk_chunk_proof(&honest, q, j.g) {
            Ok((h, t)) if h == j.root => (t, false),
            Ok(_) => return viol("chunk", format!("the trunk of {} has another root hash", pp(&p.path))),
            Err(_) if refs => return Ok(()),
            Err(e) => return viol("chunk", format!("the honest trunk of {} (max {}, min {:?}) is refused: {e}", pp(&p.path), p.max, p.min)),
        },
    };
    s.st.ev("trunks taken in");
    want_depths(j, &t, forged)?;
    take(j, &t.elements, &t.leaf_keys, None, forged)?;
    if j.sub.map.is_empty() != t.elements.is_empty() {
        return viol("chunk", format!("an empty trunk of {}, which has {} elements", pp(&p.path), j.sub.map.len()));
    }
    let all: BTreeSet<&Vec<u8>> = j.sub.map.keys().collect();
    j.n = 1;
    traces(j, &t.elements, &t.leaf_keys, |k| t.trace_key_to_leaf(k), &all)?;
    if !forged {
        for (i, l) in t.leaf_keys.keys().take(3).enumerate() {
            let want = [0, 5, 1000][i];
            above(s, j, &t.tree, l, want, t.get_ancestor(l, want))?;
        }
    }
    // level, key, hash
    let mut open: Vec<(usize, Vec<u8>, H)> = t.leaf_keys.iter().map(|(k, l)| (1, k.clone(), l.hash)).collect();
    let mut n = 0usize;
    while let Some((lvl, k, h)) = open.pop() {
        let d = match p.branch.get(n % p.branch.len().max(1)).copied().unwrap_or(0) {
            // a branch starts at the leaf itself, which is there already
            0 => t.chunk_depths.get(lvl).copied().unwrap_or(1) + 1,
            x => x + 1,
        };
        n += 1;
        if n > 4 * j.sub.map.len() + 16 {
            return viol("chunk-progress", format!("{n} branches of {} asked for, {} elements", pp(&p.path), j.sub.map.len()));
        }
        let bq = PathBranchChunkQuery::new(p.path.clone(), k.clone(), d);
        let honest = match s.node.db().prove_branch_chunk(&bq, j.g).value {
            Ok(b) => b,
            Err(e) => return viol("read-error", format!("no branch chunk for {} of {}: {e}", hx(&k), pp(&p.path))),
        };
        let mut got = None;
        for e in edit(n as u16) {
            let mut r = Rng::new(e);
            let mut f = honest.clone();
            match r.below(8) {
                0 => f = bytes(&mut r, &f, &honest),
                1 => {
                    // that of another key or depth
                    let k2 = j.sub.map.keys().nth(r.below(j.sub.map.len())).unwrap().clone();
                    let q2 = PathBranchChunkQuery::new(p.path.clone(), k2, r.range(1, 4) as u8);
                    if let Ok(b) = s.node.db().prove_branch_chunk(&q2, j.g).value {
                        f = b;
                    }
                }
                2..=4 => f = chunk(&mut r, &f),
                _ => {
                    f = chunk(&mut r, &f);
                    f = chunk(&mut r, &f);
                }
            }
            s.st.ev("forged branches");
            if f == honest {
                continue;
            }
            if let Ok(b) = GroveDb::verify_branch_chunk_proof(&f, &bq, h, j.g) {
                s.st.ev("forged branches believed");
                got = Some((b, true));
                break;
            }
        }
        let (b, forged) = match got {
            Some(x) => x,
            None => match GroveDb::verify_branch_chunk_proof(&honest, &bq, h, j.g) {
                Ok(b) => (b, false),
                Err(_) if refs => return Ok(()),
                Err(e) => return viol("chunk", format!("the honest branch at {} of {} (depth {d}) is refused: {e}", hx(&k), pp(&p.path))),
            },
        };
        s.st.ev("branches taken in");
        if b.branch_root_hash != h || !b.elements.contains_key(&k) {
            return viol("chunk", format!("the branch at {} is another one", hx(&k)));
        }
        if !forged {
            let mut at = BTreeSet::new();
            cuts(&b.tree, 0, &mut at);
            if at.iter().any(|x| *x != bq.depth as usize) {
                return viol("chunk", format!("a branch of depth {} is cut at {at:?}", bq.depth));
            }
        }
        let here: BTreeSet<Vec<u8>> = j.got.keys().cloned().collect();
        let below: BTreeSet<&Vec<u8>> = ranged(j.sub, &here, &k).into_iter().collect();
        take(j, &b.elements, &b.leaf_keys, Some(&k), forged)?;
        // keys of the branch bound its leaves together with those known before
        let mut known = here;
        known.extend(b.elements.keys().cloned());
        for x in &below {
            if b.elements.contains_key(*x) {
                continue;
            }
            match b.trace_key_to_leaf(x) {
                Some((l, i)) if b.leaf_keys.get(&l) == Some(&i) && ranged(j.sub, &known, &l).contains(x) => {}
                y => return viol("chunk", format!("{} is said to be below {} in the branch {} of {}", hx(x), y.map_or("nothing".into(), |y| hx(&y.0)), hx(&k), pp(&p.path))),
            }
        }
        if !forged && n <= 2 {
            for (i, l) in b.leaf_keys.keys().take(2).enumerate() {
                let want = [0, 1000][i];
                j.n = 2;
                above(s, j, &b.tree, l, want, b.get_ancestor(l, want))?;
            }
        }
        open.extend(b.leaf_keys.iter().map(|(k, l)| (lvl + 1, k.clone(), l.hash)));
    }
    let _ = j.m;
    if j.got.len() != j.sub.map.len() {
        return viol("chunk", format!("all chunks of {} together have {} elements, there are {}", pp(&p.path), j.got.len(), j.sub.map.len()));
    }
    s.st.ev("trees collected");
    Ok(())
}

/// many elements at once, for a tall tree
pub fn grow(g: &mut Gen, s: &Sim) -> Option<W> {
    let mut good: Vec<(usize, Path, Kind)> = s
        .m
        .subtrees()
        .into_iter()
        .filter(|(p, k)| counts(*k) && !p.is_empty())
        .map(|(p, k)| (s.m.sub(&p).map_or(0, |x| x.map.len()), p, k))
        .collect();
    good.sort_by_key(|x| std::cmp::Reverse(x.0));
    let (n, path, kind) = good.first()?;
    if *n > 250 {
        return None;
    }
    let sums = matches!(kind, Kind::CountSum | Kind::PCountSum);
    let mut keys = std::collections::BTreeSet::new();
    for _ in 0..g.r.range(10, 90) {
        keys.insert(if g.r.chance(1, 2) { vec![g.r.next() as u8, g.r.next() as u8] } else { g.new_key() });
    }
    let taken = &s.m.sub(path)?.map;
    keys.retain(|k| !k.is_empty() && !taken.contains_key(k));
    let mut keys: Vec<B> = keys.into_iter().collect();
    let at = g.r.below(keys.len().max(1));
    keys.rotate_left(at);
    Some(W::Batch(
        keys.into_iter()
            .map(|key| {
                let el = if sums && g.r.chance(1, 2) { El::Sum(g.r.below(99) as i64) } else { El::Item(vec![g.r.next() as u8]) };
                BOp { path: path.clone(), key, k: BKind::InsertOrReplace(ElF { el, fl: None }) }
            })
            .collect(),
    ))
}

pub fn gen_plan(g: &mut Gen, s: &Sim) -> ChunkPlan {
    let subs = s.m.subtrees();
    let mut good: Vec<(usize, Path)> = subs
        .iter()
        .filter(|(p, k)| counts(*k) && !p.is_empty())
        .map(|(p, _)| (s.m.sub(p).map_or(0, |x| x.map.len()), p.clone()))
        .collect();
    good.sort_by_key(|x| std::cmp::Reverse(x.0));
    let r = &mut g.r;
    let path = if good.is_empty() || r.chance(1, 20) {
        subs[r.below(subs.len())].0.clone()
    } else if r.chance(2, 3) {
        good[0].1.clone()
    } else {
        good[r.below(good.len())].1.clone()
    };
    let max = r.range(1, 6) as u8;
    let min = r.chance(1, 2).then(|| if r.chance(1, 10) { r.below(9) as u8 } else { r.range(1, max as usize) as u8 });
    let branch = (0..r.below(4)).map(|_| r.below(4) as u8).collect();
    let edits = if r.chance(1, 2) { (0..r.range(1, 12)).map(|_| (r.below(8) as u16, r.next() >> 1)).collect() } else { vec![] };
    ChunkPlan { path, max, min, branch, edits, v: r.next() as u8 }
}
