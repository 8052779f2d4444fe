//! Elements with epoch-based storage flags: who paid which bytes in which
//! epoch, and who gets them back. The real database over the simulated engine
//! updates flagged elements the way a client does; a ledger kept from the
//! reported costs alone says what must be in the flags and what may be given
//! back. Beside it, the operations on flags are compared with a plain account.
use std::{
    collections::BTreeMap,
    sync::{
        Arc,
        atomic::{AtomicI64, AtomicU32, Ordering},
    },
};

use grovedb::{
    Element, ElementFlags, GroveDb, batch::{QualifiedGroveDbOp, SubelementsDeletionBehavior}, operations::delete::DeleteOptions,
    reference_path::ReferencePathType,
};
use grovedb_costs::{
    OperationCost,
    storage_cost::{StorageCost, removal::StorageRemovedBytes},
};
use grovedb_epoch_based_storage_flags::{
    MINIMUM_NON_BASE_FLAGS_SIZE, MergingOwnersStrategy, StorageFlags, error::StorageFlagsError,
};
use grovedb_merk::tree_type::TreeType;
use rocksdb::sim::{Call, FailKind, Hook, Verdict, World};

use crate::{check::*, comp::*, node::gv, ops::B, plan::*, rng::*, sim::Stats};

type Owner = [u8; 32];
type Book = BTreeMap<(Owner, u16), i64>;
const MIN: i64 = MINIMUM_NON_BASE_FLAGS_SIZE as i64;

/// the k-th call that can report an error fails
#[derive(Default)]
struct Fuse {
    n: AtomicI64,
    fired: AtomicU32,
    calls: AtomicU32,
}
impl Hook for Fuse {
    fn at(&self, _: &str, call: Call) -> Verdict {
        self.calls.fetch_add(1, Ordering::SeqCst);
        if matches!(call, Call::Get | Call::TxnPut | Call::TxnDelete | Call::Commit) && self.n.fetch_sub(1, Ordering::SeqCst) == 0 {
            self.fired.fetch_add(1, Ordering::SeqCst);
            return Verdict::Fail(FailKind::Io);
        }
        Verdict::Proceed
    }
}

#[derive(Clone, Default)]
struct Elem {
    /// bytes paid and not given back, per epoch, whoever they belong to now
    book: BTreeMap<u16, i64>,
    base: u16,
    /// what the flags said when last read
    flags: Option<StorageFlags>,
    /// entries of the flags that were dropped with their own bytes unpaid
    dropped: i64,
    raw: B,
}

pub struct FlagsM {
    #[allow(dead_code)]
    world: Arc<World>,
    fuse: Arc<Fuse>,
    db: Option<GroveDb>,
    epoch: u16,
    els: BTreeMap<u8, Elem>,
    /// everything charged minus everything given back
    balance: i64,
    /// an update of several elements leaves the ledger of single ones behind
    multi: bool,
    /// sums have no meaning in this kind of tree
    plain: bool,
    r: Rng,
    left: usize,
    seen: B,
    st: Stats,
}

fn owner(n: u64) -> Option<Owner> {
    match n {
        0 => None,
        n => Some([n as u8; 32]),
    }
}

fn sections(b: &StorageRemovedBytes) -> Option<Book> {
    match b {
        StorageRemovedBytes::NoStorageRemoval => Some(Book::new()),
        StorageRemovedBytes::BasicStorageRemoval(0) => Some(Book::new()),
        StorageRemovedBytes::BasicStorageRemoval(_) => None,
        StorageRemovedBytes::SectionedStorageRemoval(m) => {
            let mut o = Book::new();
            for (id, e) in m {
                for (epoch, n) in e.iter() {
                    *o.entry((*id, epoch)).or_default() += *n as i64;
                }
            }
            Some(o)
        }
    }
}

fn entries(f: &StorageFlags) -> BTreeMap<u16, u32> {
    f.epoch_index_map().cloned().unwrap_or_default()
}

fn jit(e: StorageFlagsError) -> grovedb::Error {
    grovedb::Error::JustInTimeElementFlagsClientError(e.to_string())
}

/// what is given back for `n` bytes of an element with these flags: newest
/// epoch first, each epoch but the first keeping the bytes its entry occupies
fn lifo(f: &StorageFlags, n: i64) -> BTreeMap<u16, i64> {
    let mut left = n;
    let mut o = BTreeMap::new();
    for (e, v) in entries(f).iter().rev() {
        let take = left.min((*v as i64 - MIN).max(0));
        *o.entry(*e).or_default() += take;
        left -= take;
    }
    *o.entry(*f.base_epoch()).or_default() += left;
    o.retain(|_, v| *v != 0);
    o
}

const KEYS: u8 = 10;

/// keys of different lengths for references to point at
fn target(size: usize) -> B {
    vec![0xAA; [1, 20, 60, 120, 200][size % 5]]
}

impl FlagsM {
    pub fn new(seed: u64) -> V<Self> {
        let mut r = Rng::new(seed);
        let world = World::new();
        world.enter();
        let fuse = Arc::new(Fuse::default());
        fuse.n.store(-1, Ordering::SeqCst);
        world.set_hook(Some(fuse.clone()));
        let db = match GroveDb::open("/sim/flags") {
            Ok(d) => d,
            Err(e) => return viol("flags", format!("open: {e}")),
        };
        let root: &[&[u8]] = &[];
        let tt = r.below(5);
        let t = match tt {
            0 => Element::empty_sum_tree(),
            1 => Element::new_count_tree(None),
            2 => Element::new_count_sum_tree(None),
            3 => Element::new_big_sum_tree(None),
            _ => Element::empty_tree(),
        };
        if let Err(e) = db.insert(root, b"t", t, None, None, gv()).unwrap() {
            return viol("flags", format!("tree: {e}"));
        }
        let path: &[&[u8]] = &[b"t"];
        for i in 0..5 {
            if let Err(e) = db.insert(path, &target(i), Element::new_item(vec![]), None, None, gv()).unwrap() {
                return viol("flags", format!("target: {e}"));
            }
        }
        let left = r.range(5, 60);
        let multi = r.chance(1, 6);
        Ok(FlagsM {
            world,
            fuse,
            db: Some(db),
            epoch: r.below(3) as u16,
            els: BTreeMap::new(),
            balance: 0,
            multi,
            plain: tt == 1 || tt == 4,
            r,
            left,
            seen: vec![],
            st: Stats::default(),
        })
    }

    fn db(&self) -> &GroveDb {
        self.db.as_ref().unwrap()
    }

    fn batch(&self, ops: Vec<QualifiedGroveDbOp>) -> (Result<(), grovedb::Error>, OperationCost) {
        let c = self.db().apply_batch_with_element_flags_update(
            ops,
            None,
            |cost, old, new| StorageFlags::update_element_flags(cost, old, new).map_err(jit),
            |flags, k, v| StorageFlags::split_removal_bytes(flags, k, v).map_err(jit),
            None,
            gv(),
        );
        (c.value, c.cost)
    }

    fn key_ok(&self, k: u8) -> bool {
        (1..=KEYS).contains(&k) && !(self.plain && (k == 7 || k == 8))
    }

    fn del_op(k: u8) -> QualifiedGroveDbOp {
        let path = vec![b"t".to_vec()];
        if k == 10 {
            QualifiedGroveDbOp::delete_tree_op(path, Self::key(k), TreeType::NormalTree, SubelementsDeletionBehavior::DeleteChildren)
        } else {
            QualifiedGroveDbOp::delete_op(path, Self::key(k))
        }
    }

    fn key(k: u8) -> B {
        vec![k; k as usize % 4 + 1]
    }

    fn element(k: u8, size: usize, f: Option<ElementFlags>) -> Element {
        match k {
            7 => Element::new_sum_item_with_flags(size as i64 * 1000 - 5, f),
            8 => Element::new_item_with_sum_item_with_flags(vec![8; size], size as i64 - 20, f),
            9 => Element::new_reference_with_flags(
                ReferencePathType::SiblingReference(target(size)),
                f,
            ),
            10 => Element::empty_tree_with_flags(f),
            _ => Element::new_item_with_flags(vec![7; size], f),
        }
    }

    fn read(&self, k: u8) -> V<Option<Element>> {
        match self.db().get_raw([b"t".as_slice()].as_ref().into(), &Self::key(k), None, gv()).unwrap() {
            Ok(e) => Ok(Some(e)),
            Err(grovedb::Error::PathKeyNotFound(_)) => Ok(None),
            Err(e) => viol("flags", format!("reading element {k}: {e}")),
        }
    }

    /// everything is as the last accepted update left it
    fn unchanged(&self, why: &str) -> V {
        for k in 1..=KEYS {
            let want = self.els.get(&k);
            let got = self.read(k)?;
            match (&got, want) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    let raw = g.serialize(gv()).unwrap_or_default();
                    ensure(raw == w.raw, "flags", || {
                        format!("{why}: element {k} is {g:?} but was {:?}", Element::deserialize(&w.raw, gv()))
                    })?;
                }
                _ => return viol("flags", format!("{why}: element {k} is {got:?}, expected {}", want.is_some())),
            }
        }
        Ok(())
    }

    /// take the flags of an element as stored
    fn reload(&mut self, k: u8) -> V<StorageFlags> {
        let Some(el) = self.read(k)? else {
            return viol("flags", format!("element {k} is gone after an accepted update"));
        };
        let raw = el.serialize(gv()).unwrap_or_default();
        let f = match StorageFlags::map_some_element_flags_ref(el.get_flags()) {
            Ok(Some(f)) => f,
            o => return viol("flags", format!("element {k} carries flags {:?} read as {o:?}", el.get_flags())),
        };
        codec(&f)?;
        let e = self.els.entry(k).or_default();
        e.raw = raw;
        e.flags = Some(f.clone());
        Ok(f)
    }

    fn put(&mut self, k: u8, size: usize, own: Option<Owner>, back: u16, fail: Option<u32>) -> V {
        if !self.key_ok(k) {
            return Ok(());
        }
        // a client's epochs only go forward; one that asks for an epoch before
        // the element existed is wrong
        let at = match self.els.get(&k) {
            Some(e) if back > 0 && e.base >= back => e.base - back,
            _ => self.epoch,
        };
        let given = StorageFlags::new_single_epoch(at, own);
        let el = Self::element(k, size, given.to_some_element_flags());
        let op = QualifiedGroveDbOp::insert_or_replace_op(vec![b"t".to_vec()], Self::key(k), el.clone());
        let old = self.els.get(&k).cloned();
        let what = |s: &str| {
            format!(
                "writing {size} bytes to element {k} for {own:?} in epoch {at} over {:?} {:?}: {s}",
                old.as_ref().map(|o| &o.book),
                old.as_ref().map(|o| &o.flags)
            )
        };
        self.fuse.fired.store(0, Ordering::SeqCst);
        self.fuse.n.store(fail.map_or(-1, |n| n as i64), Ordering::SeqCst);
        let (res, cost) = self.batch(vec![op]);
        self.fuse.n.store(-1, Ordering::SeqCst);
        let fired = self.fuse.fired.load(Ordering::SeqCst) > 0;
        if fired {
            *self.st.faults.entry("fail-call".into()).or_default() += 1;
        }
        // an update for an epoch before the first is refused when it changes
        // the size
        let early = old.as_ref().and_then(|o| o.flags.as_ref()).is_some_and(|f| at < *f.base_epoch());
        // an element that gets an owner and loses as many bytes as that takes
        // finds no fixed point
        let cyclic = matches!(&res, Err(e) if e.to_string().contains("too many times"))
            && own.is_some()
            && old.as_ref().and_then(|o| o.flags.as_ref()).is_some_and(|f| f.owner_id().is_none());
        if let Err(e) = res {
            ensure(fired || cyclic || early, "flags", || what(&format!("{e}")))?;
            self.st.writes_refused += 1;
            return self.unchanged("a refused update");
        }
        ensure(!fired, "flags", || what("accepted although a storage call failed"))?;
        self.st.writes_ok += 1;
        let sc = &cost.storage_cost;
        let Some(rem) = sections(&sc.removed_bytes) else {
            return viol("flags", what(&format!("bytes given back to nobody: {sc:?}")));
        };
        let f = self.reload(k)?;
        let mut want = el.clone();
        want.set_flags(f.to_some_element_flags());
        let got = self.read(k)?;
        ensure(got.as_ref() == Some(&want), "flags", || what(&format!("stored as {got:?}")))?;
        self.charge(k, at, own, old.clone(), sc.added_bytes as i64, &rem, &f).map_err(|v| Viol { class: v.class, msg: what(&v.msg) })
    }

    fn charge(
        &mut self,
        k: u8,
        at: u16,
        own: Option<Owner>,
        old: Option<Elem>,
        add: i64,
        rem: &Book,
        f: &StorageFlags,
    ) -> V {
        let total: i64 = rem.values().sum();
        self.balance += add - total;
        let e = self.els.get_mut(&k).unwrap();
        let Some(old) = old else {
            ensure(rem.is_empty(), "flags", || format!("a new element gives back {rem:?}"))?;
            ensure(*f == StorageFlags::new_single_epoch(at, own), "flags", || format!("a new element has flags {f}"))?;
            e.base = at;
            e.book.insert(at, add);
            return Ok(());
        };
        if self.multi {
            return Ok(());
        }
        let of = old.flags.clone().unwrap();
        let from = of.owner_id().copied().unwrap_or_default();
        ensure(add == 0 || total == 0, "flags", || format!("added {add} and gave back {rem:?} at once"))?;
        // refunds: to the owner on record, newest epoch first
        let exp: Book = lifo(&of, total).into_iter().map(|(ep, n)| ((from, ep), n)).collect();
        let got: Book = rem.iter().filter(|(_, n)| **n != 0).map(|(a, b)| (*a, *b)).collect();
        ensure(got == exp, "flags", || format!("gave back {got:?}, expected {exp:?}"))?;
        for ((_, ep), n) in &got {
            *e.book.entry(*ep).or_default() -= n;
        }
        if add > 0 {
            *e.book.entry(at).or_default() += add;
        }
        // the flags now
        ensure(*f.base_epoch() == e.base, "flags", || format!("the first epoch became {f}"))?;
        let m = entries(f);
        ensure(!m.contains_key(&e.base), "flags", || format!("the first epoch is listed again: {f}"))?;
        let had = entries(&of);
        for ep in had.keys() {
            if !m.contains_key(ep) {
                // dropped: at most the bytes of the entry itself are left
                let rest = e.book.get(ep).copied().unwrap_or(0);
                ensure(total > 0 && rest <= MIN, "flags", || {
                    format!("the entry of epoch {ep} with {rest} unreturned bytes disappeared: {of} -> {f}")
                })?;
                e.dropped += rest;
                e.book.remove(ep);
            }
        }
        for (ep, v) in &m {
            let paid = e.book.get(ep).copied().unwrap_or(0);
            ensure(paid == *v as i64, "flags", || {
                format!("the flags say {v} bytes for epoch {ep}, {paid} were paid and not given back: {of} -> {f}")
            })?;
        }
        for (ep, n) in &e.book {
            ensure(*n == 0 || *ep == e.base || m.contains_key(ep), "flags", || {
                format!("{n} bytes paid in epoch {ep} are not in the flags {f}")
            })?;
        }
        let b = e.book.get(&e.base).copied().unwrap_or(0);
        ensure(b + e.dropped >= 0, "flags", || {
            format!("epoch {} gave back {} more than it and dropped entries paid", e.base, -(b + e.dropped))
        })?;
        // the owner: kept, or the one who pays for this update
        let now = f.owner_id().copied();
        let had = of.owner_id().copied();
        let ok = if add > 0 { now == own.or(had) } else { now == had || now == own.or(had) };
        ensure(ok, "flags", || format!("the owner {had:?} became {now:?} when {own:?} wrote"))?;
        Ok(())
    }

    fn del(&mut self, k: u8, how: u64) -> V {
        let op = Self::del_op(k);
        let (res, cost) = if how == 0 {
            self.batch(vec![op])
        } else {
            let c = self.db().delete_with_sectional_storage_function(
                [b"t".as_slice()].as_ref().into(),
                &Self::key(k),
                Some(DeleteOptions { allow_deleting_non_empty_trees: true, ..Default::default() }),
                None,
                &mut |f, a, b| StorageFlags::split_removal_bytes(f, a, b).map_err(jit),
                gv(),
            );
            (c.value, c.cost)
        };
        let Some(e) = self.els.remove(&k) else {
            return Ok(());
        };
        if let Err(e) = res {
            return viol("flags", format!("deleting element {k}: {e}"));
        }
        self.st.writes_ok += 1;
        let what = |s: String| format!("deleting element {k} with {:?} {:?}: {s}", e.book, e.flags);
        let Some(rem) = sections(&cost.storage_cost.removed_bytes) else {
            return viol("flags", what(format!("bytes given back to nobody: {:?}", cost.storage_cost)));
        };
        let total: i64 = rem.values().sum();
        self.balance -= total;
        if !self.multi {
            let f = e.flags.as_ref().unwrap();
            let who = f.owner_id().copied().unwrap_or_default();
            for ((id, _), _) in &rem {
                ensure(*id == who, "flags", || what(format!("given back to {id:?}")))?;
            }
            let paid: i64 = e.book.values().sum::<i64>() + e.dropped;
            ensure(total == paid, "flags", || what(format!("gave back {total} bytes of {paid}: {rem:?}")))?;
            for (ep, v) in &entries(f) {
                let got = rem.get(&(who, *ep)).copied().unwrap_or(0);
                let exp = (*v as i64 - MIN).max(0);
                ensure(got == exp, "flags", || what(format!("gave back {got} bytes of epoch {ep}, expected {exp}")))?;
            }
        }
        self.unchanged("a deletion")
    }

    /// several elements at once: nothing is lost in sum
    fn many(&mut self, n: u64) -> V {
        let mut r = Rng::new(n);
        let mut ops = vec![];
        let mut ks: Vec<u8> = (1..=KEYS).filter(|k| self.key_ok(*k)).collect();
        r.shuffle(&mut ks);
        let before: Vec<(u8, bool)> = ks[..r.range(2, 5)].iter().map(|k| (*k, self.els.contains_key(k))).collect();
        let mut dels = vec![];
        for (k, there) in &before {
            if *there && r.chance(1, 3) {
                ops.push(Self::del_op(*k));
                dels.push(*k);
            } else {
                let own = owner(r.below(3) as u64);
                let f = StorageFlags::new_single_epoch(self.epoch, own).to_some_element_flags();
                let el = Self::element(*k, size(&mut r), f);
                ops.push(QualifiedGroveDbOp::insert_or_replace_op(vec![b"t".to_vec()], Self::key(*k), el));
            }
        }
        let (res, cost) = self.batch(ops);
        if let Err(e) = res {
            return viol("flags", format!("a batch of updates of {before:?}: {e}"));
        }
        self.st.writes_ok += 1;
        let Some(rem) = sections(&cost.storage_cost.removed_bytes) else {
            return viol("flags", format!("bytes given back to nobody: {:?}", cost.storage_cost));
        };
        self.balance += cost.storage_cost.added_bytes as i64 - rem.values().sum::<i64>();
        for k in dels {
            self.els.remove(&k);
            ensure(self.read(k)?.is_none(), "flags", || format!("element {k} was deleted and is there"))?;
        }
        for (k, _) in before {
            if self.read(k)?.is_some() {
                self.reload(k)?;
            }
        }
        self.unchanged("a batch of updates")
    }

    /// an element whose stored flags are damaged: updates and deletions say
    /// so and change nothing
    fn malformed(&mut self, n: u64) -> V {
        let mut r = Rng::new(n);
        let k = r.range(1, 6) as u8;
        if self.els.contains_key(&k) {
            return Ok(());
        }
        let bad = loop {
            let f = flags(&mut r);
            let b = damage(&mut r, &f.serialize(), &self.seen);
            if StorageFlags::from_slice(&b).is_err() {
                break b;
            }
        };
        let path: &[&[u8]] = &[b"t"];
        let el = Element::new_item_with_flags(vec![3; r.below(50)], Some(bad.clone()));
        if let Err(e) = self.db().insert(path, &Self::key(k), el.clone(), None, None, gv()).unwrap() {
            return viol("flags", format!("inserting an element with foreign flags: {e}"));
        }
        let new = Element::new_item_with_flags(vec![4; size(&mut r)], StorageFlags::SingleEpoch(self.epoch).to_some_element_flags());
        let op = QualifiedGroveDbOp::insert_or_replace_op(vec![b"t".to_vec()], Self::key(k), new);
        let (res, _) = self.batch(vec![op]);
        ensure(res.is_err(), "flags", || format!("an update over unreadable flags {} was accepted", crate::node::hx(&bad)))?;
        let op = QualifiedGroveDbOp::delete_op(vec![b"t".to_vec()], Self::key(k));
        let (res, _) = self.batch(vec![op]);
        ensure(res.is_err(), "flags", || format!("a deletion of unreadable flags {} was accepted", crate::node::hx(&bad)))?;
        let got = self.read(k)?;
        ensure(got.as_ref() == Some(&el), "flags", || format!("a refused update changed {el:?} to {got:?}"))?;
        // out of the way, without flags
        if let Err(e) = self.db().delete(path, &Self::key(k), None, None, gv()).unwrap() {
            return viol("flags", format!("deleting an element with foreign flags: {e}"));
        }
        Ok(())
    }
}

fn size(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.range(0, 8),
        1 => r.range(100, 140),
        2 => r.range(0, 400),
        3 => r.range(220, 260),
        4 => r.range(16300, 16500),
        _ => r.range(0, 60),
    }
}

/// any flags
fn flags(r: &mut Rng) -> StorageFlags {
    let base = r.below(5) as u16;
    let own = owner(r.below(3) as u64);
    let mut m = BTreeMap::new();
    for _ in 0..r.below(4) {
        let v = match r.below(5) {
            0 => r.range(0, 4) as u32,
            1 => r.range(100, 140) as u32,
            2 => r.range(16000, 17000) as u32,
            3 => (r.next() >> 33) as u32,
            _ => r.range(4, 60) as u32,
        };
        m.insert(base + r.range(1, 300) as u16, v);
    }
    match (own, m.is_empty()) {
        (None, true) => StorageFlags::SingleEpoch(base),
        (None, false) => StorageFlags::MultiEpoch(base, m),
        (Some(o), true) => StorageFlags::SingleEpochOwned(base, o),
        (Some(o), false) => StorageFlags::MultiEpochOwned(base, m, o),
    }
}

fn codec(f: &StorageFlags) -> V {
    let b = f.serialize();
    ensure(b.len() == f.serialized_size() as usize, "flags", || format!("{f} takes {} bytes, said {}", b.len(), f.serialized_size()))?;
    match StorageFlags::from_slice(&b) {
        Ok(Some(g)) if g == *f => Ok(()),
        o => viol("flags", format!("{f} stored as {} reads back as {o:?}", crate::node::hx(&b))),
    }
}

/// flags by themselves against a plain account
fn algebra(seed: u64) -> V {
    let mut r = Rng::new(seed);
    let f = flags(&mut r);
    codec(&f)?;
    let who = f.owner_id().copied().unwrap_or_default();
    // splitting
    let held: u64 = entries(&f).values().map(|v| *v as u64).sum();
    let (kb, vb) = (
        if r.chance(1, 2) { 0 } else { r.range(1, 300) as u32 },
        match r.below(4) {
            0 => 0,
            1 => (r.next() % (held + 10)).min(i32::MAX as u64) as u32,
            2 => r.range(1, 200) as u32,
            _ => r.range(1, 20000) as u32,
        },
    );
    let (ks, vs) = f.split_storage_removed_bytes(kb, vb);
    let sect = |b: &StorageRemovedBytes| -> V<BTreeMap<u16, i64>> {
        let Some(s) = sections(b) else { return viol("flags", format!("{f} split {kb}+{vb} into {b:?}")) };
        let mut o = BTreeMap::new();
        for ((id, e), n) in s {
            ensure(id == who, "flags", || format!("{f} split {kb}+{vb}: given back to {id:?}"))?;
            if n != 0 {
                o.insert(e, n);
            }
        }
        Ok(o)
    };
    let (k, v) = (sect(&ks)?, sect(&vs)?);
    let mut kx = BTreeMap::new();
    if kb > 0 {
        kx.insert(*f.base_epoch(), kb as i64);
    }
    ensure(k == kx, "flags", || format!("{f} split {kb} key bytes into {k:?}"))?;
    let vx = lifo(&f, vb as i64);
    ensure(v == vx, "flags", || format!("{f} split {vb} value bytes into {v:?}, expected {vx:?}"))?;
    ensure(ks.total_removed_bytes() == kb && vs.total_removed_bytes() == vb, "flags", || {
        format!("{f} split {kb}+{vb} into totals {} and {}", ks.total_removed_bytes(), vs.total_removed_bytes())
    })?;
    // who is asked: an owner other than ours, ours, nobody
    let strat = *r.pick(&[MergingOwnersStrategy::RaiseIssue, MergingOwnersStrategy::UseOurs, MergingOwnersStrategy::UseTheirs]);
    let theirs = owner(r.below(3) as u64);
    let last = entries(&f).keys().last().copied().unwrap_or(*f.base_epoch());
    let at = match r.below(6) {
        0 => f.base_epoch().wrapping_sub(1),
        1 => *f.base_epoch(),
        2 => last,
        _ => last + r.range(1, 5) as u16,
    };
    let rhs = StorageFlags::new_single_epoch(at, theirs);
    let clash = f.owner_id().is_some() && theirs.is_some() && f.owner_id() != theirs.as_ref();
    let winner = match (f.owner_id().copied(), theirs) {
        (Some(a), Some(b)) if a != b => match strat {
            MergingOwnersStrategy::UseOurs => Some(a),
            _ => Some(b),
        },
        (a, b) => a.or(b),
    };
    let refuse = at < *f.base_epoch() || (clash && strat == MergingOwnersStrategy::RaiseIssue);
    // growing
    let add = match r.below(4) {
        0 => (r.next() >> 32) as u32,
        _ => r.range(1, 500) as u32,
    };
    let mut m = entries(&f);
    let mut over = false;
    if at > *f.base_epoch() {
        let e = m.entry(at).or_default();
        match e.checked_add(add) {
            Some(s) => *e = s,
            None => over = true,
        }
    }
    let got = f.clone().combine_added_bytes(rhs.clone(), add, strat);
    let msg = |g: &dyn std::fmt::Debug| format!("{f} grown by {add} with {rhs} ({strat:?}) became {g:?}");
    match &got {
        Err(_) => ensure(refuse || over, "flags", || msg(&got))?,
        Ok(g) => {
            ensure(
                !refuse && !over && *g.base_epoch() == *f.base_epoch() && entries(g) == m && g.owner_id().copied() == winner,
                "flags",
                || msg(&got),
            )?;
            codec(g)?;
        }
    }
    // shrinking by what a split gave back
    let got = f.clone().combine_removed_bytes(rhs.clone(), &vs, strat);
    let mut m = entries(&f);
    for (e, n) in &vx {
        if let Some(x) = m.get_mut(e) {
            *x -= *n as u32;
        }
    }
    // entries the removal went through are dropped once only their own bytes
    // are left; at most those are lost to the first epoch
    let touched = matches!(&f, StorageFlags::MultiEpoch(..) | StorageFlags::MultiEpochOwned(..)) && at > *f.base_epoch();
    let single = entries(&f).is_empty();
    match &got {
        Err(_) => {
            // with nothing removed there is nothing to look up
            let refused = refuse && !(single && at > *f.base_epoch());
            ensure(refused, "flags", || format!("{f} shrunk by {vs:?} with {rhs} ({strat:?}): {got:?}"))?
        }
        Ok(g) => {
            let gm = entries(g);
            let bad = || format!("{f} shrunk by {vs:?} with {rhs} ({strat:?}) became {g}");
            ensure(*g.base_epoch() == *f.base_epoch(), "flags", bad)?;
            if touched {
                for (e, v) in &m {
                    match gm.get(e) {
                        Some(x) => ensure(x == v, "flags", bad)?,
                        None => ensure(*v as i64 <= MIN, "flags", bad)?,
                    }
                }
                ensure(gm.keys().all(|e| m.contains_key(e)), "flags", bad)?;
                ensure(g.owner_id().copied() == winner, "flags", bad)?;
            } else {
                ensure(gm == entries(&f), "flags", bad)?;
            }
            codec(g)?;
        }
    }
    // the three ways an update can go, as the database asks for them
    let mut new = rhs.to_element_flags();
    let cost = StorageCost { added_bytes: 0, replaced_bytes: 5, removed_bytes: StorageRemovedBytes::NoStorageRemoval };
    let u = StorageFlags::update_element_flags(&cost, Some(f.to_element_flags()), &mut new);
    ensure(u.is_ok() && new == f.to_element_flags(), "flags", || format!("{f} replaced in place by {rhs} became {new:?} ({u:?})"))?;
    let cost = StorageCost { added_bytes: 50, replaced_bytes: 0, removed_bytes: StorageRemovedBytes::NoStorageRemoval };
    let mut new = rhs.to_element_flags();
    let u = StorageFlags::update_element_flags(&cost, None, &mut new);
    ensure(matches!(u, Ok(false)) && new == rhs.to_element_flags(), "flags", || format!("fresh {rhs} became {new:?} ({u:?})"))?;
    Ok(())
}

/// damaged flags are refused or read, never worse
fn garbage(seed: u64, seen: &[u8]) -> B {
    let mut r = Rng::new(seed);
    let f = flags(&mut r).serialize();
    let b = damage(&mut r, &f, seen);
    if let Ok(Some(g)) = StorageFlags::from_slice(&b) {
        if !(entries(&g).is_empty() && matches!(g, StorageFlags::MultiEpoch(..) | StorageFlags::MultiEpochOwned(..))) {
            let _ = g.serialize();
        }
        let _ = g.serialized_size();
        let _ = g.split_storage_removed_bytes(3, 100);
        let _ = format!("{g}");
        let rhs = StorageFlags::SingleEpoch(9);
        let _ = g.clone().combine_added_bytes(rhs.clone(), 7, MergingOwnersStrategy::UseTheirs);
        let (_, v) = g.split_storage_removed_bytes(0, 9);
        let _ = g.combine_removed_bytes(rhs, &v, MergingOwnersStrategy::UseTheirs);
    }
    let mut fl = b.clone();
    let _ = StorageFlags::split_removal_bytes(&mut fl, 1, 10);
    f
}

impl Machine for FlagsM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let few = r.chance(3, 4);
        let k = if few { r.range(1, 3) } else { r.range(1, KEYS as usize) } as u64;
        Some(Act::C(match r.below(24) {
            0..=9 => {
                let sz = size(r) as u64;
                let own = *r.pick(&[0u64, 0, 1, 1, 1, 2]);
                let back = if r.chance(1, 12) { r.range(1, 3) as u64 } else { 0 };
                // an element keeps to owned or unowned flags most of the time
                let own = match self.els.get(&(k as u8)).and_then(|e| e.flags.as_ref()) {
                    Some(f) if r.chance(4, 5) => f.owner_id().map_or(0, |o| o[0] as u64),
                    _ => own,
                };
                let fail = if r.chance(1, 8) { Some(r.below(30) as u32) } else { None };
                ca("put", &[k, sz, own, back]).fail(fail)
            }
            10 | 11 => ca("del", &[k, r.below(2) as u64]),
            12..=15 => ca("epoch", &[*r.pick(&[1u64, 1, 1, 2, 5, 150])]),
            16 if self.multi => ca("many", &[r.next()]),
            16 | 17 => ca("reopen", &[]),
            18 => ca("malformed", &[r.next()]),
            19 | 20 => ca("garbage", &[r.next()]),
            _ => ca("algebra", &[r.next()]),
        }))
    }
    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        match a.op.as_str() {
            "put" => self.put(a.get(0) as u8, a.get(1) as usize, owner(a.get(2)), a.get(3) as u16, a.fail),
            "del" => self.del(a.get(0) as u8, a.get(1)),
            "many" => {
                self.multi = true;
                self.many(a.get(0))
            }
            "epoch" => {
                self.epoch += a.get(0) as u16;
                Ok(())
            }
            "reopen" => {
                self.db = None;
                match GroveDb::open("/sim/flags") {
                    Ok(d) => self.db = Some(d),
                    Err(e) => return viol("flags", format!("reopen: {e}")),
                }
                self.unchanged("reopening")
            }
            "malformed" => self.malformed(a.get(0)),
            "garbage" => {
                self.seen = garbage(a.get(0), &self.seen);
                Ok(())
            }
            "algebra" => algebra(a.get(0)),
            _ => Ok(()),
        }
    }
    fn last(&mut self) -> V {
        for k in self.els.keys().copied().collect::<Vec<_>>() {
            self.del(k, (k % 2) as u64)?;
        }
        ensure(self.balance == 0, "flags", || {
            format!("with every element gone, {} bytes paid were not given back", self.balance)
        })
    }
    fn done(self: Box<Self>) -> Stats {
        let mut st = self.st;
        st.engine_calls += self.fuse.calls.load(Ordering::SeqCst) as u64;
        st
    }
}
