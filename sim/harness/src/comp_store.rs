//! The storage layer by itself: contexts of many subtrees over one store,
//! transactions and batches, iterators in both directions, and what survives.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        Arc,
        atomic::{AtomicI64, AtomicU32, Ordering},
    },
};

use grovedb_costs::{
    CostContext, OperationCost,
    storage_cost::{StorageCost, key_value_cost::KeyValueStorageCost, removal::StorageRemovedBytes},
};
use grovedb_path::SubtreePath;
use grovedb_storage::{Batch, RawIterator, Storage, StorageBatch, StorageContext, rocksdb_storage::RocksDbStorage};
use rocksdb::sim::{Call, FailKind, Hook, Verdict, World};

use crate::{check::*, comp::*, comp_merk::hx, ops::B, plan::*, rng::*, sim::Stats};

type Tx = <RocksDbStorage as Storage<'static>>::Transaction;
type P = [u8; 32];
/// column family (0 data, 1 aux, 2 roots, 3 meta), subtree, key
type K = (u8, P, B);
type Rows = BTreeMap<K, B>;

const AT: &str = "/sim/store";

#[derive(Default)]
struct Fuse {
    n: AtomicI64,
    fired: AtomicU32,
}
impl Hook for Fuse {
    fn at(&self, _: &str, call: Call) -> Verdict {
        let counts = matches!(
            call,
            Call::Get | Call::TxnPut | Call::TxnDelete | Call::TxnRebuild | Call::Commit | Call::Rollback | Call::DbWrite | Call::Flush | Call::Checkpoint
        );
        if counts && self.n.fetch_sub(1, Ordering::SeqCst) == 0 {
            self.fired.fetch_add(1, Ordering::SeqCst);
            return Verdict::Fail(FailKind::Io);
        }
        Verdict::Proceed
    }
}

struct Slot {
    tx: Tx,
    over: BTreeMap<K, Option<B>>,
    /// state of the database when the key was first written here
    since: BTreeMap<K, usize>,
}

pub struct StoreM {
    world: Arc<World>,
    fuse: Arc<Fuse>,
    slots: [Option<Slot>; 2],
    st: *mut RocksDbStorage,
    rows: Rows,
    /// the state in which the row changed last
    at: BTreeMap<K, usize>,
    /// every state since the last one known to be durable
    hist: Vec<Rows>,
    now: usize,
    places: Vec<(Option<Vec<B>>, P)>,
    keys: Vec<B>,
    cps: u64,
    r: Rng,
    left: usize,
    stats: Stats,
}

fn varint(n: usize) -> u64 {
    let (mut n, mut k) = (n >> 7, 1);
    while n > 0 {
        n >>= 7;
        k += 1;
    }
    k
}

fn gone(a: u32, b: u32) -> KeyValueStorageCost {
    let c = |n| StorageCost { added_bytes: 0, replaced_bytes: 0, removed_bytes: StorageRemovedBytes::BasicStorageRemoval(n) };
    KeyValueStorageCost { key_storage_cost: c(a), value_storage_cost: c(b), new_node: false, needs_value_verification: false }
}

fn v(m: impl Into<String>) -> V {
    viol("store", m)
}
fn sure(c: bool, m: impl FnOnce() -> String) -> V {
    ensure(c, "store", m)
}
fn put<'a, C: StorageContext<'a>>(c: &C, cf: u8, k: &[u8], x: &[u8]) -> CostContext<Result<(), grovedb_storage::Error>> {
    match cf {
        0 => c.put(k, x, None, None),
        1 => c.put_aux(k, x, None),
        2 => c.put_root(k, x, None),
        _ => c.put_meta(k, x, None),
    }
}
fn del<'a, C: StorageContext<'a>>(c: &C, cf: u8, k: &[u8], i: Option<KeyValueStorageCost>) -> CostContext<Result<(), grovedb_storage::Error>> {
    match cf {
        0 => c.delete(k, i),
        1 => c.delete_aux(k, i),
        2 => c.delete_root(k, i),
        _ => c.delete_meta(k, i),
    }
}
fn get<'a, C: StorageContext<'a>>(c: &C, cf: u8, k: &[u8]) -> CostContext<Result<Option<B>, grovedb_storage::Error>> {
    match cf {
        0 => c.get(k),
        1 => c.get_aux(k),
        2 => c.get_root(k),
        _ => c.get_meta(k),
    }
}
fn bput<T: Batch>(b: &mut T, cf: u8, k: &[u8], x: &[u8]) -> bool {
    match cf {
        0 => b.put(k, x, None, None),
        1 => b.put_aux(k, x, None),
        _ => b.put_root(k, x, None),
    }
    .is_ok()
}
fn bdel<T: Batch>(b: &mut T, cf: u8, k: &[u8], i: Option<KeyValueStorageCost>) {
    match cf {
        0 => b.delete(k, i),
        1 => b.delete_aux(k, i),
        _ => b.delete_root(k, i),
    }
}

impl StoreM {
    pub fn new(seed: u64) -> V<Self> {
        let mut r = Rng::new(seed);
        let world = World::new();
        world.enter();
        let fuse = Arc::new(Fuse::default());
        fuse.n.store(-1, Ordering::SeqCst);
        world.set_hook(Some(fuse.clone()));
        let mut places: Vec<(Option<Vec<B>>, P)> = vec![];
        let s = |l: &[&[u8]]| l.iter().map(|x| x.to_vec()).collect::<Vec<B>>();
        let mut paths = vec![s(&[]), s(&[b"a"]), s(&[b"a", b"b"]), s(&[b"ab"]), s(&[b""]), s(&[b"a", b""]), s(&[b"b", b"a"]), s(&[&[0], &[0, 0]])];
        for _ in 0..2 {
            let n = r.below(5);
            paths.push((0..n).map(|_| { let l = *r.pick(&[0usize, 1, 2, 8, 32, 64, 255]); r.bytes(l) }).collect());
        }
        for p in paths {
            let sp: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
            let c = RocksDbStorage::build_prefix(SubtreePath::from(sp.as_slice()));
            if !p.is_empty() {
                let body: usize = p.iter().map(|x| x.len() + 1).sum::<usize>() + 8;
                sure(c.cost.hash_node_calls as usize == 1 + (body - 1) / 64, || format!("the prefix of a path of {body} bytes costs {:?}", c.cost))?;
            }
            if places.iter().all(|(_, q)| *q != c.value) {
                places.push((Some(p), c.value));
            } else {
                sure(places.iter().any(|(q, x)| q.as_ref() == Some(&p) && *x == c.value), || "two paths have one prefix".into())?;
            }
        }
        // neighbours in the order of prefixes
        let base = *r.pick(&[5u8, 0, 0x7f, 0xfe]);
        let mut p = [base; 32];
        for (i, x) in [(31, 0xff), (30, 0xff), (31, 0), (29, 0xff), (31, 1)] {
            places.push((None, p));
            p[i] = x;
            if r.chance(1, 2) {
                let mut q = p;
                for b in q.iter_mut().rev() {
                    *b = b.wrapping_add(1);
                    if *b != 0 {
                        break;
                    }
                }
                places.push((None, q));
            }
        }
        places.push((None, p));
        let mut seen = BTreeSet::new();
        places.retain(|x| seen.insert(x.1));
        let n = r.range(2, places.len());
        while places.len() > n {
            let i = r.below(places.len());
            places.remove(i);
        }
        let mut keys = vec![vec![], vec![0], vec![0, 0], vec![0xff], vec![0xff, 0xff], vec![0xff; 32], b"a".to_vec(), b"ab".to_vec()];
        for _ in 0..r.below(12) {
            let n = r.range(1, 6);
            keys.push(r.bytes(n));
        }
        let left = r.range(8, 60);
        let mut m = StoreM {
            world, fuse, slots: [None, None], st: std::ptr::null_mut(), rows: Rows::new(), at: BTreeMap::new(), hist: vec![Rows::new()], now: 0,
            places, keys, cps: 0, r, left, stats: Stats::default(),
        };
        m.open()?;
        Ok(m)
    }

    fn open(&mut self) -> V {
        match RocksDbStorage::default_rocksdb_with_path(AT) {
            Ok(s) => self.st = Box::into_raw(Box::new(s)),
            Err(e) => return v(format!("open: {e}")),
        }
        Ok(())
    }
    fn close(&mut self) {
        self.slots = [None, None];
        if !self.st.is_null() {
            drop(unsafe { Box::from_raw(self.st) });
            self.st = std::ptr::null_mut();
        }
    }
    /// outlives every transaction: `close` drops those first
    fn st(&self) -> &'static RocksDbStorage {
        unsafe { &*self.st }
    }
    fn hit(&self) -> bool {
        self.fuse.fired.load(Ordering::SeqCst) > 0
    }

    fn view(&self, slot: Option<usize>) -> Rows {
        let mut r = self.rows.clone();
        if let Some(s) = slot.and_then(|s| self.slots[s].as_ref()) {
            for (k, x) in &s.over {
                match x {
                    Some(x) => r.insert(k.clone(), x.clone()),
                    None => r.remove(k),
                };
            }
        }
        r
    }
    /// into a transaction
    fn into(&mut self, slot: usize, w: impl IntoIterator<Item = (K, Option<B>)>) {
        let now = self.now;
        let s = self.slots[slot].as_mut().unwrap();
        for (k, x) in w {
            s.since.entry(k.clone()).or_insert(now);
            s.over.insert(k, x);
        }
    }
    /// into the database
    fn commit(&mut self, w: BTreeMap<K, Option<B>>) {
        if w.is_empty() {
            return;
        }
        self.now += 1;
        for (k, x) in w {
            self.at.insert(k.clone(), self.now);
            match x {
                Some(x) => self.rows.insert(k, x),
                None => self.rows.remove(&k),
            };
        }
        self.hist.push(self.rows.clone());
    }

    /// everything the database holds, as the simulated disk and all contexts tell it
    fn whole(&mut self) -> V {
        self.stats.checks += 1;
        let tx = self.st().start_transaction();
        for (_, p) in &self.places {
            let c = self.st().get_transactional_storage_context_by_subtree_prefix(*p, None, &tx).value;
            let mut it = c.raw_iter();
            it.seek_to_first().value;
            for ((_, q, k), x) in &self.rows.iter().filter(|((cf, q, _), _)| *cf == 0 && q == p).collect::<Vec<_>>() {
                let _ = q;
                let got = (it.key().value.map(|x| x.to_vec()), it.value().value.map(|x| x.to_vec()));
                if got != (Some(k.clone()), Some((*x).clone())) {
                    return v(format!("row {} is {got:?}", hx(k)));
                }
                it.next().value;
            }
            sure(!it.valid().value, || "a row nobody wrote".into())?;
        }
        let n = self.world.dump(AT).len();
        sure(n == self.rows.len(), || format!("{n} rows on disk, {} written", self.rows.len()))
    }

    /// (a made-up neighbour of a prefix has no empty key: the end of a subtree
    /// is looked for there, which is no matter for hashes)
    fn w(&mut self, r: &mut Rng, hashed: bool) -> (u8, B, B) {
        let n = r.below(40);
        let mut k = r.pick(&self.keys).clone();
        if k.is_empty() && !hashed {
            k.push(1);
        }
        (*r.pick(&[0u8, 0, 0, 1, 2, 3]), k, r.bytes(n))
    }

    /// one batch over the contexts of several subtrees
    fn batch(&mut self, slot: Option<usize>, seed: u64, n: usize) -> V {
        let r = &mut Rng::new(seed);
        let sb = StorageBatch::new();
        let own;
        let tx: &Tx = match slot {
            Some(s) => &self.slots[s].as_ref().unwrap().tx,
            None => {
                own = self.st().start_transaction();
                &own
            }
        };
        // the batch and the transaction outlive the contexts
        let sbr: &'static StorageBatch = unsafe { &*(&sb as *const _) };
        let tx: &'static Tx = unsafe { &*(tx as *const Tx) };
        let before = self.view(slot);
        // what the batch will do, a put not being undone by a later deletion
        let mut will: BTreeMap<K, (Option<B>, Option<u32>)> = BTreeMap::new();
        let mut k = 0;
        while k < n {
            let (path, p) = r.pick(&self.places).clone();
            let c = match &path {
                Some(path) if r.chance(2, 3) => {
                    let sp: Vec<&[u8]> = path.iter().map(|x| x.as_slice()).collect();
                    self.st().get_transactional_storage_context(SubtreePath::from(sp.as_slice()), Some(sbr), tx).value
                }
                _ => self.st().get_transactional_storage_context_by_subtree_prefix(p, Some(sbr), tx).value,
            };
            if r.chance(1, 12) {
                let c = self.st().get_transactional_storage_context_by_subtree_prefix(p, None, tx).value;
                let (cf, key, x) = self.w(r, path.is_some());
                let ok = if r.chance(1, 2) { put(&c, cf, &key, &x).value.is_ok() } else { del(&c, cf, &key, None).value.is_ok() };
                sure(!ok, || "a context without a batch takes a write".into())?;
            }
            if r.chance(1, 10) {
                let mut c = c;
                let res = c.clear().value;
                sure(res.is_ok(), || format!("clear: {res:?}"))?;
                for (cf, q, key) in before.keys().filter(|(cf, q, _)| *cf == 0 && *q == p) {
                    will.entry((*cf, *q, key.clone())).or_insert((None, None));
                }
                k += 1;
                continue;
            }
            let part = r.chance(1, 4);
            let mut b = c.new_batch();
            let mut own: BTreeMap<K, (Option<B>, Option<u32>)> = BTreeMap::new();
            for _ in 0..r.range(1, 6) {
                k += 1;
                let (mut cf, key, x) = self.w(r, path.is_some());
                if part {
                    cf %= 3;
                }
                let id = (cf, p, key.clone());
                let to = if part { &mut own } else { &mut will };
                if r.chance(2, 3) {
                    let ok = if part { bput(&mut b, cf, &key, &x) } else { put(&c, cf, &key, &x).value.is_ok() };
                    sure(ok, || "a write into a batch is refused".into())?;
                    to.insert(id, (Some(x), None));
                } else {
                    let paid = r.chance(1, 3).then(|| (r.below(50) as u32, r.below(50) as u32));
                    let info = paid.map(|(a, b)| gone(a, b));
                    if part {
                        bdel(&mut b, cf, &key, info)
                    } else {
                        let res = del(&c, cf, &key, info).value;
                        sure(res.is_ok(), || "a deletion into a batch is refused".into())?;
                    }
                    to.entry(id).or_insert((None, paid.map(|(a, b)| a + b)));
                }
            }
            if part {
                let res = c.commit_batch(b).value;
                sure(res.is_ok(), || "joining batches is refused".into())?;
                for (k, x) in own {
                    if x.0.is_some() {
                        will.insert(k, x);
                    } else {
                        will.entry(k).or_insert(x);
                    }
                }
            }
            // nothing shows before the batch is committed
            let (cf, key, _) = self.w(r, path.is_some());
            self.read(&c, true, &before, cf, p, &key)?;
            sure(sb.len() == will.len() && sb.is_empty() == will.is_empty(), || format!("a batch of {} operations tells {}", will.len(), sb.len()))?;
        }
        let mut seeks = 0;
        let mut loaded = 0;
        let mut removed = 0u64;
        for ((cf, q, key), (x, paid)) in &will {
            seeks += 1;
            match (x, paid) {
                (Some(_), _) => {}
                (None, Some(n)) => removed += *n as u64,
                (None, None) => {
                    seeks += 1;
                    let l = self.rows.get(&(*cf, *q, key.clone())).map_or(0, |x| x.len());
                    loaded += l as u64;
                    let kl = 32 + key.len();
                    removed += (kl + l) as u64 + varint(kl) + varint(l);
                }
            }
        }
        let fit = slot.is_some() || !self.hit();
        let before_hit = self.hit();
        let res = self.st().commit_multi_context_batch(sb, slot.is_some().then_some(tx));
        match res.value {
            Ok(()) => {
                sure(fit || before_hit, || "unreachable".into())?;
                let c = &res.cost;
                let told: u64 = match &c.storage_cost.removed_bytes {
                    StorageRemovedBytes::NoStorageRemoval => 0,
                    StorageRemovedBytes::BasicStorageRemoval(n) => *n as u64,
                    o => return v(format!("sections removed: {o:?}")),
                };
                sure((c.seek_count, c.storage_loaded_bytes, told) == (seeks, loaded, removed), || {
                    format!("a batch costs {} seeks, {} loaded, {told} removed, not {seeks}, {loaded}, {removed}", c.seek_count, c.storage_loaded_bytes)
                })?;
                self.stats.writes_ok += 1;
                let w: BTreeMap<K, Option<B>> = will.into_iter().map(|(k, x)| (k, x.0)).collect();
                match slot {
                    Some(s) => self.into(s, w),
                    None => self.commit(w),
                }
            }
            Err(e) => {
                self.stats.writes_refused += 1;
                sure(self.hit(), || format!("a batch is refused: {e}"))?;
                sure(res.cost.storage_cost == StorageCost::default(), || format!("a refused batch costs {:?}", res.cost))?;
            }
        }
        Ok(())
    }

    /// straight into the transaction
    fn direct(&mut self, s: usize, seed: u64, n: usize) -> V {
        let r = &mut Rng::new(seed);
        let tx: &'static Tx = unsafe { &*(&self.slots[s].as_ref().unwrap().tx as *const Tx) };
        for _ in 0..n {
            let (path, p) = r.pick(&self.places).clone();
            let c = match &path {
                Some(path) if r.chance(2, 3) => {
                    let sp: Vec<&[u8]> = path.iter().map(|x| x.as_slice()).collect();
                    self.st().get_immediate_storage_context(SubtreePath::from(sp.as_slice()), tx).value
                }
                _ => self.st().get_immediate_storage_context_by_subtree_prefix(p, tx).value,
            };
            if r.chance(1, 4) {
                let mut b = c.new_batch();
                let mut w: BTreeMap<K, Option<B>> = BTreeMap::new();
                let (mut seeks, mut removed) = (0, 0u64);
                for _ in 0..r.range(1, 6) {
                    let (cf, key, x) = self.w(r, path.is_some());
                    let cf = cf % 3;
                    seeks += 1;
                    if r.chance(2, 3) {
                        sure(bput(&mut b, cf, &key, &x), || "a write into a batch is refused".into())?;
                        w.insert((cf, p, key), Some(x));
                    } else {
                        let paid = r.chance(1, 3).then(|| (r.below(50) as u32, r.below(50) as u32));
                        removed += paid.map_or(0, |(a, b)| (a + b) as u64);
                        bdel(&mut b, cf, &key, paid.map(|(a, b)| gone(a, b)));
                        w.insert((cf, p, key), None);
                    }
                }
                let res = c.commit_batch(b);
                let told: u64 = match &res.cost.storage_cost.removed_bytes {
                    StorageRemovedBytes::BasicStorageRemoval(n) => *n as u64,
                    _ => 0,
                };
                match res.value {
                    Ok(()) => {
                        sure((res.cost.seek_count, told) == (seeks, removed), || format!("a batch of {seeks} costs {:?}", res.cost))?;
                        self.into(s, w)
                    }
                    Err(e) => sure(self.hit(), || format!("a batch is refused: {e}"))?,
                }
            } else {
                let (cf, key, x) = self.w(r, path.is_some());
                let (res, x) = if r.chance(2, 3) { (put(&c, cf, &key, &x), Some(x)) } else { (del(&c, cf, &key, None), None) };
                match res.value {
                    Ok(()) => self.into(s, [((cf, p, key.clone()), x)]),
                    Err(e) => sure(self.hit(), || format!("a write is refused: {e}"))?,
                }
                let now = self.view(Some(s));
                let key = if r.chance(1, 2) { key } else { self.w(r, path.is_some()).1 };
                self.read(&c, false, &now, cf, p, &key)?;
            }
        }
        Ok(())
    }

    fn read<'a, C: StorageContext<'a>>(&self, c: &C, paid: bool, rows: &Rows, cf: u8, p: P, k: &[u8]) -> V {
        let fired = self.fuse.fired.load(Ordering::SeqCst);
        let got = get(c, cf, k);
        match got.value {
            Ok(x) => {
                let want = rows.get(&(cf, p, k.to_vec()));
                sure(x.as_ref() == want, || format!("row {cf} {} reads {:?}, not {:?}", hx(k), x.as_ref().map(|x| hx(x)), want.map(|x| hx(x))))?;
                if paid {
                    let n = want.map_or(0, |x| x.len()) as u64;
                    let want = OperationCost { seek_count: 1, storage_loaded_bytes: n, ..Default::default() };
                    sure(got.cost == want, || format!("reading {n} bytes costs {:?}", got.cost))?;
                }
                Ok(())
            }
            Err(e) => sure(self.fuse.fired.load(Ordering::SeqCst) > fired, || format!("read: {e}")),
        }
    }

    /// a walk with an iterator, anywhere and in both directions
    fn walk(&mut self, slot: Option<usize>, seed: u64, n: usize) -> V {
        let r = &mut Rng::new(seed);
        self.stats.queries += 1;
        let own;
        let tx: &Tx = match slot {
            Some(s) => &self.slots[s].as_ref().unwrap().tx,
            None => {
                own = self.st().start_transaction();
                &own
            }
        };
        let tx: &'static Tx = unsafe { &*(tx as *const Tx) };
        let p = r.pick(&self.places).1;
        let rows: Vec<(B, B)> =
            self.view(slot).into_iter().filter(|((cf, q, _), _)| *cf == 0 && *q == p).map(|((_, _, k), x)| (k, x)).collect();
        // the engine's iterator may be used past a subtree's end, but says so
        if r.chance(1, 2) {
            let c = self.st().get_transactional_storage_context_by_subtree_prefix(p, None, tx).value;
            self.steps(r, c.raw_iter(), &rows, n)
        } else {
            let c = self.st().get_immediate_storage_context_by_subtree_prefix(p, tx).value;
            self.steps(r, c.raw_iter(), &rows, n)
        }
    }

    fn steps<I: RawIterator>(&self, r: &mut Rng, mut it: I, rows: &[(B, B)], n: usize) -> V {
        let mut at: Option<usize> = None;
        for _ in 0..n {
            let k = if r.chance(1, 2) || rows.is_empty() {
                r.pick(&self.keys).clone()
            } else {
                let mut k = r.pick(rows).0.clone();
                match r.below(4) {
                    0 => k.push(0),
                    1 => drop(k.pop()),
                    2 => {
                        if let Some(x) = k.last_mut() {
                            *x = x.wrapping_sub(1)
                        }
                    }
                    _ => {}
                }
                k
            };
            let (c, what): (OperationCost, &str) = match (r.below(6), at) {
                (0, _) => {
                    at = (!rows.is_empty()).then_some(0);
                    (it.seek_to_first().cost, "to the first")
                }
                (1, _) => {
                    at = rows.len().checked_sub(1);
                    (it.seek_to_last().cost, "to the last")
                }
                (2, _) => {
                    at = rows.iter().position(|x| x.0 >= k);
                    (it.seek(&k).cost, "to a key")
                }
                (3, _) => {
                    at = rows.iter().rposition(|x| x.0 <= k);
                    (it.seek_for_prev(&k).cost, "to a key or before")
                }
                (4, Some(i)) => {
                    at = (i + 1 < rows.len()).then_some(i + 1);
                    (it.next().cost, "to the next")
                }
                (_, Some(i)) => {
                    at = i.checked_sub(1);
                    (it.prev().cost, "to the one before")
                }
                _ => continue,
            };
            sure(c == OperationCost::with_seek_count(1), || format!("{what} costs {c:?}"))?;
            let (ok, key, val) = (it.valid(), it.key(), it.value());
            let want = at.map(|i| &rows[i]);
            sure(ok.value == want.is_some(), || format!("{what} ({}): valid {}", hx(&k), ok.value))?;
            sure(key.value == want.map(|x| x.0.as_slice()), || format!("{what} ({}): at {:?}, not {:?}", hx(&k), key.value.map(hx), want.map(|x| hx(&x.0))))?;
            sure(val.value == want.map(|x| x.1.as_slice()), || format!("{what} ({}): value {:?}", hx(&k), val.value.map(hx)))?;
            // what lies beyond the subtree has no part in the price
            let kl = want.map_or(288, |x| 32 + x.0.len() as u64);
            let vl = want.map_or(0, |x| x.1.len() as u64);
            sure(ok.cost.storage_loaded_bytes == kl && key.cost.storage_loaded_bytes == kl && val.cost.storage_loaded_bytes == kl + vl, || {
                format!("{what}: valid costs {}, key {}, value {}, with {kl} and {vl} bytes", ok.cost.storage_loaded_bytes, key.cost.storage_loaded_bytes, val.cost.storage_loaded_bytes)
            })?;
        }
        Ok(())
    }

    fn end(&mut self, s: usize) -> V {
        let Some(slot) = self.slots[s].take() else { return Ok(()) };
        let clash = slot.since.iter().any(|(k, t)| self.at.get(k).is_some_and(|a| a > t));
        let res = self.st().commit_transaction(slot.tx).value;
        match res {
            Ok(()) => {
                sure(!clash, || "a transaction that overlaps a later one is committed".into())?;
                self.stats.writes_ok += 1;
                self.commit(slot.over);
            }
            Err(e) => {
                self.stats.writes_refused += 1;
                sure(clash || self.hit(), || format!("a commit is refused: {e}"))?;
            }
        }
        self.whole()
    }

    fn checkpoint(&mut self, seed: u64) -> V {
        let r = &mut Rng::new(seed);
        self.cps += 1;
        let at = format!("/sim/store-cp{}", self.cps);
        if let Err(e) = self.st().create_checkpoint(&at) {
            return sure(self.hit(), || format!("checkpoint: {e}"));
        }
        let s = match if r.chance(1, 2) { RocksDbStorage::checkpoint_rocksdb_with_path(&at) } else { RocksDbStorage::default_rocksdb_with_path(&at) } {
            Ok(s) => s,
            Err(e) => return v(format!("opening a checkpoint: {e}")),
        };
        let tx = s.start_transaction();
        for (_, p) in &self.places {
            let c = s.get_transactional_storage_context_by_subtree_prefix(*p, None, &tx).value;
            for cf in 0..4 {
                for k in &self.keys {
                    self.read(&c, true, &self.rows, cf, *p, k)?;
                }
            }
        }
        drop(tx);
        let n = self.world.dump(&at).len();
        sure(n == self.rows.len(), || format!("{n} rows in a checkpoint of {}", self.rows.len()))?;
        drop(s);
        self.world.remove(&at);
        Ok(())
    }

    fn lost(&mut self, keep: Option<usize>) -> V {
        self.close();
        match keep {
            None => self.world.crash_process(AT),
            Some(n) => self.world.crash_power(AT, n),
        }
        self.open()?;
        if keep.is_some() {
            let rows: BTreeSet<(String, B, B)> = self.world.dump(AT).into_iter().collect();
            let flat = |h: &Rows| h.iter().map(|((cf, p, k), x)| ((*cf, [&p[..], k].concat()), x.clone())).collect::<BTreeSet<_>>();
            let cf = |n: &str| match n {
                "default" => 0,
                "aux" => 1,
                "roots" => 2,
                _ => 3u8,
            };
            let rows: BTreeSet<((u8, B), B)> = rows.into_iter().map(|(c, k, x)| ((cf(&c), k), x)).collect();
            let Some(h) = self.hist.iter().rev().find(|h| flat(h) == rows).cloned() else {
                return v("after a power loss the database holds what it never held");
            };
            self.now += 1;
            self.rows = h;
        }
        self.hist = vec![self.rows.clone()];
        self.whole()
    }
}

impl Drop for StoreM {
    fn drop(&mut self) {
        self.close();
        let _ = &self.world;
    }
}

impl Machine for StoreM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let s = r.next() >> 12;
        let slot = r.below(2) as u64;
        let n = *r.pick(&[1u64, 3, 8, 20]);
        let op = *r.pick(&[
            "begin", "begin", "batch", "batch", "batch", "apply", "apply", "direct", "direct", "walk", "walk", "walk", "end", "end", "rollback", "drop",
            "checkpoint", "reopen", "crash", "power", "flush", "wipe",
        ]);
        if matches!(op, "reopen" | "crash" | "power" | "wipe") && r.chance(2, 3) {
            return Some(Act::C(ca("walk", &[s, slot, 20])));
        }
        let f = (!matches!(op, "begin" | "walk" | "reopen" | "crash" | "power" | "wipe" | "drop") && r.chance(1, 8)).then(|| *r.pick(&[0u32, 0, 0, 1, 2, 5, 12]));
        Some(Act::C(ca(op, &[s, slot, n]).fail(f)))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.stats, a);
        let (seed, s, n) = (a.get(0), (a.get(1) % 2) as usize, a.get(2).min(40) as usize);
        self.fuse.fired.store(0, Ordering::SeqCst);
        self.fuse.n.store(a.fail.map_or(-1, |n| n as i64), Ordering::SeqCst);
        let is = self.slots[s].is_some();
        let res = match a.op.as_str() {
            "begin" if !is => {
                let tx = self.st().start_transaction();
                self.slots[s] = Some(Slot { tx, over: BTreeMap::new(), since: BTreeMap::new() });
                Ok(())
            }
            "batch" if is => self.batch(Some(s), seed, n),
            "apply" => self.batch(None, seed, n),
            "direct" if is => self.direct(s, seed, n),
            "walk" => self.walk(is.then_some(s), seed, n),
            "end" => self.end(s),
            "rollback" if is => {
                let slot = self.slots[s].as_mut().unwrap();
                match unsafe { &*self.st }.rollback_transaction(&slot.tx) {
                    Ok(()) => {
                        slot.over.clear();
                        slot.since.clear();
                        Ok(())
                    }
                    Err(e) => sure(self.hit(), || format!("rollback: {e}")),
                }
            }
            "drop" => {
                self.slots[s] = None;
                self.whole()
            }
            "checkpoint" => self.checkpoint(seed),
            "flush" => match self.st().flush() {
                Ok(()) => {
                    self.hist = vec![self.rows.clone()];
                    Ok(())
                }
                Err(e) => sure(self.hit(), || format!("flush: {e}")),
            },
            "reopen" => {
                self.close();
                self.open()?;
                self.whole()
            }
            "crash" => self.lost(None),
            "power" => self.lost(Some(seed as usize % 6)),
            "wipe" if self.slots.iter().all(|s| s.is_none()) => match self.st().wipe() {
                Ok(()) => {
                    // one range at a time: a power loss may keep some of them
                    for cf in [0u8, 2, 1, 3] {
                        let w = self.rows.keys().filter(|k| k.0 == cf).map(|k| (k.clone(), None)).collect();
                        self.commit(w);
                    }
                    self.whole()
                }
                Err(e) => v(format!("wipe: {e}")),
            },
            _ => {
                self.stats.skipped += 1;
                Ok(())
            }
        };
        self.fuse.n.store(-1, Ordering::SeqCst);
        if self.hit() {
            *self.stats.faults.entry("fail-call".into()).or_default() += 1;
        }
        res?;
        self.stats.states.insert(self.world.digest(AT));
        Ok(())
    }

    fn last(&mut self) -> V {
        for s in 0..2 {
            self.end(s)?;
        }
        self.lost(None)
    }

    fn done(mut self: Box<Self>) -> Stats {
        std::mem::take(&mut self.stats)
    }
}
