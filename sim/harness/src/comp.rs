//! What the simulations of single parts (append-only trees, flags, decoders)
//! share: the form of their actions, a store that fails on command, and
//! damage to messages.
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    rc::Rc,
};

use grovedb_costs::{
    ChildrenSizesWithIsSumTree, CostContext, CostResult, CostsExt, OperationCost,
    storage_cost::key_value_cost::KeyValueStorageCost,
};
use grovedb_storage::{Batch, Error, RawIterator, StorageContext};
use serde::{Deserialize, Serialize};

use crate::{check::*, ops::B, rng::*, sim::Stats};

/// an action: what, with which numbers, and which storage call in it fails
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CAct {
    pub op: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub n: Vec<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail: Option<u32>,
}

pub fn ca(op: &str, n: &[u64]) -> CAct {
    CAct { op: op.into(), n: n.to_vec(), fail: None }
}

impl CAct {
    pub fn fail(mut self, f: Option<u32>) -> Self {
        self.fail = f;
        self
    }
    pub fn get(&self, i: usize) -> u64 {
        self.n.get(i).copied().unwrap_or(0)
    }
}

#[derive(Default)]
struct Mem {
    /// what survives
    durable: RefCell<BTreeMap<B, B>>,
    /// written in this session
    pending: RefCell<Vec<(B, B)>>,
    /// writes take effect at once
    immediate: Cell<bool>,
    /// calls until one fails
    fuse: Cell<Option<u32>>,
    failed: Cell<u32>,
    gets: Cell<u64>,
    puts: Cell<u64>,
}

/// a storage context over memory, shared by its clones
#[derive(Clone, Default)]
pub struct MemCtx(Rc<Mem>);

impl MemCtx {
    pub fn new(immediate: bool) -> Self {
        let m = MemCtx::default();
        m.0.immediate.set(immediate);
        m
    }
    /// the n-th call from now on fails (0: the next)
    pub fn arm(&self, n: Option<u32>) {
        self.0.fuse.set(n);
        self.0.failed.set(0);
    }
    /// did a call fail since arm
    pub fn disarm(&self) -> bool {
        self.0.fuse.set(None);
        self.0.failed.get() > 0
    }
    fn trip(&self) -> Result<(), Error> {
        match self.0.fuse.get() {
            Some(0) => {
                self.0.fuse.set(None);
                self.0.failed.set(self.0.failed.get() + 1);
                Err(Error::StorageError("injected".into()))
            }
            Some(n) => {
                self.0.fuse.set(Some(n - 1));
                Ok(())
            }
            None => Ok(()),
        }
    }
    /// pending writes become durable, at once
    pub fn flush(&self) {
        let p = std::mem::take(&mut *self.0.pending.borrow_mut());
        self.0.durable.borrow_mut().extend(p);
    }
    /// pending writes are lost
    pub fn crash(&self) {
        self.0.pending.borrow_mut().clear();
    }
    pub fn calls(&self) -> u64 {
        self.0.gets.get() + self.0.puts.get()
    }
    pub fn dump(&self) -> BTreeMap<B, B> {
        self.0.durable.borrow().clone()
    }
}

pub struct NoBatch;
impl Batch for NoBatch {
    fn put<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: ChildrenSizesWithIsSumTree,
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn put_aux<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn put_root<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn delete<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
    fn delete_aux<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
    fn delete_root<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {}
}

pub struct NoIter;
impl RawIterator for NoIter {
    fn seek_to_first(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn next(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn prev(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn valid(&self) -> CostContext<bool> {
        unimplemented!()
    }
}

type R<T> = CostResult<T, Error>;

impl MemCtx {
    fn key(space: u8, k: &[u8]) -> B {
        let mut v = vec![space];
        v.extend_from_slice(k);
        v
    }
    fn read(&self, space: u8, k: &[u8]) -> R<Option<B>> {
        self.0.gets.set(self.0.gets.get() + 1);
        if let Err(e) = self.trip() {
            return Err(e).wrap_with_cost(OperationCost::default());
        }
        let v = self.0.durable.borrow().get(&Self::key(space, k)).cloned();
        let cost = OperationCost {
            seek_count: 1,
            storage_loaded_bytes: v.as_ref().map_or(0, |v| v.len() as u64),
            ..Default::default()
        };
        Ok(v).wrap_with_cost(cost)
    }
    fn write(&self, space: u8, k: &[u8], v: &[u8]) -> R<()> {
        self.0.puts.set(self.0.puts.get() + 1);
        if let Err(e) = self.trip() {
            return Err(e).wrap_with_cost(OperationCost::default());
        }
        let k = Self::key(space, k);
        if self.0.immediate.get() {
            self.0.durable.borrow_mut().insert(k.clone(), v.to_vec());
        } else {
            self.0.pending.borrow_mut().push((k.clone(), v.to_vec()));
        }
        Ok(()).wrap_with_cost(OperationCost {
            seek_count: 1,
            storage_loaded_bytes: (k.len() + v.len()) as u64,
            ..Default::default()
        })
    }
}

impl<'db> StorageContext<'db> for MemCtx {
    type Batch = NoBatch;
    type RawIterator = NoIter;

    fn put<K: AsRef<[u8]>>(
        &self,
        k: K,
        v: &[u8],
        _: ChildrenSizesWithIsSumTree,
        _: Option<KeyValueStorageCost>,
    ) -> R<()> {
        self.write(0, k.as_ref(), v)
    }
    fn put_aux<K: AsRef<[u8]>>(&self, k: K, v: &[u8], _: Option<KeyValueStorageCost>) -> R<()> {
        self.write(1, k.as_ref(), v)
    }
    fn put_root<K: AsRef<[u8]>>(&self, k: K, v: &[u8], _: Option<KeyValueStorageCost>) -> R<()> {
        self.write(2, k.as_ref(), v)
    }
    fn put_meta<K: AsRef<[u8]>>(&self, k: K, v: &[u8], _: Option<KeyValueStorageCost>) -> R<()> {
        self.write(3, k.as_ref(), v)
    }
    fn delete<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        unimplemented!()
    }
    fn delete_aux<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        unimplemented!()
    }
    fn delete_root<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        unimplemented!()
    }
    fn delete_meta<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> R<()> {
        unimplemented!()
    }
    fn get<K: AsRef<[u8]>>(&self, k: K) -> R<Option<B>> {
        self.read(0, k.as_ref())
    }
    fn get_aux<K: AsRef<[u8]>>(&self, k: K) -> R<Option<B>> {
        self.read(1, k.as_ref())
    }
    fn get_root<K: AsRef<[u8]>>(&self, k: K) -> R<Option<B>> {
        self.read(2, k.as_ref())
    }
    fn get_meta<K: AsRef<[u8]>>(&self, k: K) -> R<Option<B>> {
        self.read(3, k.as_ref())
    }
    fn new_batch(&self) -> NoBatch {
        NoBatch
    }
    fn commit_batch(&self, _: NoBatch) -> R<()> {
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn raw_iter(&self) -> NoIter {
        NoIter
    }
}

// ------------------------------------------------------------------ damage

/// what a faulty network makes of a message; `other` is a message of the same
/// kind seen before
pub fn damage(r: &mut Rng, b: &[u8], other: &[u8]) -> B {
    let mut v = b.to_vec();
    for _ in 0..r.range(1, 3) {
        let n = v.len();
        match r.below(12) {
            0 | 1 | 2 if n > 0 => {
                let i = r.below(n);
                v[i] ^= 1 << r.below(8);
            }
            3 | 4 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]);
            }
            5 if n > 0 => v.truncate(r.below(n)),
            6 => {
                let k = r.range(1, 9);
                v.extend(r.bytes(k));
            }
            7 if n > 0 => {
                let i = r.below(n);
                let j = r.range(i, n - 1).min(i + 64);
                v.drain(i..=j);
            }
            8 if n > 0 => {
                let i = r.below(n);
                let j = r.range(i, n - 1).min(i + 64);
                let part = v[i..=j].to_vec();
                let at = r.below(n);
                v.splice(at..at, part);
            }
            9 if n > 1 && !other.is_empty() => {
                let i = r.below(n);
                let j = r.below(other.len());
                v.truncate(i);
                v.extend_from_slice(&other[j..]);
            }
            10 if n > 8 => {
                let i = r.below(n - 7);
                let w = *r.pick(&[1usize, 2, 4, 8]);
                for x in &mut v[i..i + w] {
                    *x = 0xff;
                }
            }
            11 if n > 2 => {
                // exchange two stretches
                let w = r.range(1, 33.min(n / 2));
                let i = r.below(n - w + 1);
                let j = r.below(n - w + 1);
                for k in 0..w {
                    v.swap(i + k, j + k);
                }
            }
            _ => {
                let at = r.below(n + 1);
                v.insert(at, r.next() as u8);
            }
        }
    }
    v
}

/// machine-independent bookkeeping of a component run
pub fn note(st: &mut Stats, a: &CAct) {
    st.steps += 1;
    st.ev(&a.op);
    let s = serde_json::to_string(a).unwrap();
    let mut h = st.trace;
    for b in s.bytes() {
        h = mix(h ^ b as u64);
    }
    st.trace = h | 1;
}

pub fn ensure(c: bool, class: &str, msg: impl FnOnce() -> String) -> V {
    if c { Ok(()) } else { viol(class, msg()) }
}
