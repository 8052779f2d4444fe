//! A simulated RocksDB with the API surface GroveDB uses (and a little more).
//!
//! Semantics modelled after RocksDB's `OptimisticTransactionDB`:
//! * a transaction buffers writes; reads see its own writes over the *current*
//!   committed state (no snapshot is taken unless asked for);
//! * `commit` validates that no key the transaction wrote was committed by
//!   someone else since the transaction first wrote it (else `Busy`), then
//!   applies all its writes as one atomic log record;
//! * an iterator reads a snapshot of the committed state taken when it was
//!   created, merged with the transaction's live write buffer;
//! * committed records are in the log (survive a process crash) but are only
//!   on stable storage after a flush or log sync: a power loss keeps a prefix
//!   of the log records, each of them whole (point-in-time recovery);
//! * a database directory can be open only once at a time.

use std::{
    collections::BTreeMap,
    marker::PhantomData,
    ops::Bound,
    path::Path,
    sync::{Arc, Mutex},
};

pub mod sim;

use sim::{Call, Crashed, Disk, FailKind, Map, Rec, Verdict, World};

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    NotSupported,
    InvalidArgument,
    IOError,
    MergeInProgress,
    Incomplete,
    ShutdownInProgress,
    TimedOut,
    Aborted,
    Busy,
    Expired,
    TryAgain,
    CompactionTooLarge,
    ColumnFamilyDropped,
    Unknown,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}

impl Error {
    pub(crate) fn new(kind: ErrorKind, message: String) -> Self {
        Error { kind, message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}

#[derive(Clone, Debug, Default)]
pub struct Options {
    create_if_missing: bool,
    create_missing_column_families: bool,
}

macro_rules! ignored_setters {
    ($($n:ident: $t:ty),* $(,)?) => { $(pub fn $n(&mut self, _: $t) {})* };
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_column_families = v;
    }
    ignored_setters!(
        increase_parallelism: i32,
        set_allow_mmap_writes: bool,
        set_allow_mmap_reads: bool,
        set_atomic_flush: bool,
        set_disable_auto_compactions: bool,
        set_max_background_jobs: i32,
        set_write_buffer_size: usize,
    );
}

pub struct ColumnFamilyDescriptor {
    name: String,
    #[allow(dead_code)]
    options: Options,
}

impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, options: Options) -> Self {
        ColumnFamilyDescriptor {
            name: name.into(),
            options,
        }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
}

pub struct ColumnFamily {
    id: usize,
}

pub trait AsColumnFamilyRef {
    fn cf_id(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn cf_id(&self) -> usize {
        self.id
    }
}
impl<T: AsColumnFamilyRef + ?Sized> AsColumnFamilyRef for &T {
    fn cf_id(&self) -> usize {
        (**self).cf_id()
    }
}

#[derive(Clone)]
struct Core {
    world: Arc<World>,
    path: String,
    incarnation: u64,
}

fn die() -> ! {
    std::panic::panic_any(Crashed)
}

impl Core {
    fn gate(&self, call: Call) -> Result<bool, Error> {
        match self.world.decide(&self.path, call) {
            Verdict::Proceed => Ok(false),
            Verdict::CrashAfter => Ok(true),
            Verdict::CrashBefore => die(),
            Verdict::Fail(k) => Err(k.error(call)),
            Verdict::FailAmbiguous(_) => Err(FailKind::Io.error(call)),
        }
    }

    fn with<R>(&self, f: impl FnOnce(&mut Disk) -> R) -> R {
        let mut disks = self
            .world
            .disks
            .lock()
            .unwrap_or_else(|e| e.into_inner());
        let d = disks.get_mut(&self.path);
        match d {
            Some(d) if d.incarnation == self.incarnation => f(d),
            // the process this handle belonged to is gone
            _ => {
                drop(disks);
                die()
            }
        }
    }

    fn snapshot(&self, cf: usize) -> Arc<Map> {
        self.with(|d| d.cfs[cf].data.clone())
    }

    /// Durable write of one atomic record.
    fn write(&self, call: Call, check: impl FnOnce(&Disk) -> Result<(), Error>, recs: Vec<Rec>) -> Result<(), Error> {
        let v = self.world.decide(&self.path, call);
        match v {
            Verdict::CrashBefore => die(),
            Verdict::Fail(k) => return Err(k.error(call)),
            _ => {}
        }
        self.with(|d| {
            if d.read_only_error {
                return Err(Error::new(
                    ErrorKind::IOError,
                    "IO error: database is read-only after a background error (simulated)".into(),
                ));
            }
            check(d)?;
            if let Verdict::FailAmbiguous(reached) = v {
                d.read_only_error = true;
                d.limbo = reached.then_some(recs);
                return Err(FailKind::Io.error(call));
            }
            d.log(recs);
            Ok(())
        })?;
        if v == Verdict::CrashAfter {
            die()
        }
        Ok(())
    }
}

pub struct OptimisticTransactionDB {
    core: Core,
    cfs: BTreeMap<String, ColumnFamily>,
    readonly: bool,
}

impl std::fmt::Debug for OptimisticTransactionDB {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "OptimisticTransactionDB({})", self.core.path)
    }
}

impl Drop for OptimisticTransactionDB {
    fn drop(&mut self) {
        let mut disks = self
            .core
            .world
            .disks
            .lock()
            .unwrap_or_else(|e| e.into_inner());
        if let Some(d) = disks.get_mut(&self.core.path) {
            if d.incarnation == self.core.incarnation {
                if d.read_only_error || d.limbo.is_some() {
                    // closing after a failed log write: what reached the log
                    // is replayed at the next open
                    if let Some(l) = d.limbo.take() {
                        d.apply(&l);
                        d.wal.push(l);
                    }
                    d.read_only_error = false;
                }
                d.open = false;
            }
        }
    }
}

const MARKER: &str = "CURRENT";

impl OptimisticTransactionDB {
    pub fn open_cf_descriptors<P, I>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let world = sim::current();
        let path_ref = path.as_ref();
        let path = path_ref.to_string_lossy().trim_end_matches('/').to_string();
        let v = world.decide(&path, Call::Open);
        match v {
            Verdict::CrashBefore => die(),
            Verdict::Fail(k) => return Err(k.error(Call::Open)),
            Verdict::FailAmbiguous(_) => return Err(FailKind::Io.error(Call::Open)),
            _ => {}
        }
        if world.is_real(&path) {
            let marker = path_ref.join(MARKER);
            if !marker.exists() {
                world.disks.lock().unwrap().remove(&path);
                if opts.create_if_missing {
                    std::fs::create_dir_all(path_ref)
                        .and_then(|_| std::fs::write(&marker, b"MANIFEST-000001\n"))
                        .map_err(|e| Error::new(ErrorKind::IOError, format!("IO error: {e}")))?;
                }
            }
        }
        let mut disks = world.disks.lock().unwrap_or_else(|e| e.into_inner());
        if !disks.contains_key(&path) {
            if !opts.create_if_missing {
                return Err(Error::new(
                    ErrorKind::InvalidArgument,
                    format!(
                        "Invalid argument: {path}: does not exist (create_if_missing is false)"
                    ),
                ));
            }
            disks.insert(path.clone(), Disk::default());
        }
        let d = disks.get_mut(&path).expect("just ensured");
        if d.open {
            return Err(Error::new(
                ErrorKind::IOError,
                format!("IO error: lock hold by current process: {path}/LOCK: No locks available"),
            ));
        }
        let mut names = vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()];
        for c in cfs {
            if !names.contains(&c.name) {
                names.push(c.name);
            }
        }
        if let Some(missing) = d.cf_names.iter().find(|n| !names.contains(n)) {
            return Err(Error::new(
                ErrorKind::InvalidArgument,
                format!("Invalid argument: Column families not opened: {missing}"),
            ));
        }
        for n in &names {
            if !d.cf_names.contains(n) {
                if !opts.create_missing_column_families
                    && !(d.cf_names.is_empty() && n == DEFAULT_COLUMN_FAMILY_NAME)
                {
                    return Err(Error::new(
                        ErrorKind::InvalidArgument,
                        format!("Invalid argument: Column family not found: {n}"),
                    ));
                }
                d.cf_names.push(n.clone());
                d.cfs.push(Default::default());
                d.durable.push(Default::default());
            }
        }
        d.open = true;
        d.incarnation += 1;
        let incarnation = d.incarnation;
        let cfs = d
            .cf_names
            .iter()
            .enumerate()
            .map(|(id, n)| (n.clone(), ColumnFamily { id }))
            .collect();
        drop(disks);
        let db = OptimisticTransactionDB {
            core: Core {
                world,
                path,
                incarnation,
            },
            cfs,
            readonly: !opts.create_if_missing,
        };
        if v == Verdict::CrashAfter {
            die()
        }
        Ok(db)
    }

    pub fn is_checkpoint_handle(&self) -> bool {
        self.readonly
    }

    pub fn path(&self) -> &Path {
        Path::new(&self.core.path)
    }

    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.cfs.get(name)
    }

    pub fn transaction(&self) -> Transaction<'_, Self> {
        // beginning a transaction cannot fail in RocksDB
        match self.core.world.decide(&self.core.path, Call::BeginTxn) {
            Verdict::CrashBefore | Verdict::CrashAfter => die(),
            _ => {}
        }
        Transaction {
            core: self.core.clone(),
            buf: Arc::new(Mutex::new(TxnBuf::default())),
            _db: PhantomData,
        }
    }

    pub fn write(&self, batch: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        self.core.write(Call::DbWrite, |_| Ok(()), batch.recs)
    }

    fn get_in(&self, cf: usize, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        if self.core.gate(Call::Get)? {
            die()
        }
        Ok(self.core.with(|d| d.cfs[cf].data.get(key).cloned()))
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.get_in(0, key.as_ref())
    }

    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.get_in(cf.cf_id(), key.as_ref())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        let r = vec![Rec::Put(0, key.as_ref().to_vec(), value.as_ref().to_vec())];
        self.core.write(Call::DbWrite, |_| Ok(()), r)
    }

    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        let r = vec![Rec::Put(
            cf.cf_id(),
            key.as_ref().to_vec(),
            value.as_ref().to_vec(),
        )];
        self.core.write(Call::DbWrite, |_| Ok(()), r)
    }

    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        let r = vec![Rec::Delete(0, key.as_ref().to_vec())];
        self.core.write(Call::DbWrite, |_| Ok(()), r)
    }

    pub fn delete_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<(), Error> {
        let r = vec![Rec::Delete(cf.cf_id(), key.as_ref().to_vec())];
        self.core.write(Call::DbWrite, |_| Ok(()), r)
    }

    pub fn delete_range_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        from: K,
        to: K,
    ) -> Result<(), Error> {
        let r = vec![Rec::DeleteRange(
            cf.cf_id(),
            from.as_ref().to_vec(),
            to.as_ref().to_vec(),
        )];
        self.core.write(Call::DeleteRange, |_| Ok(()), r)
    }

    pub fn flush(&self) -> Result<(), Error> {
        let crash = self.core.gate(Call::Flush)?;
        self.core.with(|d| d.make_durable());
        if crash {
            die()
        }
        Ok(())
    }

    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(self.core.clone(), 0, None)
    }

    pub fn raw_iterator_cf(
        &self,
        cf: &impl AsColumnFamilyRef,
    ) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(self.core.clone(), cf.cf_id(), None)
    }
}

#[derive(Default)]
struct TxnBuf {
    puts: u64,
    /// last write per (cf, key): None = delete
    writes: BTreeMap<(usize, Vec<u8>), Option<Vec<u8>>>,
    /// sequence number of the database when the key was first written here
    tracked: BTreeMap<(usize, Vec<u8>), u64>,
}

pub struct Transaction<'db, D> {
    core: Core,
    buf: Arc<Mutex<TxnBuf>>,
    _db: PhantomData<&'db D>,
}

impl<'db, D> Transaction<'db, D> {
    /// simulation only: rows it holds, and writes made to it so far
    pub fn sim_writes(&self) -> (usize, u64) {
        let b = self.buf();
        (b.writes.len(), b.puts)
    }

    fn buf(&self) -> std::sync::MutexGuard<'_, TxnBuf> {
        self.buf.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn set(&self, cf: usize, key: &[u8], value: Option<&[u8]>) {
        let seq = self.core.with(|d| d.seq);
        let mut b = self.buf();
        let k = (cf, key.to_vec());
        b.puts += 1;
        b.tracked.entry(k.clone()).or_insert(seq);
        b.writes.insert(k, value.map(|v| v.to_vec()));
    }

    fn read(&self, cf: usize, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        if self.core.gate(Call::Get)? {
            die()
        }
        if let Some(v) = self.buf().writes.get(&(cf, key.to_vec())) {
            return Ok(v.clone());
        }
        Ok(self.core.with(|d| d.cfs[cf].data.get(key).cloned()))
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(0, key.as_ref())
    }

    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.read(cf.cf_id(), key.as_ref())
    }

    fn buffered(&self, call: Call, cf: usize, key: &[u8], v: Option<&[u8]>) -> Result<(), Error> {
        let crash = self.core.gate(call)?;
        self.set(cf, key, v);
        if crash {
            die()
        }
        Ok(())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.buffered(Call::TxnPut, 0, key.as_ref(), Some(value.as_ref()))
    }

    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.buffered(Call::TxnPut, cf.cf_id(), key.as_ref(), Some(value.as_ref()))
    }

    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.buffered(Call::TxnDelete, 0, key.as_ref(), None)
    }

    pub fn delete_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<(), Error> {
        self.buffered(Call::TxnDelete, cf.cf_id(), key.as_ref(), None)
    }

    /// Adds the batch's operations to this transaction, as RocksDB's
    /// `RebuildFromWriteBatch` does.
    pub fn rebuild_from_writebatch(
        &self,
        batch: &WriteBatchWithTransaction<true>,
    ) -> Result<(), Error> {
        let crash = self.core.gate(Call::TxnRebuild)?;
        for r in &batch.recs {
            match r {
                Rec::Put(cf, k, v) => self.set(*cf, k, Some(v)),
                Rec::Delete(cf, k) => self.set(*cf, k, None),
                Rec::DeleteRange(..) => {
                    return Err(Error::new(
                        ErrorKind::NotSupported,
                        "Not implemented: DeleteRange in transaction".into(),
                    ))
                }
            }
        }
        if crash {
            die()
        }
        Ok(())
    }

    pub fn commit(self) -> Result<(), Error> {
        let (writes, tracked) = {
            let b = self.buf();
            (b.writes.clone(), b.tracked.clone())
        };
        let recs: Vec<Rec> = writes
            .into_iter()
            .map(|((cf, k), v)| match v {
                Some(v) => Rec::Put(cf, k, v),
                None => Rec::Delete(cf, k),
            })
            .collect();
        if recs.is_empty() {
            if self.core.gate(Call::Commit)? {
                die()
            }
            return Ok(());
        }
        self.core.write(
            Call::Commit,
            |d| {
                for ((cf, k), seq) in &tracked {
                    if d.cfs[*cf].last_seq.get(k).is_some_and(|s| s > seq) {
                        return Err(Error::new(ErrorKind::Busy, "Resource busy: ".into()));
                    }
                }
                Ok(())
            },
            recs,
        )
    }

    pub fn rollback(&self) -> Result<(), Error> {
        let crash = self.core.gate(Call::Rollback)?;
        let mut b = self.buf();
        b.writes.clear();
        b.tracked.clear();
        drop(b);
        if crash {
            die()
        }
        Ok(())
    }

    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(self.core.clone(), 0, Some(self.buf.clone()))
    }

    pub fn raw_iterator_cf(
        &self,
        cf: &impl AsColumnFamilyRef,
    ) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode::new(self.core.clone(), cf.cf_id(), Some(self.buf.clone()))
    }
}

pub struct WriteBatchWithTransaction<const TRANSACTION: bool> {
    recs: Vec<Rec>,
}

pub type WriteBatch = WriteBatchWithTransaction<false>;

impl<const T: bool> Default for WriteBatchWithTransaction<T> {
    fn default() -> Self {
        WriteBatchWithTransaction { recs: Vec::new() }
    }
}

impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.recs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.recs.is_empty()
    }
    pub fn clear(&mut self) {
        self.recs.clear();
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.recs.push(Rec::Put(
            0,
            key.as_ref().to_vec(),
            value.as_ref().to_vec(),
        ));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &mut self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) {
        self.recs.push(Rec::Put(
            cf.cf_id(),
            key.as_ref().to_vec(),
            value.as_ref().to_vec(),
        ));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.recs.push(Rec::Delete(0, key.as_ref().to_vec()));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K) {
        self.recs
            .push(Rec::Delete(cf.cf_id(), key.as_ref().to_vec()));
    }
}

pub struct DBRawIteratorWithThreadMode<'a, D> {
    core: Core,
    cf: usize,
    base: Arc<Map>,
    delta: Option<Arc<Mutex<TxnBuf>>>,
    cur: Option<(Vec<u8>, Vec<u8>)>,
    status: Result<(), Error>,
    _d: PhantomData<&'a D>,
}

pub type DBRawIterator<'a> = DBRawIteratorWithThreadMode<'a, OptimisticTransactionDB>;

impl<'a, D> DBRawIteratorWithThreadMode<'a, D> {
    fn new(core: Core, cf: usize, delta: Option<Arc<Mutex<TxnBuf>>>) -> Self {
        let status = match core.gate(Call::IterNew) {
            Ok(true) => die(),
            Ok(false) => Ok(()),
            Err(e) => Err(e),
        };
        let base = core.snapshot(cf);
        DBRawIteratorWithThreadMode {
            core,
            cf,
            base,
            delta,
            cur: None,
            status,
            _d: PhantomData,
        }
    }

    fn forward(&self, from: Bound<&[u8]>) -> Option<(Vec<u8>, Vec<u8>)> {
        let mut from: Bound<Vec<u8>> = match from {
            Bound::Included(k) => Bound::Included(k.to_vec()),
            Bound::Excluded(k) => Bound::Excluded(k.to_vec()),
            Bound::Unbounded => Bound::Unbounded,
        };
        let guard = self
            .delta
            .as_ref()
            .map(|d| d.lock().unwrap_or_else(|e| e.into_inner()));
        loop {
            let b = self
                .base
                .range::<Vec<u8>, _>((from.as_ref(), Bound::Unbounded))
                .next();
            let d = guard.as_ref().and_then(|g| {
                let lo = match &from {
                    Bound::Included(k) => Bound::Included((self.cf, k.clone())),
                    Bound::Excluded(k) => Bound::Excluded((self.cf, k.clone())),
                    Bound::Unbounded => Bound::Included((self.cf, vec![])),
                };
                g.writes
                    .range((lo, Bound::Excluded((self.cf + 1, vec![]))))
                    .next()
            });
            match (b, d) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((bk, bv)), Some((dk, _))) if *bk < dk.1 => {
                    return Some((bk.clone(), bv.clone()))
                }
                (_, Some((dk, dv))) => match dv {
                    Some(v) => return Some((dk.1.clone(), v.clone())),
                    None => from = Bound::Excluded(dk.1.clone()),
                },
            }
        }
    }

    fn backward(&self, to: Bound<&[u8]>) -> Option<(Vec<u8>, Vec<u8>)> {
        let mut to: Bound<Vec<u8>> = match to {
            Bound::Included(k) => Bound::Included(k.to_vec()),
            Bound::Excluded(k) => Bound::Excluded(k.to_vec()),
            Bound::Unbounded => Bound::Unbounded,
        };
        let guard = self
            .delta
            .as_ref()
            .map(|d| d.lock().unwrap_or_else(|e| e.into_inner()));
        loop {
            let b = self
                .base
                .range::<Vec<u8>, _>((Bound::Unbounded, to.as_ref()))
                .next_back();
            let d = guard.as_ref().and_then(|g| {
                let hi = match &to {
                    Bound::Included(k) => Bound::Included((self.cf, k.clone())),
                    Bound::Excluded(k) => Bound::Excluded((self.cf, k.clone())),
                    Bound::Unbounded => Bound::Excluded((self.cf + 1, vec![])),
                };
                g.writes
                    .range((Bound::Included((self.cf, vec![])), hi))
                    .next_back()
            });
            match (b, d) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((bk, bv)), Some((dk, _))) if *bk > dk.1 => {
                    return Some((bk.clone(), bv.clone()))
                }
                (_, Some((dk, dv))) => match dv {
                    Some(v) => return Some((dk.1.clone(), v.clone())),
                    None => to = Bound::Excluded(dk.1.clone()),
                },
            }
        }
    }

    fn step(&mut self, f: impl FnOnce(&Self) -> Option<(Vec<u8>, Vec<u8>)>) {
        match self.core.gate(Call::IterMove) {
            Ok(true) => die(),
            Ok(false) => {
                self.core.with(|_| ());
                self.status = Ok(());
                self.cur = f(self);
            }
            Err(e) => {
                // as in RocksDB: the iterator becomes invalid and only
                // `status()` tells an error from the end of the data
                self.status = Err(e);
                self.cur = None;
            }
        }
    }

    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        self.status.clone()
    }
    pub fn seek_to_first(&mut self) {
        self.step(|s| s.forward(Bound::Unbounded));
    }
    pub fn seek_to_last(&mut self) {
        self.step(|s| s.backward(Bound::Unbounded));
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, key: K) {
        self.step(|s| s.forward(Bound::Included(key.as_ref())));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.step(|s| s.backward(Bound::Included(key.as_ref())));
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.step(|s| s.forward(Bound::Excluded(&k)));
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.step(|s| s.backward(Bound::Excluded(&k)));
        }
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|c| c.0.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|c| c.1.as_slice())
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.cur.as_ref().map(|c| (c.0.as_slice(), c.1.as_slice()))
    }
}

pub mod checkpoint {
    use super::*;

    pub struct Checkpoint<'db> {
        core: Core,
        _db: PhantomData<&'db ()>,
    }

    impl<'db> Checkpoint<'db> {
        pub fn new(db: &'db OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Checkpoint {
                core: db.core.clone(),
                _db: PhantomData,
            })
        }

        pub fn create_checkpoint<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
            self.create_checkpoint_with_log_size(path, 0)
        }

        /// All-or-nothing copy of the committed state (RocksDB builds it in a
        /// temporary directory and renames it at the end).
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(
            &self,
            path: P,
            _log_size_for_flush: u64,
        ) -> Result<(), Error> {
            let p = path.as_ref();
            let to = p.to_string_lossy().trim_end_matches('/').to_string();
            let crash = self.core.gate(Call::Checkpoint)?;
            if self.core.world.is_real(&to) {
                if p.exists() {
                    return Err(Error::new(
                        ErrorKind::InvalidArgument,
                        "Invalid argument: Directory exists".into(),
                    ));
                }
                std::fs::create_dir(p)
                    .and_then(|_| std::fs::write(p.join(MARKER), b"MANIFEST-000001\n"))
                    .map_err(|e| Error::new(ErrorKind::IOError, format!("IO error: {e}")))?;
                self.core.world.disks.lock().unwrap().remove(&to);
            }
            let image = self.core.with(|d| d.clone());
            let mut disks = self.core.world.disks.lock().unwrap();
            if disks.contains_key(&to) {
                return Err(Error::new(
                    ErrorKind::InvalidArgument,
                    "Invalid argument: Directory exists".into(),
                ));
            }
            let mut d = image;
            d.open = false;
            d.limbo = None;
            d.read_only_error = false;
            d.make_durable();
            disks.insert(to, d);
            drop(disks);
            if crash {
                die()
            }
            Ok(())
        }
    }
}
