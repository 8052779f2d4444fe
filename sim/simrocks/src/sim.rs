//! Simulator side of the engine: the world (disks), the hook every engine call
//! goes through, and crash/recovery control.

use std::{
    cell::RefCell,
    collections::BTreeMap,
    sync::{Arc, Mutex, OnceLock},
};

use crate::{Error, ErrorKind};

/// What the database asked the engine to do.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Call {
    Open,
    BeginTxn,
    Get,
    IterNew,
    IterMove,
    TxnPut,
    TxnDelete,
    TxnRebuild,
    Commit,
    Rollback,
    DbWrite,
    Flush,
    Checkpoint,
    DeleteRange,
}

pub const CALLS: [Call; 14] = [
    Call::Open,
    Call::BeginTxn,
    Call::Get,
    Call::IterNew,
    Call::IterMove,
    Call::TxnPut,
    Call::TxnDelete,
    Call::TxnRebuild,
    Call::Commit,
    Call::Rollback,
    Call::DbWrite,
    Call::Flush,
    Call::Checkpoint,
    Call::DeleteRange,
];

impl Call {
    pub fn is_write(self) -> bool {
        matches!(
            self,
            Call::Commit | Call::DbWrite | Call::Flush | Call::Checkpoint | Call::DeleteRange
        )
    }
}

/// The simulator's decision about one engine call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Proceed,
    /// The call fails before it had any effect.
    Fail(FailKind),
    /// A durable write (commit / batch write) fails with an I/O error, the
    /// engine goes read-only until reopened, and whether the record reached
    /// the log is only known after restart (`true`: it did).
    FailAmbiguous(bool),
    /// The process dies before the call takes effect.
    CrashBefore,
    /// The process dies right after the call took effect.
    CrashAfter,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FailKind {
    Io,
    NoSpace,
    Busy,
    TryAgain,
    Corruption,
}

impl FailKind {
    pub(crate) fn error(self, call: Call) -> Error {
        let (kind, text) = match self {
            FailKind::Io => (ErrorKind::IOError, "IO error: simulated input/output error"),
            FailKind::NoSpace => (
                ErrorKind::IOError,
                "IO error: No space left on device (simulated)",
            ),
            FailKind::Busy => (ErrorKind::Busy, "Resource busy: (simulated)"),
            FailKind::TryAgain => (ErrorKind::TryAgain, "Operation failed. Try again.: (simulated)"),
            FailKind::Corruption => (ErrorKind::Corruption, "Corruption: block checksum mismatch (simulated)"),
        };
        Error::new(kind, format!("{text} at {call:?}"))
    }
}

/// Panic payload of a simulated process crash.
pub struct Crashed;

pub trait Hook: Send + Sync {
    fn at(&self, db: &str, call: Call) -> Verdict;
}

pub(crate) type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug)]
pub(crate) enum Rec {
    Put(usize, Vec<u8>, Vec<u8>),
    Delete(usize, Vec<u8>),
    DeleteRange(usize, Vec<u8>, Vec<u8>),
}

#[derive(Clone, Default)]
pub(crate) struct Cf {
    pub data: Arc<Map>,
    /// sequence number of the last committed write of a key
    pub last_seq: BTreeMap<Vec<u8>, u64>,
}

#[derive(Clone, Default)]
pub(crate) struct Disk {
    pub cf_names: Vec<String>,
    pub cfs: Vec<Cf>,
    pub seq: u64,
    /// what is on stable storage
    pub durable: Vec<Arc<Map>>,
    /// records written after `durable`, oldest first; the first `synced`
    /// of them are on stable storage as well
    pub wal: Vec<Vec<Rec>>,
    pub synced: usize,
    pub open: bool,
    /// bumped at every crash: handles of an older incarnation are dead
    pub incarnation: u64,
    pub read_only_error: bool,
    pub limbo: Option<Vec<Rec>>,
    pub writes: u64,
}

impl Disk {
    pub(crate) fn apply(&mut self, recs: &[Rec]) {
        for r in recs {
            self.seq += 1;
            match r {
                Rec::Put(cf, k, v) => {
                    let c = &mut self.cfs[*cf];
                    Arc::make_mut(&mut c.data).insert(k.clone(), v.clone());
                    c.last_seq.insert(k.clone(), self.seq);
                }
                Rec::Delete(cf, k) => {
                    let c = &mut self.cfs[*cf];
                    Arc::make_mut(&mut c.data).remove(k);
                    c.last_seq.insert(k.clone(), self.seq);
                }
                Rec::DeleteRange(cf, a, b) => {
                    let c = &mut self.cfs[*cf];
                    if a >= b {
                        continue;
                    }
                    let keys: Vec<_> = c
                        .data
                        .range(a.clone()..b.clone())
                        .map(|(k, _)| k.clone())
                        .collect();
                    let d = Arc::make_mut(&mut c.data);
                    for k in keys {
                        d.remove(&k);
                        c.last_seq.insert(k, self.seq);
                    }
                }
            }
        }
    }

    pub(crate) fn log(&mut self, recs: Vec<Rec>) {
        self.apply(&recs);
        self.wal.push(recs);
        self.writes += 1;
    }

    pub(crate) fn make_durable(&mut self) {
        self.durable = self.cfs.iter().map(|c| c.data.clone()).collect();
        self.wal.clear();
        self.synced = 0;
    }

    /// Recover to `durable` plus the first `keep` log records.
    fn recover(&mut self, keep: usize) {
        let keep = keep.clamp(self.synced, self.wal.len());
        let mut wal: Vec<Vec<Rec>> = std::mem::take(&mut self.wal);
        let lost_any = keep < wal.len();
        wal.truncate(keep);
        for (i, c) in self.cfs.iter_mut().enumerate() {
            c.data = self.durable.get(i).cloned().unwrap_or_default();
            c.last_seq.clear();
        }
        for recs in &wal {
            self.apply(recs);
        }
        if let Some(l) = self.limbo.take() {
            // the ambiguous record is the newest one: it can only have
            // survived when nothing before it was lost
            if !lost_any {
                self.apply(&l);
            }
        }
        for c in self.cfs.iter_mut() {
            c.last_seq.clear();
        }
        self.make_durable();
        self.open = false;
        self.read_only_error = false;
        self.incarnation += 1;
    }
}

/// All simulated disks plus the hook deciding every engine call.
pub struct World {
    pub(crate) disks: Mutex<BTreeMap<String, Disk>>,
    hook: Mutex<Option<Arc<dyn Hook>>>,
    /// create real directories for database paths (for running the
    /// repository's own unit tests on this engine)
    pub(crate) real_dirs: bool,
    /// paths below this one have real directories, too
    scratch: Mutex<Option<String>>,
}

impl World {
    pub fn new() -> Arc<Self> {
        Arc::new(World {
            disks: Mutex::new(BTreeMap::new()),
            hook: Mutex::new(None),
            real_dirs: false,
            scratch: Mutex::new(None),
        })
    }

    pub fn set_scratch(&self, dir: &str) {
        *self.scratch.lock().unwrap() = Some(dir.to_string());
    }

    pub(crate) fn is_real(&self, path: &str) -> bool {
        self.real_dirs || self.scratch.lock().unwrap().as_ref().is_some_and(|s| path.starts_with(s.as_str()))
    }

    pub fn set_hook(&self, h: Option<Arc<dyn Hook>>) {
        *self.hook.lock().unwrap() = h;
    }

    pub(crate) fn decide(&self, db: &str, call: Call) -> Verdict {
        let h = self.hook.lock().unwrap().clone();
        match h {
            Some(h) => h.at(db, call),
            None => Verdict::Proceed,
        }
    }

    /// Make this world the current one of the calling thread.
    pub fn enter(self: &Arc<Self>) {
        CURRENT.with(|c| *c.borrow_mut() = Some(self.clone()));
    }

    pub fn leave() {
        CURRENT.with(|c| *c.borrow_mut() = None);
    }

    /// Number of log records of `path` not yet on stable storage.
    pub fn unsynced(&self, path: &str) -> usize {
        self.disks
            .lock()
            .unwrap()
            .get(path)
            .map(|d| d.wal.len() - d.synced)
            .unwrap_or(0)
    }

    pub fn wal_len(&self, path: &str) -> usize {
        self.disks.lock().unwrap().get(path).map(|d| d.wal.len()).unwrap_or(0)
    }

    /// Number of durable write records ever applied to `path`.
    pub fn writes(&self, path: &str) -> u64 {
        self.disks.lock().unwrap().get(path).map(|d| d.writes).unwrap_or(0)
    }

    /// Process crash: everything the OS already has survives.
    pub fn crash_process(&self, path: &str) {
        let mut disks = self.disks.lock().unwrap();
        if let Some(d) = disks.get_mut(path) {
            let n = d.wal.len();
            d.recover(n);
        }
    }

    /// Power loss: only `keep` of the unsynced log records survive (a prefix).
    pub fn crash_power(&self, path: &str, keep: usize) {
        let mut disks = self.disks.lock().unwrap();
        if let Some(d) = disks.get_mut(path) {
            let k = d.synced + keep;
            d.recover(k);
        }
    }

    /// Background fsync of the log.
    pub fn sync_wal(&self, path: &str) {
        let mut disks = self.disks.lock().unwrap();
        if let Some(d) = disks.get_mut(path) {
            d.synced = d.wal.len();
        }
    }

    /// Background memtable flush.
    pub fn background_flush(&self, path: &str) {
        let mut disks = self.disks.lock().unwrap();
        if let Some(d) = disks.get_mut(path) {
            d.make_durable();
        }
    }

    pub fn exists(&self, path: &str) -> bool {
        self.disks.lock().unwrap().contains_key(path)
    }

    pub fn remove(&self, path: &str) {
        self.disks.lock().unwrap().remove(path);
    }

    /// Copy a (closed or open) disk image, as a backup or clone would.
    pub fn copy(&self, from: &str, to: &str) {
        let mut disks = self.disks.lock().unwrap();
        if let Some(d) = disks.get(from) {
            let mut d = d.clone();
            d.open = false;
            d.make_durable();
            disks.insert(to.to_string(), d);
        }
    }

    /// Full contents of a disk: (column family, key, value).
    pub fn dump(&self, path: &str) -> Vec<(String, Vec<u8>, Vec<u8>)> {
        let disks = self.disks.lock().unwrap();
        let mut out = Vec::new();
        if let Some(d) = disks.get(path) {
            for (n, c) in d.cf_names.iter().zip(&d.cfs) {
                for (k, v) in c.data.iter() {
                    out.push((n.clone(), k.clone(), v.clone()));
                }
            }
        }
        out
    }

    /// Order-independent digest of a disk's contents.
    pub fn digest(&self, path: &str) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        for (n, k, v) in self.dump(path) {
            for part in [n.as_bytes(), &k, &v] {
                h ^= part.len() as u64;
                h = h.wrapping_mul(0x100000001b3);
                for b in part {
                    h ^= *b as u64;
                    h = h.wrapping_mul(0x100000001b3);
                }
            }
        }
        h
    }

    /// Flip a stored byte (media corruption that the engine's checksums missed).
    pub fn flip_value_byte(&self, path: &str, cf: &str, nth: usize, byte: usize, mask: u8) -> bool {
        let mut disks = self.disks.lock().unwrap();
        let Some(d) = disks.get_mut(path) else { return false };
        let Some(i) = d.cf_names.iter().position(|n| n == cf) else { return false };
        let m = Arc::make_mut(&mut d.cfs[i].data);
        let n = m.len();
        if n == 0 {
            return false;
        }
        let Some((_, v)) = m.iter_mut().nth(nth % n) else { return false };
        if v.is_empty() {
            return false;
        }
        let b = byte % v.len();
        v[b] ^= if mask == 0 { 1 } else { mask };
        d.make_durable();
        true
    }

    pub fn put_raw(&self, path: &str, cf: &str, key: Vec<u8>, value: Option<Vec<u8>>) {
        let mut disks = self.disks.lock().unwrap();
        let Some(d) = disks.get_mut(path) else { return };
        let Some(i) = d.cf_names.iter().position(|n| n == cf) else { return };
        let m = Arc::make_mut(&mut d.cfs[i].data);
        match value {
            Some(v) => {
                m.insert(key, v);
            }
            None => {
                m.remove(&key);
            }
        }
        d.make_durable();
    }
}

thread_local! {
    static CURRENT: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
}

static DEFAULT: OnceLock<Arc<World>> = OnceLock::new();

pub(crate) fn current() -> Arc<World> {
    CURRENT.with(|c| c.borrow().clone()).unwrap_or_else(|| {
        DEFAULT
            .get_or_init(|| {
                Arc::new(World {
                    disks: Mutex::new(BTreeMap::new()),
                    hook: Mutex::new(None),
                    real_dirs: true,
                    scratch: Mutex::new(None),
                })
            })
            .clone()
    })
}
