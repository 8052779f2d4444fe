//! The language of simulated work: everything a run does is a list of `Step`s,
//! concrete enough to be replayed and shrunk.
use serde::{Deserialize, Serialize};

pub type B = Vec<u8>;
pub type Path = Vec<B>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Hash)]
pub enum Kind {
    Normal,
    Sum,
    BigSum,
    Count,
    CountSum,
    PCount,
    PCountSum,
}
pub const KINDS: [Kind; 7] = [
    Kind::Normal,
    Kind::Sum,
    Kind::BigSum,
    Kind::Count,
    Kind::CountSum,
    Kind::PCount,
    Kind::PCountSum,
];
impl Kind {
    pub fn allows_sum(self) -> bool {
        matches!(self, Kind::Sum | Kind::BigSum | Kind::CountSum | Kind::PCountSum)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum RefP {
    Abs(Path),
    UpRoot(u8, Path),
    UpRootParent(u8, Path),
    UpElem(u8, Path),
    Cousin(B),
    RemovedCousin(Path),
    Sibling(B),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum El {
    Item(B),
    Sum(i64),
    ItemSum(B, i64),
    Ref(RefP, Option<u8>),
    Tree(Kind),
    Mmr,
    Bulk(u8),
    Dense(u8),
    Commit(u8),
}
impl El {
    pub fn is_tree(&self) -> bool {
        matches!(self, El::Tree(_) | El::Mmr | El::Bulk(_) | El::Dense(_) | El::Commit(_))
    }
}

/// an element with its flags
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ElF {
    pub el: El,
    pub fl: Option<B>,
}

/// batch operation kinds
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum BKind {
    InsertOrReplace(ElF),
    InsertOnly(ElF),
    InsertKnownNew(ElF),
    InsertIfNotExists(ElF),
    InsertIfNotExistsSkip(ElF),
    Replace(ElF),
    /// element, change in bytes is computed by the executor
    Patch(ElF),
    RefreshRef { r: RefP, hop: Option<u8>, fl: Option<B>, trust: bool },
    Delete,
    /// 0 Error, 1 Skip, 2 DeleteChildren, 3 DontCheck; and the kind of tree
    DeleteTree(u8, El),
    MmrAppend(B),
    BulkAppend(B),
    DenseInsert(B),
    CommitInsert(Note),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BOp {
    pub path: Path,
    pub key: B,
    pub k: BKind,
}

/// what is appended to a commitment tree
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Note {
    /// seed of the commitment (the bytes are derived from it)
    pub cmx: u64,
    pub rho: u64,
    /// seed and length of the payload; `len == None`: the valid length
    pub payload: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum W {
    Insert { path: Path, key: B, el: ElF, no_override: bool, no_override_tree: bool },
    InsertIfNot { path: Path, key: B, el: ElF },
    InsertIfNotRet { path: Path, key: B, el: ElF },
    InsertIfChanged { path: Path, key: B, el: ElF },
    Delete { path: Path, key: B, allow: bool, err: bool },
    DeleteIfEmpty { path: Path, key: B },
    DeleteUp { path: Path, key: B, stop: Option<u16> },
    Clear { path: Path, check: bool, allow: bool, err: bool },
    MmrAppend { path: Path, key: B, val: B },
    BulkAppend { path: Path, key: B, val: B },
    DenseInsert { path: Path, key: B, val: B },
    CommitInsert { path: Path, key: B, note: Note },
    Batch(Vec<BOp>),
    /// the same operations, applied one by one by the library
    NoBatch(Vec<BOp>),
    PutAux { key: B, val: B },
    DelAux { key: B },
}

/// a fault bound to the n-th engine call of the step it is attached to
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    FailIo,
    FailNoSpace,
    FailBusy,
    FailTryAgain,
    FailCorruption,
    CrashBefore,
    CrashAfter,
    /// power loss; the permille of unsynced log records that survive
    PowerBefore(u16),
    PowerAfter(u16),
    /// run these steps (of other actors) right here
    Run(Vec<Step>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    /// write through transaction slot `tx` (None: directly)
    W { tx: Option<usize>, w: W },
    Begin(usize),
    Commit(usize),
    Rollback(usize),
    DropTx(usize),
    Reopen,
    Flush,
    /// the engine flushes on its own
    BgFlush,
    CrashProcess,
    CrashPower(u16),
    /// full comparison of what slot `tx` (or everyone) sees with the model
    Check { tx: Option<usize> },
    Query { tx: Option<usize>, q: crate::query::Q },
    /// several queries merged into one
    Merged { tx: Option<usize>, qs: Vec<crate::query::Q> },
    /// prove, send over the network, verify; `v` selects prove options
    Prove { q: crate::query::Q, v: u8 },
    Checkpoint(usize),
    OpenCheckpoint(usize),
    DeleteCheckpoint(usize),
    /// write to an opened checkpoint
    WCheckpoint { cp: usize, w: W },
    /// synchronise a new node from a checkpoint
    SyncCheckpoint { cp: usize, p: crate::sync::SyncPlan },
    /// damage a copy of the disk
    Corrupt(crate::corrupt::Corruption),
    /// the same work on a copy of the disk, once for every engine call in it:
    /// mode 0: that call fails, 1: the process dies there, 2: power is lost
    Sweep { w: W, mode: u8, salt: u64, tx: bool },
    /// one read call of a kind, with whatever happens inside it
    Race { r: crate::race::Read },
    Sync(crate::sync::SyncPlan),
    Replicas(crate::replica::Replicas),
    Chunks(crate::chunks::ChunkPlan),
    TamperProof { q: crate::query::Q, edits: Vec<crate::tamper::Edit> },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(u32, Fault)>,
}
