//! A simulated node: the real GroveDb on a simulated disk.
use std::{
    cell::RefCell,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{Arc, Mutex},
};

use grovedb::{Element, Error, GroveDb, Transaction};
use grovedb_costs::OperationCost;
use grovedb_element::reference_path::ReferencePathType;
use grovedb_version::version::GroveVersion;
use rocksdb::sim::{CALLS, Call, Crashed, FailKind, Hook, Verdict, World};

use crate::{model::*, ops::*};

pub fn gv() -> &'static GroveVersion {
    GroveVersion::latest()
}

pub type Db = GroveDb;
pub type Tx = Transaction<'static>;

thread_local! {
    pub static QUIET: RefCell<bool> = const { RefCell::new(true) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// keep expected panics (simulated crashes) off stderr and remember the rest
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// outcome of guarded code
pub enum Caught<T> {
    Done(T),
    Crashed,
    Panicked(String),
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Done(v),
        Err(p) => {
            if p.downcast_ref::<Crashed>().is_some() {
                Caught::Crashed
            } else {
                Caught::Panicked(LAST_PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
}

// ---------------------------------------------------------------- elements

pub fn to_ref(r: &RefP) -> ReferencePathType {
    match r.clone() {
        RefP::Abs(p) => ReferencePathType::AbsolutePathReference(p),
        RefP::UpRoot(n, p) => ReferencePathType::UpstreamRootHeightReference(n, p),
        RefP::UpRootParent(n, p) => {
            ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, p)
        }
        RefP::UpElem(n, p) => ReferencePathType::UpstreamFromElementHeightReference(n, p),
        RefP::Cousin(k) => ReferencePathType::CousinReference(k),
        RefP::RemovedCousin(p) => ReferencePathType::RemovedCousinReference(p),
        RefP::Sibling(k) => ReferencePathType::SiblingReference(k),
    }
}

pub fn to_el(e: &ElF) -> Element {
    let f = e.fl.clone();
    match e.el.clone() {
        El::Item(b) => Element::Item(b, f),
        El::Sum(v) => Element::SumItem(v, f),
        El::ItemSum(b, v) => Element::ItemWithSumItem(b, v, f),
        El::Ref(r, h) => Element::Reference(to_ref(&r), h, f),
        El::Tree(k) => match k {
            Kind::Normal => Element::Tree(None, f),
            Kind::Sum => Element::SumTree(None, 0, f),
            Kind::BigSum => Element::BigSumTree(None, 0, f),
            Kind::Count => Element::CountTree(None, 0, f),
            Kind::CountSum => Element::CountSumTree(None, 0, 0, f),
            Kind::PCount => Element::ProvableCountTree(None, 0, f),
            Kind::PCountSum => Element::ProvableCountSumTree(None, 0, 0, f),
        },
        El::Mmr => Element::MmrTree(0, f),
        El::Bulk(c) => Element::BulkAppendTree(0, c, f),
        El::Dense(h) => Element::DenseAppendOnlyFixedSizeTree(0, h, f),
        El::Commit(c) => Element::CommitmentTree(0, c, f),
    }
}

pub fn mmr_size(leaves: u64) -> u64 {
    2 * leaves - leaves.count_ones() as u64
}

/// does a stored element carry exactly what the model says (root keys are the
/// library's own business, except whether there is one)
pub fn same_element(m: &Ent, e: &Element) -> Result<(), String> {
    if &m.fl != e.get_flags() {
        return Err(format!("flags are {:?}, expected {:?}", e.get_flags(), m.fl));
    }
    let bad = || Err(format!("element is {e}, expected {}", show_ent(m)));
    match (&m.v, e) {
        (Val::Item(a), Element::Item(b, _)) if a == b => Ok(()),
        (Val::Sum(a), Element::SumItem(b, _)) if a == b => Ok(()),
        (Val::ItemSum(a, x), Element::ItemWithSumItem(b, y, _)) if a == b && x == y => Ok(()),
        (Val::Ref(r, h), Element::Reference(p, g, _)) if to_ref(r) == *p && h == g => Ok(()),
        (Val::Mmr(v), Element::MmrTree(n, _)) if mmr_size(v.len() as u64) == *n => Ok(()),
        (Val::Bulk(c, v), Element::BulkAppendTree(n, d, _)) if c == d && v.len() as u64 == *n => Ok(()),
        (Val::Dense(c, v), Element::DenseAppendOnlyFixedSizeTree(n, d, _))
            if c == d && v.len() == *n as usize =>
        {
            Ok(())
        }
        (Val::Commit(c, v), Element::CommitmentTree(n, d, _)) if c == d && v.len() as u64 == *n => Ok(()),
        (Val::Tree(s), _) => {
            let a = s.agg();
            let (root, ok) = match (s.kind, e) {
                (Kind::Normal, Element::Tree(r, _)) => (r, true),
                (Kind::Sum, Element::SumTree(r, v, _)) => (r, *v as i128 == a.sum),
                (Kind::BigSum, Element::BigSumTree(r, v, _)) => (r, *v == a.sum),
                (Kind::Count, Element::CountTree(r, c, _)) => (r, *c == a.count),
                (Kind::CountSum, Element::CountSumTree(r, c, v, _)) => {
                    (r, *c == a.count && *v as i128 == a.sum)
                }
                (Kind::PCount, Element::ProvableCountTree(r, c, _)) => (r, *c == a.count),
                (Kind::PCountSum, Element::ProvableCountSumTree(r, c, v, _)) => {
                    (r, *c == a.count && *v as i128 == a.sum)
                }
                _ => return bad(),
            };
            if !ok {
                return Err(format!(
                    "aggregate: element is {e}, but its contents give sum {} count {}",
                    a.sum, a.count
                ));
            }
            if root.is_some() == s.map.is_empty() {
                return Err(format!("root key of {e} does not fit {} children", s.map.len()));
            }
            Ok(())
        }
        _ => bad(),
    }
}

pub fn show_ent(m: &Ent) -> String {
    let v = match &m.v {
        Val::Item(b) => format!("item {}", hx(b)),
        Val::Sum(v) => format!("sum item {v}"),
        Val::ItemSum(b, v) => format!("item {} with sum {v}", hx(b)),
        Val::Ref(r, h) => format!("reference {r:?} max hop {h:?}"),
        Val::Tree(s) => format!("{} with {} children", m.v.kind_name(), s.map.len()),
        Val::Mmr(v) => format!("mmr tree with {} leaves", v.len()),
        Val::Bulk(c, v) => format!("bulk tree (power {c}) with {} values", v.len()),
        Val::Dense(c, v) => format!("dense tree (height {c}) with {} values", v.len()),
        Val::Commit(c, v) => format!("commitment tree (power {c}) with {} notes", v.len()),
    };
    format!("{v}, flags {:?}", m.fl)
}

pub fn hx(b: &[u8]) -> String {
    if b.len() > 24 {
        return format!("{}..({} bytes)", hx(&b[..12]), b.len());
    }
    if !b.is_empty() && b.iter().all(|c| (0x21..0x7f).contains(c)) {
        return String::from_utf8_lossy(b).into_owned();
    }
    format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}

pub fn pp(p: &[B]) -> String {
    format!("/{}", p.iter().map(|s| hx(s)).collect::<Vec<_>>().join("/"))
}

// ---------------------------------------------------------------- errors

/// classes of errors that matter to oracles
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EC {
    /// conflict: retry from the beginning
    Retry,
    /// storage engine failure
    Storage,
    /// the database calls its own contents corrupted
    Corrupt,
    Other,
}

pub fn classify(e: &Error) -> EC {
    let d = format!("{e:?}");
    if d.contains("Resource busy") || d.contains("Try again") {
        return EC::Retry;
    }
    if d.contains("(simulated)") || d.contains("simulated input/output") || d.contains("RocksDBError") {
        return EC::Storage;
    }
    if d.contains("Corrupted") || d.contains("corrupt") {
        return EC::Corrupt;
    }
    EC::Other
}

// ---------------------------------------------------------------- faults

/// Decides the fate of every engine call of one run.
pub struct Driver {
    st: Mutex<DriverState>,
    pub inline: Mutex<Option<Box<dyn FnMut(Vec<Step>) + Send>>>,
}

#[derive(Default)]
pub struct DriverState {
    /// engine calls a read may make; 0: any number
    pub budget: u32,
    /// calls seen since the current step began
    n: u32,
    plan: Vec<(u32, Fault)>,
    /// set when the plan fired a crash
    pub crash: Option<(bool, Option<u16>)>,
    pub fired: Vec<(Fault, Call)>,
    pub calls: [u64; CALLS.len()],
    pub total_calls: u64,
    /// order-sensitive digest of all calls and decisions
    pub trace_hash: u64,
    depth: u32,
    pub last_step_calls: Vec<Call>,
    pub record: bool,
    /// let iterators fail too
    pub iter_faults: bool,
}

impl Driver {
    pub fn new() -> Arc<Self> {
        Arc::new(Driver { st: Mutex::new(DriverState::default()), inline: Mutex::new(None) })
    }
    pub fn begin(&self, plan: &[(u32, Fault)]) {
        let mut s = self.st.lock().unwrap();
        s.n = 0;
        s.budget = 0;
        s.plan = plan.to_vec();
        s.crash = None;
        s.fired.clear();
        s.last_step_calls.clear();
    }
    pub fn end(&self) -> (u32, Vec<(Fault, Call)>, Option<(bool, Option<u16>)>) {
        let mut s = self.st.lock().unwrap();
        s.plan.clear();
        (s.n, s.fired.clone(), s.crash.take())
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut DriverState) -> T) -> T {
        f(&mut self.st.lock().unwrap())
    }
}

thread_local! {
    static STACK_TOP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub const STACK_LIMIT: usize = 10 << 20;
pub const ENDLESS: &str = "more engine calls than any read needs";
pub const DEEP: &str = "recursion without end";
pub fn mark_stack() {
    let x = 0u8;
    STACK_TOP.with(|s| s.set(&x as *const u8 as usize));
}
/// unbounded recursion would end the process: stop it where it asks for data
fn stack_guard() {
    let x = 0u8;
    let here = &x as *const u8 as usize;
    let top = STACK_TOP.with(|s| s.get());
    if top != 0 && top.saturating_sub(here) > STACK_LIMIT {
        panic!("{DEEP}");
    }
}

impl Hook for Driver {
    fn at(&self, _db: &str, call: Call) -> Verdict {
        stack_guard();
        let fault = {
            let mut s = self.st.lock().unwrap();
            s.calls[call as usize] += 1;
            s.total_calls += 1;
            s.trace_hash = crate::rng::mix(s.trace_hash ^ (call as u64 + 1));
            if s.record {
                s.last_step_calls.push(call);
            }
            if s.depth > 0 {
                return Verdict::Proceed;
            }
            let n = s.n;
            s.n += 1;
            if s.budget > 0 && n > s.budget {
                s.budget = 0;
                drop(s);
                panic!("{ENDLESS}");
            }
            let Some(i) = s.plan.iter().position(|(at, _)| *at == n) else {
                return Verdict::Proceed;
            };
            let (_, f) = s.plan.remove(i);
            let fails = matches!(
                f,
                Fault::FailIo | Fault::FailNoSpace | Fault::FailBusy | Fault::FailTryAgain | Fault::FailCorruption
            );
            if fails && !s.iter_faults && matches!(call, Call::IterNew | Call::IterMove) {
                // known finding (iterators do not report errors): fail the next call of another kind
                s.plan.push((n + 1, f));
                return Verdict::Proceed;
            }
            s.fired.push((f.clone(), call));
            s.trace_hash = crate::rng::mix(s.trace_hash ^ 0xFA17);
            f
        };
        match fault {
            Fault::FailIo => Verdict::Fail(FailKind::Io),
            Fault::FailNoSpace => Verdict::Fail(FailKind::NoSpace),
            Fault::FailBusy => Verdict::Fail(FailKind::Busy),
            Fault::FailTryAgain => Verdict::Fail(FailKind::TryAgain),
            Fault::FailCorruption => Verdict::Fail(FailKind::Corruption),
            Fault::CrashBefore => {
                self.with(|s| s.crash = Some((false, None)));
                Verdict::CrashBefore
            }
            Fault::CrashAfter => {
                self.with(|s| s.crash = Some((true, None)));
                Verdict::CrashAfter
            }
            Fault::PowerBefore(k) => {
                self.with(|s| s.crash = Some((false, Some(k))));
                Verdict::CrashBefore
            }
            Fault::PowerAfter(k) => {
                self.with(|s| s.crash = Some((true, Some(k))));
                Verdict::CrashAfter
            }
            Fault::Run(steps) => {
                self.with(|s| s.depth += 1);
                let cb = self.inline.lock().unwrap().take();
                if let Some(mut f) = cb {
                    f(steps);
                    *self.inline.lock().unwrap() = Some(f);
                }
                self.with(|s| s.depth -= 1);
                Verdict::Proceed
            }
        }
    }
}

// ---------------------------------------------------------------- node

pub struct Node {
    pub world: Arc<World>,
    pub dir: String,
    // transactions borrow the database: always dropped first
    pub txs: Vec<Option<Tx>>,
    pub db: Option<Box<Db>>,
    /// it is a checkpoint
    pub cp: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Unit,
    Bool(bool),
    Prev(Option<Element>),
    Changed(bool, Option<Element>),
    Count(u64),
    /// root / anchor, position
    Pos([u8; 32], u64),
}

pub type WRes = Result<Got, Error>;

impl Node {
    pub fn new(world: Arc<World>, dir: &str, slots: usize) -> Self {
        Node { world, dir: dir.to_string(), txs: (0..slots).map(|_| None).collect(), db: None, cp: false }
    }
    pub fn open(&mut self) -> Result<(), Error> {
        self.db = Some(Box::new(if self.cp { GroveDb::open_checkpoint(&self.dir)? } else { GroveDb::open(&self.dir)? }));
        Ok(())
    }
    pub fn db(&self) -> &'static Db {
        let p: *const Db = &**self.db.as_ref().expect("database is open");
        // Safety: transactions (the only users of this lifetime) are dropped
        // before `db`, in `close` and in field order.
        unsafe { &*p }
    }
    pub fn close(&mut self) {
        for t in &mut self.txs {
            t.take();
        }
        self.db = None;
    }
    pub fn tx(&self, i: Option<usize>) -> Option<&Tx> {
        i.and_then(|i| self.txs[i].as_ref())
    }

    pub fn write(&self, tx: Option<&Tx>, w: &W) -> (WRes, OperationCost) {
        write(self.db(), tx, w)
    }
}

pub fn write<'d>(db: &'d Db, tx: Option<&Transaction<'d>>, w: &W) -> (WRes, OperationCost) {
    use grovedb::operations::{
        delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions},
        insert::InsertOptions,
    };
    let v = gv();
    macro_rules! out {
        ($e:expr, $f:expr) => {{
            let c = $e;
            (c.value.map($f), c.cost)
        }};
    }
    match w {
        W::Insert { path, key, el, no_override, no_override_tree } => out!(
            db.insert(
                crate::paths::sp(path),
                key,
                to_el(el),
                Some(InsertOptions {
                    validate_insertion_does_not_override: *no_override,
                    validate_insertion_does_not_override_tree: *no_override_tree,
                    base_root_storage_is_free: true,
                }),
                tx,
                v,
            ),
            |_| Got::Unit
        ),
        W::InsertIfNot { path, key, el } => {
            out!(db.insert_if_not_exists(crate::paths::sp(path), key, to_el(el), tx, v), Got::Bool)
        }
        W::InsertIfNotRet { path, key, el } => out!(
            db.insert_if_not_exists_return_existing_element(crate::paths::sp(path), key, to_el(el), tx, v),
            Got::Prev
        ),
        W::InsertIfChanged { path, key, el } => out!(
            db.insert_if_changed_value(crate::paths::sp(path), key, to_el(el), tx, v),
            |(b, p)| Got::Changed(b, p)
        ),
        W::Delete { path, key, allow, err } => out!(
            db.delete(
                crate::paths::sp(path),
                key,
                Some(DeleteOptions {
                    allow_deleting_non_empty_trees: *allow,
                    deleting_non_empty_trees_returns_error: *err,
                    ..Default::default()
                }),
                tx,
                v,
            ),
            |_| Got::Unit
        ),
        W::DeleteIfEmpty { path, key } => {
            out!(db.delete_if_empty_tree(crate::paths::sp(path), key, tx, v), Got::Bool)
        }
        W::DeleteUp { path, key, stop } => out!(
            db.delete_up_tree_while_empty(
                crate::paths::sp(path),
                key,
                &DeleteUpTreeOptions { stop_path_height: *stop, ..Default::default() },
                tx,
                v,
            ),
            |n| Got::Count(n as u64)
        ),
        W::Clear { path, check, allow, err } => (
            db.clear_subtree(
                crate::paths::sp(path),
                Some(ClearOptions {
                    check_for_subtrees: *check,
                    allow_deleting_subtrees: *allow,
                    trying_to_clear_with_subtrees_returns_error: *err,
                }),
                tx,
                v,
            )
            .map(Got::Bool),
            OperationCost::default(),
        ),
        W::MmrAppend { path, key, val } => out!(
            db.mmr_tree_append(crate::paths::sp(path), key, val.clone(), tx, v),
            |(h, i)| Got::Pos(h, i)
        ),
        W::BulkAppend { path, key, val } => out!(
            db.bulk_append(crate::paths::sp(path), key, val.clone(), tx, v),
            |(h, i)| Got::Pos(h, i)
        ),
        W::DenseInsert { path, key, val } => out!(
            db.dense_tree_insert(crate::paths::sp(path), key, val.clone(), tx, v),
            |(h, i)| Got::Pos(h, i as u64)
        ),
        W::CommitInsert { path, key, note } => {
            let ct = grovedb_commitment_tree::deserialize_ciphertext::<
                grovedb_commitment_tree::DashMemo,
            >(&crate::component::note_ct(note))
            .expect("valid payload");
            out!(
                db.commitment_tree_insert(
                    crate::paths::sp(path),
                    key,
                    crate::component::note_cmx(note),
                    crate::component::note_rho(note),
                    ct,
                    tx,
                    v,
                ),
                |(h, i)| Got::Pos(h, i)
            )
        }
        W::Batch(ops) => {
            let o = crate::batchmodel::to_ops(ops);
            out!(db.apply_batch(o, None, tx, v), |_| Got::Unit)
        }
        W::NoBatch(ops) => {
            let o = crate::batchmodel::to_ops(ops);
            out!(db.apply_operations_without_batching(o, None, tx, v), |_| Got::Unit)
        }
        W::PutAux { key, val } => out!(db.put_aux(key, val, None, tx), |_| Got::Unit),
        W::DelAux { key } => out!(db.delete_aux(key, None, tx), |_| Got::Unit),
    }
}

/// does what the call returned agree with the model
pub fn same_ret(m: &Ret, g: &Got) -> Result<(), String> {
    let bad = || Err(format!("returned {g:?}, expected {m:?}"));
    match (m, g) {
        (Ret::Any, _) => Ok(()),
        (Ret::Unit, Got::Unit) => Ok(()),
        (Ret::Bool(a), Got::Bool(b)) if a == b => Ok(()),
        (Ret::Count(a), Got::Count(b)) if a == b => Ok(()),
        (Ret::Pos(a), Got::Pos(_, b)) if a == b => Ok(()),
        (Ret::Prev(None), Got::Prev(None)) => Ok(()),
        (Ret::Prev(Some(a)), Got::Prev(Some(b))) => same_element(a, b),
        (Ret::Changed(a, p), Got::Changed(b, q)) if a == b => match (p, q) {
            (None, None) => Ok(()),
            (Some(x), Some(y)) => same_element(x, y),
            _ => bad(),
        },
        _ => bad(),
    }
}
