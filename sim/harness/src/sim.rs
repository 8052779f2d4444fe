//! Executes steps against a simulated node and judges every outcome.
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    sync::Arc,
};

use grovedb::Error;
use rocksdb::sim::World;

use crate::{check::*, model::*, node::*, ops::*, query, rng::*};

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub skipped: u64,
    pub writes_ok: u64,
    pub writes_refused: u64,
    pub checks: u64,
    pub queries: u64,
    pub rows: u64,
    pub proofs: u64,
    pub engine_calls: u64,
    pub faults: BTreeMap<String, u64>,
    pub events: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub traces: HashSet<u64>,
    /// hash of the trace of the current run
    pub trace: u64,
}

impl Stats {
    pub fn ev(&mut self, k: &str) {
        self.evn(k, 1);
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        *self.events.entry(k.to_string()).or_default() += n;
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.skipped += o.skipped;
        self.writes_ok += o.writes_ok;
        self.writes_refused += o.writes_refused;
        self.checks += o.checks;
        self.queries += o.queries;
        self.rows += o.rows;
        self.proofs += o.proofs;
        self.engine_calls += o.engine_calls;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        self.states.extend(o.states);
        self.traces.extend(o.traces);
        if o.trace != 0 && (o.writes_ok > 0 || o.proofs > 0) {
            self.traces.insert(o.trace);
        }
    }
}

#[derive(Clone)]
pub struct TxM {
    pub m: Model,
    pub ws: Vec<W>,
    /// another commit happened after its first write
    pub stale: bool,
    /// another commit rewrote rows as they were
    pub touched: bool,
    /// it holds rows of its own
    pub real: bool,
}

/// a checkpoint and what it has to hold
pub struct Cp {
    pub m: Model,
    pub digest: u64,
    /// what a power loss may take it back to
    pub hist: Vec<(u64, Model)>,
    pub partial: Vec<Model>,
}

pub struct Sim {
    pub world: Arc<World>,
    pub drv: Arc<Driver>,
    pub node: Node,
    /// the committed state
    pub m: Model,
    pub digest: u64,
    /// committed states since the last flush, oldest (durable) first
    pub hist: Vec<(u64, Model)>,
    pub txs: Vec<Option<TxM>>,
    pub cps: Vec<Option<Cp>>,
    pub scratch: Option<crate::cp::Scratch>,
    pub allow: BTreeSet<String>,
    pub st: Stats,
    /// randomness of the checks (not of the schedule)
    pub r: Rng,
    /// engine calls of the last write of each kind: where faults make sense
    pub lens: BTreeMap<&'static str, u32>,
    /// set while a call is in flight, for steps run inside it
    pub flight: Option<Flight>,
    pub inline_viol: Option<Viol>,
    pub roots: BTreeMap<u64, [u8; 32]>,
    /// cost accounting hook: called with (before dump, after dump, cost)
    pub costs: bool,
    pub forks: u32,
    /// all committed versions seen while a read is in flight
    pub versions: Vec<crate::race::Version>,
    /// legal states between those of `hist`: a list of operations applied one by one
    pub partial: Vec<Model>,
    /// an outcome that is not specified was reached: nothing more is judged
    pub over: bool,
    /// honest proofs seen so far, of earlier states too
    pub proofs: Vec<Vec<u8>>,
    /// trying out candidates, nothing seen is to be recorded
    trying: bool,
    /// this database was made by a sync
    pub synced: bool,
    /// of the last write that was accepted
    pub last_cost: Option<grovedb_costs::OperationCost>,
    pub dump: Vec<(String, B, B)>,
}

pub struct Flight {
    pub tx: Option<usize>,
    /// committed digest when it began
    pub digest: u64,
    pub next: Option<Model>,
}

pub fn w_kind(w: &W) -> &'static str {
    match w {
        W::Insert { .. } => "insert",
        W::InsertIfNot { .. } => "insert_if_not_exists",
        W::InsertIfNotRet { .. } => "insert_if_not_exists_return",
        W::InsertIfChanged { .. } => "insert_if_changed",
        W::Delete { .. } => "delete",
        W::DeleteIfEmpty { .. } => "delete_if_empty",
        W::DeleteUp { .. } => "delete_up",
        W::Clear { .. } => "clear",
        W::MmrAppend { .. } => "mmr_append",
        W::BulkAppend { .. } => "bulk_append",
        W::DenseInsert { .. } => "dense_insert",
        W::CommitInsert { .. } => "commitment_insert",
        W::Batch(_) => "batch",
        W::NoBatch(_) => "no_batch",
        W::PutAux { .. } => "put_aux",
        W::DelAux { .. } => "delete_aux",
    }
}

pub fn fault_name(f: &Fault) -> &'static str {
    match f {
        Fault::FailIo => "io-error",
        Fault::FailNoSpace => "no-space",
        Fault::FailBusy => "busy",
        Fault::FailTryAgain => "try-again",
        Fault::FailCorruption => "corruption-error",
        Fault::CrashBefore => "crash-before",
        Fault::CrashAfter => "crash-after",
        Fault::PowerBefore(_) => "power-loss-before",
        Fault::PowerAfter(_) => "power-loss-after",
        Fault::Run(_) => "interleave",
    }
}

pub fn short(w: &W) -> String {
    let s = crate::plan::brief(&serde_json::to_string(w).unwrap_or_default());
    if s.len() > 700 { format!("{}..", s.chars().take(700).collect::<String>()) } else { s }
}

pub const SLOTS: usize = 4;

impl Sim {
    pub fn new(seed: u64, dir: &str, allow: &[String]) -> V<Sim> {
        let world = World::new();
        world.enter();
        let drv = Driver::new();
        world.set_hook(Some(drv.clone()));
        drv.with(|d| d.iter_faults = allow.iter().any(|a| a == "iterator-faults"));
        let mut node = Node::new(world.clone(), dir, SLOTS);
        if let Err(e) = node.open() {
            return viol("open", format!("opening an empty database: {e}"));
        }
        let digest = world.digest(dir);
        let m = Model::new();
        Ok(Sim {
            world,
            drv,
            node,
            hist: vec![(digest, m.clone())],
            m,
            digest,
            txs: (0..SLOTS).map(|_| None).collect(),
            cps: (0..crate::cp::SLOTS).map(|_| None).collect(),
            scratch: None,
            allow: allow.iter().cloned().collect(),
            st: Stats::default(),
            r: Rng::new(seed ^ 0xC0FFEE),
            lens: BTreeMap::new(),
            flight: None,
            inline_viol: None,
            roots: BTreeMap::new(),
            costs: false,
            forks: 0,
            versions: vec![],
            partial: vec![],
            over: false,
            proofs: vec![],
            trying: false,
            synced: false,
            last_cost: None,
            dump: vec![],
        })
    }

    /// a second node on a copy of this one's disk
    pub fn fork(&mut self, name: &str) -> V<Sim> {
        self.forks += 1;
        let dir = format!("{}-{name}{}", self.node.dir, self.forks);
        self.world.copy(&self.node.dir, &dir);
        let mut node = Node::new(self.world.clone(), &dir, SLOTS);
        if let Err(e) = node.open() {
            return viol("open", format!("opening a copy: {e}"));
        }
        let s = self.with_node(node, self.m.clone());
        if s.digest != self.digest {
            return viol("open", "opening a copy changed it");
        }
        Ok(s)
    }

    /// drive another node of the same world, which should hold `m`
    pub fn with_node(&mut self, node: Node, m: Model) -> Sim {
        let mut s = Sim {
            world: self.world.clone(),
            drv: self.drv.clone(),
            node,
            hist: vec![],
            m,
            digest: 0,
            txs: (0..SLOTS).map(|_| None).collect(),
            cps: vec![],
            scratch: None,
            allow: self.allow.clone(),
            st: Stats::default(),
            r: self.r.fork(),
            lens: BTreeMap::new(),
            flight: None,
            inline_viol: None,
            roots: BTreeMap::new(),
            costs: false,
            forks: 0,
            versions: vec![],
            partial: vec![],
            over: false,
            proofs: vec![],
            trying: false,
            synced: false,
            last_cost: None,
            dump: vec![],
        };
        s.digest = s.now();
        s.hist = vec![(s.digest, s.m.clone())];
        s
    }

    pub fn now(&self) -> u64 {
        self.world.digest(&self.node.dir)
    }

    pub fn nested(&self) -> bool {
        self.flight.is_some()
    }

    pub fn begin(&mut self, faults: &[(u32, Fault)]) {
        if self.nested() {
            return;
        }
        if faults.iter().any(|f| matches!(f.1, Fault::Run(_))) {
            let me = self as *mut Sim as usize;
            *self.drv.inline.lock().unwrap() = Some(Box::new(move |steps| {
                // Safety: runs inside a call made by this very object
                let s = unsafe { &mut *(me as *mut Sim) };
                for st in steps {
                    if s.inline_viol.is_none() {
                        if let Err(v) = s.step(&st) {
                            s.inline_viol = Some(v);
                        }
                    }
                }
            }));
        }
        self.drv.begin(faults);
    }

    /// (engine calls, a failure was injected, crash)
    pub fn end(&mut self) -> V<(u32, bool, Option<(bool, Option<u16>)>)> {
        if self.nested() {
            return Ok((0, false, None));
        }
        let (n, fired, crash) = self.drv.end();
        *self.drv.inline.lock().unwrap() = None;
        let mut failed = false;
        for (f, c) in &fired {
            *self.st.faults.entry(format!("{} at {c:?}", fault_name(f))).or_default() += 1;
            failed |= !matches!(f, Fault::Run(_));
        }
        if let Some(v) = self.inline_viol.take() {
            return Err(v);
        }
        Ok((n, failed, crash))
    }

    fn push_state(&mut self, m: Model) {
        let d = self.now();
        self.m = m;
        if self.nested() {
            let root = self.node.db().root_hash(None, gv()).value.unwrap_or_default();
            self.versions.push(crate::race::Version { m: self.m.clone(), root });
        }
        if d != self.digest {
            self.digest = d;
            self.hist.push((d, self.m.clone()));
            self.st.states.insert(d);
            for t in self.txs.iter_mut().flatten() {
                if t.real {
                    t.stale = true;
                } else {
                    t.m = self.m.clone();
                }
            }
        } else {
            if let Some(l) = self.hist.last_mut() {
                l.1 = self.m.clone();
            }
            self.txs.iter_mut().flatten().for_each(|t| t.touched = true);
        }
    }

    pub fn unchanged(&self, class: &str, what: &str) -> V {
        if self.now() != self.digest {
            return viol(class, format!("{what}: the stored database changed"));
        }
        Ok(())
    }

    pub fn full(&mut self, tx: Option<usize>) -> V {
        self.check(tx, Opt { samples: 3, verify: true })
    }

    pub fn check(&mut self, tx: Option<usize>, o: Opt) -> V {
        self.st.checks += 1;
        let mut r = self.r.fork();
        match tx {
            None => {
                let m = self.expected();
                match guard(|| view(self.node.db(), None, &m, &mut r, o)) {
                    Caught::Done(v) => v?,
                    Caught::Panicked(p) => return viol("panic", format!("while reading: {p}")),
                    Caught::Crashed => unreachable!(),
                }
                if o.verify {
                    let mut dump = self.world.dump(&self.node.dir);
                    if self.synced {
                        // a sync also leaves a copy of every subtree's root key
                        dump.retain(|(cf, k, _)| cf != "roots" || k[..k.len().min(32)].iter().all(|b| *b == 0));
                    }
                    let h = stored(self.node.db(), &dump, &m)?;
                    if !self.nested() && !self.trying {
                        if let Some(p) = self.roots.insert(self.digest, h) {
                            if p != h {
                                return viol("structure", "one stored state, two root hashes");
                            }
                        }
                    }
                }
            }
            Some(i) => {
                let (Some(t), Some(tm)) = (self.node.txs[i].as_ref(), self.txs[i].as_ref()) else {
                    return Ok(());
                };
                if tm.stale {
                    return Ok(());
                }
                match guard(|| view(self.node.db(), Some(t), &tm.m, &mut r, o)) {
                    Caught::Done(v) => v.map_err(|v| Viol {
                        class: v.class,
                        msg: format!("inside transaction {i}: {}", v.msg),
                    })?,
                    Caught::Panicked(p) => return viol("panic", format!("while reading in a transaction: {p}")),
                    Caught::Crashed => unreachable!(),
                }
            }
        }
        Ok(())
    }

    /// what a reader outside every transaction must see right now
    pub fn expected(&self) -> Model {
        if let Some(f) = &self.flight {
            if f.tx.is_none() && self.now() != self.digest {
                if let Some(n) = &f.next {
                    return n.clone();
                }
            }
        }
        self.m.clone()
    }

    // ------------------------------------------------------------ steps

    pub fn step(&mut self, s: &Step) -> V {
        if self.over {
            return Ok(());
        }
        self.st.steps += 1;
        match &s.op {
            Op::W { tx: None, w } => self.direct(w, &s.faults).map(|_| ()),
            Op::W { tx: Some(i), w } => self.in_tx(*i, w, &s.faults),
            Op::Begin(i) => {
                if self.node.txs[*i].is_none() {
                    self.node.txs[*i] = Some(self.node.db().start_transaction());
                    self.txs[*i] = Some(TxM { m: self.m.clone(), ws: vec![], stale: false, touched: false, real: false });
                    if let (Some(f), Some(t)) = (&self.flight, self.txs[*i].as_mut()) {
                        // begun inside a call: what it sees depends on that call
                        t.stale = f.tx.is_none() && self.world.digest(&self.node.dir) != self.digest;
                    }
                }
                Ok(())
            }
            Op::Commit(i) => self.commit(*i, &s.faults),
            Op::Rollback(i) => self.rollback(*i, &s.faults),
            Op::DropTx(i) => {
                self.node.txs[*i] = None;
                self.txs[*i] = None;
                if self.nested() { Ok(()) } else { self.unchanged("tx-leak", "dropping a transaction") }
            }
            Op::Reopen => self.reopen(&s.faults),
            Op::Flush => self.flush(&s.faults),
            Op::BgFlush => {
                self.world.background_flush(&self.node.dir);
                self.hist = vec![(self.digest, self.m.clone())];
                self.partial.clear();
                Ok(())
            }
            Op::CrashProcess => {
                self.st.ev("idle process crash");
                self.crash(None, &[])
            }
            Op::CrashPower(k) => {
                self.st.ev("idle power loss");
                self.crash(Some(*k), &[])
            }
            Op::Check { tx } => self.faulty_read(&s.faults, |s| s.full(*tx)),
            Op::Query { tx, q } => {
                if let Some(i) = tx {
                    if self.txs[*i].as_ref().is_none_or(|t| t.stale) {
                        return Ok(());
                    }
                }
                self.faulty_read(&s.faults, |s| s.query(*tx, q))
            }
            Op::Merged { tx, qs } => {
                if let Some(i) = tx {
                    if self.txs[*i].as_ref().is_none_or(|t| t.stale) {
                        return Ok(());
                    }
                }
                self.faulty_read(&s.faults, |s| s.merged(*tx, qs))
            }
            Op::Sweep { w, mode, salt, tx } => self.sweep(w, *mode, *salt, *tx),
            Op::Race { r } => crate::race::race(self, r, &s.faults),
            Op::TamperProof { q, edits } => crate::tamper::tamper(self, q, edits),
            Op::Prove { q, v } => self.faulty_read(&s.faults, |s| crate::prove::prove(s, q, *v)),
            Op::Replicas(p) => crate::replica::run(self, p),
            Op::Sync(p) => crate::sync::sync(self, p),
            Op::Chunks(p) => self.faulty_read(&s.faults, |s| crate::chunks::run(s, p)),
            Op::Checkpoint(i) => crate::cp::take(self, *i, &s.faults),
            Op::OpenCheckpoint(i) => crate::cp::look(self, *i, &s.faults),
            Op::DeleteCheckpoint(i) => crate::cp::delete(self, *i, &s.faults),
            Op::WCheckpoint { cp, w } => crate::cp::write(self, *cp, w, &s.faults),
            Op::SyncCheckpoint { cp, p } => crate::cp::sync(self, *cp, p),
            Op::Corrupt(c) => crate::corrupt::run(self, c),
        }
    }

    /// a read with faults inside: it answers right or reports an error
    pub fn faulty_read(&mut self, faults: &[(u32, Fault)], f: impl FnOnce(&mut Sim) -> V) -> V {
        self.begin(faults);
        let me = self as *mut Sim;
        let res = guard(|| f(unsafe { &mut *me }));
        let (n, failed, crash) = self.end()?;
        if !self.nested() {
            self.lens.insert("read", n);
        }
        match res {
            Caught::Panicked(p) => viol("panic", format!("while reading: {p}")),
            Caught::Crashed => {
                let k = crash.and_then(|c| c.1);
                self.crash(k, &[])
            }
            Caught::Done(Ok(())) => Ok(()),
            Caught::Done(Err(v)) if failed => {
                if v.class == "read-error" {
                    self.st.ev("reads refused under a fault");
                    return Ok(());
                }
                if v.class == "verify" {
                    return Ok(());
                }
                if v.class == "panic" && v.msg.contains("simulated") {
                    return viol("panic", v.msg);
                }
                viol("fault-hidden", format!("a storage failure during a read gave a wrong answer: {}", v.msg))
            }
            Caught::Done(Err(v)) => Err(v),
        }
    }

    fn query(&mut self, tx: Option<usize>, q: &query::Q) -> V {
        self.st.queries += 1;
        let (m, t) = match tx {
            None => (self.expected(), None),
            Some(i) => (self.txs[i].as_ref().unwrap().m.clone(), self.node.txs[i].as_ref()),
        };
        match query::check_query(self.node.db(), &m, t, q) {
            Ok(n) => {
                self.st.rows += n as u64;
                Ok(())
            }
            Err(query::Bad::Wrong(x)) => viol("query", format!("{x}; query {}", query::show_q(q))),
            Err(query::Bad::Fail(e)) => {
                let e = format!("{e:?}");
                viol("read-error", format!("query failed: {e}; query {}", query::show_q(q)))
            }
        }
    }

    fn merged(&mut self, tx: Option<usize>, qs: &[query::Q]) -> V {
        self.st.queries += 1;
        let (m, t) = match tx {
            None => (self.expected(), None),
            Some(i) => (self.txs[i].as_ref().unwrap().m.clone(), self.node.txs[i].as_ref()),
        };
        let show = || qs.iter().map(query::show_q).collect::<Vec<_>>().join(" and ");
        match query::check_merge(self.node.db(), &m, t, qs) {
            Ok(n) => {
                self.st.rows += n as u64;
                self.st.evn("probe.merged rows", n as u64);
                Ok(())
            }
            Err(query::Bad::Wrong(x)) => viol("query-merge", format!("{x}; queries {}", show())),
            Err(query::Bad::Fail(e)) => {
                let e = format!("{e:?}");
                viol("read-error", format!("merged query failed: {e}; queries {}", show()))
            }
        }
    }

    /// model outcome of `w` on `m`, or None when this run leaves it alone
    fn predict(&mut self, m: &Model, w: &W) -> Option<(Model, Exp, Ret)> {
        let mut next = m.clone();
        take_tag();
        let long = overlong(w);
        if long {
            tag("overlong-path");
        }
        let (exp, ret) = if long { (Exp::Err, Ret::Unit) } else { next.apply(w) };
        if let Some(t) = take_tag() {
            if !self.allow.contains(t) {
                self.st.skipped += 1;
                return None;
            }
        }
        if exp == Exp::Err {
            next = m.clone();
        }
        Some((next, exp, ret))
    }

    /// direct call; true: it took effect
    pub fn direct(&mut self, w: &W, faults: &[(u32, Fault)]) -> V<bool> {
        let Some((next, exp, ret)) = self.predict(&self.m.clone(), w) else { return Ok(false) };
        if let W::NoBatch(ops) = w {
            let p = prefixes(&self.m, ops);
            self.partial.extend(p);
        }
        let pre_digest = self.digest;
        self.begin(faults);
        let outer = self.flight.take();
        let was_nested = outer.is_some();
        if !was_nested {
            self.flight = Some(Flight { tx: None, digest: pre_digest, next: (exp != Exp::Err).then(|| next.clone()) });
        } else {
            self.flight = outer;
        }
        let db = self.node.db();
        let res = guard(|| write(db, None, w));
        if !was_nested {
            self.flight = None;
        }
        let (n, failed, crash) = self.end()?;
        if !was_nested {
            self.lens.insert(w_kind(w), n);
        }
        let interfered = !was_nested && self.digest != pre_digest;
        let (r, cost) = match res {
            Caught::Panicked(p) if interfered && p.contains(DEEP) && !self.allow.contains("overtaken-recursion") => {
                self.st.ev("overtaken calls stopped in endless recursion (known finding)");
                self.unchanged("error-effect", w_kind(w))?;
                return Ok(false);
            }
            Caught::Panicked(p) => return viol("panic", format!("{} panicked: {p}; {}", w_kind(w), short(w))),
            Caught::Crashed => {
                let (_, power) = crash.unwrap_or((false, None));
                let mut cands: Vec<Model> = vec![];
                if exp != Exp::Err {
                    cands.push(next.clone());
                }
                if let W::NoBatch(ops) = w {
                    cands.extend(prefixes(&self.m, ops));
                }
                self.crash(power, &cands)?;
                return Ok(false);
            }
            Caught::Done(x) => x,
        };
        if interfered {
            return self.judge_interfered(w, r);
        }
        if failed {
            match r {
                Err(e) => {
                    self.st.ev("calls failed by a fault");
                    if !matches!(w, W::NoBatch(_)) {
                        self.unchanged("fault-effect", &format!("{} failed with {e}; {}", w_kind(w), short(w)))?;
                    } else if self.now() != self.digest {
                        return self.adopt(&prefixes(&self.m.clone(), match w { W::NoBatch(o) => o, _ => &[] }), "fault-effect").map(|_| true);
                    }
                    // the fault is over: the same call now succeeds
                    return self.direct(w, &[]).map_err(|v| Viol {
                        class: v.class,
                        msg: format!("after a failed attempt ({e}): {}", v.msg),
                    });
                }
                Ok(_) => {
                    if exp == Exp::Err {
                        return viol("accepted-invalid", format!("{} succeeded; {}", w_kind(w), short(w)));
                    }
                    self.st.ev("calls succeeded despite a fault");
                    self.push_state(next);
                    return self.full(None).map(|_| true).map_err(|v| Viol {
                        class: "fault-hidden".into(),
                        msg: format!("{} reported success under a storage failure, but: {}; {}", w_kind(w), v.msg, short(w)),
                    });
                }
            }
        }
        let ok = self.judge(w, exp, &ret, &r, &next)?;
        if ok {
            self.last_cost = Some(cost.clone());
            if self.costs {
                crate::costcheck::check(false, w, &self.m, &next, &cost)?;
            }
            self.st.writes_ok += 1;
            self.push_state(next);
        } else {
            self.st.writes_refused += 1;
            self.unchanged("error-effect", &format!("{} was refused; {}", w_kind(w), short(w)))?;
        }
        Ok(ok)
    }

    fn judge(&self, w: &W, exp: Exp, ret: &Ret, r: &WRes, _next: &Model) -> V<bool> {
        match (exp, r) {
            (Exp::Err, Ok(_)) => viol("accepted-invalid", format!("{} succeeded; {}", w_kind(w), short(w))),
            (Exp::Ok, Err(e)) => viol("refused-valid", format!("{} failed: {e}; {}", w_kind(w), short(w))),
            (_, Ok(g)) => match same_ret(ret, g) {
                Ok(()) => Ok(true),
                Err(x) => viol("ret", format!("{} {x}; {}", w_kind(w), short(w))),
            },
            (_, Err(e)) => {
                if classify(e) == EC::Corrupt && exp == Exp::Any {
                    // an unspecified outcome may fail, never blame the data
                }
                Ok(false)
            }
        }
    }

    /// other work was committed inside this call
    fn judge_interfered(&mut self, w: &W, r: WRes) -> V<bool> {
        self.st.ev("writes overtaken by a commit");
        match r {
            Err(e) => {
                self.unchanged("error-effect", &format!("{} failed with {e}", w_kind(w)))?;
                let Some((_, exp, _)) = self.predict(&self.m.clone(), w) else { return Ok(false) };
                if classify(&e) != EC::Retry && exp == Exp::Ok {
                    self.st.ev("overtaken write failed with a non-retryable error");
                }
                self.direct(w, &[])
            }
            Ok(_) => {
                let Some((next, exp, _)) = self.predict(&self.m.clone(), w) else { return Ok(false) };
                if exp == Exp::Err {
                    return viol("lost-update", format!("{} overtaken by a commit still succeeded; {}", w_kind(w), short(w)));
                }
                self.push_state(next);
                self.full(None).map(|_| true).map_err(|v| Viol {
                    class: "lost-update".into(),
                    msg: format!("{} overtaken by a commit: {}; {}", w_kind(w), v.msg, short(w)),
                })
            }
        }
    }

    /// find out which of several legal states we are in
    fn adopt(&mut self, cands: &[Model], class: &str) -> V {
        let mut last = None;
        for c in cands {
            let keep = std::mem::replace(&mut self.m, c.clone());
            self.trying = true;
            let seen = self.full(None);
            self.trying = false;
            match seen {
                Ok(()) => {
                    let m = self.m.clone();
                    self.m = keep;
                    self.push_state(m);
                    return Ok(());
                }
                Err(v) => {
                    last = Some(v);
                    self.m = keep;
                }
            }
        }
        let v = last.unwrap_or(Viol { class: class.into(), msg: "no legal state".into() });
        viol(class, format!("the database is in none of the {} legal states: {} [{}]", cands.len() + 1, v.msg, v.class))
    }

    pub fn crash(&mut self, power: Option<u16>, cands: &[Model]) -> V {
        if self.nested() {
            return Ok(());
        }
        self.txs.iter_mut().for_each(|t| *t = None);
        let _ = guard(|| self.node.close());
        let dir = self.node.dir.clone();
        match power {
            None => self.world.crash_process(&dir),
            Some(k) => {
                let n = self.world.unsynced(&dir);
                self.world.crash_power(&dir, (n * k as usize + 500) / 1000)
            }
        }
        self.st.ev(if power.is_some() { "power losses recovered" } else { "process crashes recovered" });
        match guard(|| self.node.open()) {
            Caught::Done(Ok(())) => {}
            Caught::Done(Err(e)) => return viol("crash", format!("cannot reopen after a crash: {e}")),
            _ => return viol("panic", "reopening after a crash panicked"),
        }
        let d = self.now();
        let hit = if power.is_some() {
            self.hist.iter().rposition(|h| h.0 == d)
        } else {
            (self.hist.last().map(|h| h.0) == Some(d)).then(|| self.hist.len() - 1)
        };
        match hit {
            Some(i) => {
                self.m = self.hist[i].1.clone();
                self.digest = d;
                self.hist = vec![(d, self.m.clone())];
                self.partial.clear();
            }
            None => {
                let mut cands = cands.to_vec();
                if power.is_some() {
                    cands.extend(self.partial.iter().rev().cloned());
                }
                self.adopt(&cands, "crash")?;
                self.digest = d;
                self.hist = vec![(d, self.m.clone())];
                self.partial.clear();
            }
        }
        self.full(None).map_err(|v| Viol { class: v.class, msg: format!("after crash and restart: {}", v.msg) })
    }

    fn in_tx(&mut self, i: usize, w: &W, faults: &[(u32, Fault)]) -> V {
        if self.node.txs[i].is_none() || self.txs[i].is_none() {
            return Ok(());
        }
        if self.flight.as_ref().is_some_and(|f| f.tx == Some(i)) {
            return Ok(());
        }
        let tm = self.txs[i].clone().unwrap();
        let stale = tm.stale;
        let (next, exp, ret) = match self.predict(&tm.m, w) {
            Some(x) => x,
            None => return Ok(()),
        };
        let db = self.node.db();
        // Safety: the slot is not touched while the call is in flight
        let t: &Tx = unsafe { &*(self.node.txs[i].as_ref().unwrap() as *const Tx) };
        let view_root = |s: &Sim| s.node.db().root_hash(Some(t), gv()).value.ok();
        let root_before = if !stale { view_root(self) } else { None };
        let rows_before = t.sim_writes();
        let pre_digest = self.digest;
        self.begin(faults);
        let outer = self.flight.take();
        let was_nested = outer.is_some();
        self.flight = Some(outer.unwrap_or(Flight { tx: Some(i), digest: pre_digest, next: None }));
        let res = guard(|| write(db, Some(t), w));
        if !was_nested {
            self.flight = None;
        }
        let (n, failed, crash) = self.end()?;
        if !was_nested {
            self.lens.insert(w_kind(w), n);
        }
        let stale = stale || self.digest != pre_digest;
        let rows = t.sim_writes();
        let (r, cost) = match res {
            Caught::Panicked(p) if stale && p.contains(DEEP) && !self.allow.contains("overtaken-recursion") => {
                // known: an overtaken transaction mixes two trees
                self.st.ev("overtaken transactions stopped in endless recursion (known finding)");
                self.node.txs[i] = None;
                self.txs[i] = None;
                return Ok(());
            }
            Caught::Panicked(p) => {
                return viol("panic", format!("{} in a transaction panicked: {p}; {}", w_kind(w), short(w)));
            }
            Caught::Crashed => {
                let (_, power) = crash.unwrap_or((false, None));
                return self.crash(power, &[]);
            }
            Caught::Done(x) => x,
        };
        if !was_nested {
            self.unchanged("tx-leak", &format!("{} in an open transaction", w_kind(w)))?;
        }
        if stale {
            // only its commit is judged
            let t = self.txs[i].as_mut().unwrap();
            t.stale = true;
            if r.is_ok() {
                if rows != rows_before {
                    t.ws.push(w.clone());
                }
            } else if !tm.real && !failed {
                // nothing of its own was there yet
            } else {
                // unknown leftovers: give up on it
                self.node.txs[i] = None;
                self.txs[i] = None;
            }
            return Ok(());
        }
        if failed {
            return match r {
                Err(_) => {
                    self.st.ev("calls failed by a fault");
                    self.restart_tx(i, Some(w))
                }
                Ok(_) => {
                    if exp == Exp::Err {
                        return viol("accepted-invalid", format!("{} succeeded; {}", w_kind(w), short(w)));
                    }
                    let t = self.txs[i].as_mut().unwrap();
                    t.real = rows.0 > 0;
                    let noop = t.m == next && rows == rows_before;
                    t.m = next;
                    if !noop {
                t.ws.push(w.clone());
            }
                    self.full(Some(i)).map_err(|v| Viol {
                        class: "fault-hidden".into(),
                        msg: format!("{} reported success under a storage failure, but: {}", w_kind(w), v.msg),
                    })
                }
            };
        }
        if self.judge(w, exp, &ret, &r, &next)? {
            self.st.writes_ok += 1;
            self.last_cost = Some(cost.clone());
            if self.costs {
                crate::costcheck::check(true, w, &tm.m, &next, &cost)?;
            }
            let t = self.txs[i].as_mut().unwrap();
            t.real = rows.0 > 0;
                    let noop = t.m == next && rows == rows_before;
            t.m = next;
            if !noop {
                t.ws.push(w.clone());
            }
        } else {
            self.st.writes_refused += 1;
            let root_after = view_root(self);
            if root_after != root_before {
                return viol(
                    "error-effect",
                    format!("{} was refused but changed its transaction's root hash; {}", w_kind(w), short(w)),
                );
            }
        }
        Ok(())
    }

    /// roll back and repeat the transaction's work, plus `extra`, without faults
    fn restart_tx(&mut self, i: usize, extra: Option<&W>) -> V {
        let mut ws = self.txs[i].as_ref().unwrap().ws.clone();
        ws.extend(extra.cloned());
        self.rollback(i, &[])?;
        for w in ws {
            self.in_tx(i, &w, &[]).map_err(|v| Viol {
                class: v.class,
                msg: format!("repeating after a fault and a rollback: {}", v.msg),
            })?;
        }
        self.check(Some(i), Opt { samples: 1, verify: false })
    }

    fn rollback(&mut self, i: usize, faults: &[(u32, Fault)]) -> V {
        let Some(t) = self.node.txs[i].as_ref() else { return Ok(()) };
        let t: &Tx = unsafe { &*(t as *const Tx) };
        if self.flight.as_ref().is_some_and(|f| f.tx == Some(i)) {
            return Ok(());
        }
        let db = self.node.db();
        self.begin(faults);
        let res = guard(|| db.rollback_transaction(t));
        let (_, failed, crash) = self.end()?;
        match res {
            Caught::Panicked(p) => return viol("panic", format!("rollback panicked: {p}")),
            Caught::Crashed => return self.crash(crash.and_then(|c| c.1), &[]),
            Caught::Done(Err(e)) => {
                if failed {
                    return self.rollback(i, &[]);
                }
                return viol("refused-valid", format!("rollback failed: {e}"));
            }
            Caught::Done(Ok(())) => {}
        }
        let m = self.expected();
        self.txs[i] = Some(TxM { m, ws: vec![], stale: false, touched: false, real: false });
        if !self.nested() {
            self.unchanged("tx-leak", "rolling back")?;
            self.check(Some(i), Opt { samples: 0, verify: false }).map_err(|v| Viol {
                class: v.class,
                msg: format!("after a rollback: {}", v.msg),
            })?;
        }
        Ok(())
    }

    fn commit(&mut self, i: usize, faults: &[(u32, Fault)]) -> V {
        if self.flight.as_ref().is_some_and(|f| f.tx == Some(i)) {
            return Ok(());
        }
        let (Some(t), Some(tm)) = (self.node.txs[i].take(), self.txs[i].take()) else { return Ok(()) };
        let db = self.node.db();
        let pre = self.digest;
        self.begin(faults);
        let was_nested = self.nested();
        if !was_nested {
            self.flight = Some(Flight { tx: None, digest: pre, next: Some(tm.m.clone()) });
        }
        let res = guard(|| db.commit_transaction(t).value);
        if !was_nested {
            self.flight = None;
        }
        let (n, failed, crash) = self.end()?;
        if !was_nested {
            self.lens.insert("commit", n);
        }
        let stale = tm.stale || self.digest != pre;
        // the transaction's work on top of whatever was committed meanwhile
        let serial = |s: &mut Sim| -> Option<Model> {
            let mut m = s.m.clone();
            for w in &tm.ws {
                let Some((n, e, _)) = s.predict(&m, w) else {
                    // what it does there is not specified
                    s.over = true;
                    return None;
                };
                if e == Exp::Err {
                    return None;
                }
                m = n;
            }
            Some(m)
        };
        match res {
            Caught::Panicked(p) => viol("panic", format!("commit panicked: {p}")),
            Caught::Crashed => {
                let c: Vec<Model> = if stale { serial(self).into_iter().collect() } else { vec![tm.m.clone()] };
                if self.over {
                    return Ok(());
                }
                self.crash(crash.and_then(|c| c.1), &c)
            }
            Caught::Done(Ok(())) => {
                if stale {
                    self.st.ev("stale commits accepted");
                    if tm.ws.is_empty() && self.now() == self.digest {
                        // it only looked around, or wrote what was there already
                        return self.full(None).map_err(|v| Viol {
                            class: "lost-update".into(),
                            msg: format!("an overtaken transaction without changes committed, but: {}", v.msg),
                        });
                    }
                    match serial(self) {
                        None if self.over => {
                            self.st.ev("runs ended at an unspecified outcome");
                            return Ok(());
                        }
                        None => {
                            // cannot be predicted; the state must at least be whole
                            return viol(
                                "lost-update",
                                "a transaction overtaken by another commit was accepted although its work is not possible on top of it",
                            );
                        }
                        Some(m) => {
                            self.push_state(m);
                            return self.full(None).map_err(|v| Viol {
                                class: "lost-update".into(),
                                msg: format!("overtaken transaction committed, but the state is not the serial one: {}", v.msg),
                            });
                        }
                    }
                }
                self.st.ev("commits");
                self.push_state(tm.m);
                if failed {
                    return self.full(None).map_err(|v| Viol { class: "fault-hidden".into(), msg: v.msg });
                }
                Ok(())
            }
            Caught::Done(Err(e)) => {
                if !was_nested {
                    self.unchanged("fault-effect", &format!("commit failed with {e}"))?;
                }
                if !failed && !stale && !(tm.touched && classify(&e) == EC::Retry) {
                    return viol("refused-valid", format!("commit failed: {e}"));
                }
                if stale && !failed && classify(&e) != EC::Retry {
                    return viol("lost-update", format!("an overtaken transaction failed with {e}, not a retryable error"));
                }
                self.st.ev(if stale { "stale commits refused" } else { "commits failed by a fault" });
                if was_nested {
                    return Ok(());
                }
                // repeat it from the beginning, alone
                self.step(&Step { op: Op::Begin(i), faults: vec![] })?;
                for w in &tm.ws {
                    self.in_tx(i, w, &[])?;
                }
                self.commit(i, &[]).map_err(|v| Viol {
                    class: v.class,
                    msg: format!("repeating a transaction whose commit failed: {}", v.msg),
                })
            }
        }
    }

    pub fn reopen(&mut self, faults: &[(u32, Fault)]) -> V {
        if self.nested() {
            return Ok(());
        }
        self.txs.iter_mut().for_each(|t| *t = None);
        self.node.close();
        self.begin(faults);
        let res = guard(|| self.node.open());
        let (_, failed, crash) = self.end()?;
        match res {
            Caught::Done(Ok(())) => {}
            Caught::Done(Err(e)) => {
                if !failed {
                    return viol("open", format!("reopening failed: {e}"));
                }
                return self.reopen(&[]);
            }
            Caught::Crashed => return self.crash(crash.and_then(|c| c.1), &[]),
            Caught::Panicked(p) => return viol("panic", format!("open panicked: {p}")),
        }
        self.unchanged("open", "reopening")
    }

    fn flush(&mut self, faults: &[(u32, Fault)]) -> V {
        if self.nested() {
            return Ok(());
        }
        self.begin(faults);
        let db = self.node.db();
        let res = guard(|| db.flush());
        let (_, failed, crash) = self.end()?;
        match res {
            Caught::Done(Ok(())) => {
                self.hist = vec![(self.digest, self.m.clone())];
                self.partial.clear();
                self.unchanged("state", "flushing")
            }
            Caught::Done(Err(_)) if failed => self.flush(&[]),
            Caught::Done(Err(e)) => viol("refused-valid", format!("flush failed: {e}")),
            Caught::Crashed => self.crash(crash.and_then(|c| c.1), &[]),
            Caught::Panicked(p) => viol("panic", format!("flush panicked: {p}")),
        }
    }

    fn sweep(&mut self, w: &W, mode: u8, salt: u64, tx: bool) -> V {
        if self.nested() || self.predict(&self.m.clone(), w).is_none() {
            return Ok(());
        }
        let mut r = Rng::new(salt);
        for at in 0..600u32 {
            let mut f = self.fork("s")?;
            let dir = f.node.dir.clone();
            let fault = match mode {
                0 => r
                    .pick(&[Fault::FailIo, Fault::FailNoSpace, Fault::FailBusy, Fault::FailTryAgain, Fault::FailCorruption])
                    .clone(),
                1 => r.pick(&[Fault::CrashBefore, Fault::CrashAfter]).clone(),
                _ => {
                    let k = *r.pick(&[0u16, 500, 1000]);
                    if r.chance(1, 2) { Fault::PowerBefore(k) } else { Fault::PowerAfter(k) }
                }
            };
            let before: u64 = f.st.faults.values().sum();
            let faults = vec![(at, fault.clone())];
            let res = if tx {
                f.step(&Step { op: Op::Begin(0), faults: vec![] })
                    .and_then(|_| f.step(&Step { op: Op::W { tx: Some(0), w: w.clone() }, faults }))
                    .and_then(|_| f.step(&Step { op: Op::Commit(0), faults: vec![] }))
            } else {
                f.direct(w, &faults).map(|_| ())
            };
            let res = res.and_then(|_| f.full(None));
            let fired = f.st.faults.values().sum::<u64>() > before;
            f.st.steps = 0;
            let fst = std::mem::take(&mut f.st);
            let t = self.st.trace;
            let runs = self.st.runs;
            self.st.merge(Stats { runs: 0, ..fst });
            self.st.trace = t;
            self.st.runs = runs;
            self.st.ev("sweep points");
            let _ = guard(move || drop(f));
            self.world.remove(&dir);
            res.map_err(|v| Viol {
                class: v.class,
                msg: format!("{} at engine call {at} of {}: {}", fault_name(&fault), w_kind(w), v.msg),
            })?;
            if !fired {
                return Ok(());
            }
        }
        Ok(())
    }

    /// close everything and hand out what was counted
    pub fn finish(mut self) -> Stats {
        let _ = guard(|| {
            self.cps.clear();
            self.node.close();
        });
        self.drv.with(|d| {
            self.st.engine_calls = d.total_calls;
            self.st.trace = d.trace_hash;
        });
        self.world.set_hook(None);
        World::leave();
        std::mem::take(&mut self.st)
    }
}

/// a path segment that cannot exist
fn overlong(w: &W) -> bool {
    let l = |p: &Path| p.iter().any(|s| s.len() > 255);
    match w {
        W::Insert { path, .. }
        | W::InsertIfNot { path, .. }
        | W::InsertIfNotRet { path, .. }
        | W::InsertIfChanged { path, .. }
        | W::Delete { path, .. }
        | W::DeleteIfEmpty { path, .. }
        | W::DeleteUp { path, .. }
        | W::Clear { path, .. } => l(path),
        W::MmrAppend { path, key, .. }
        | W::BulkAppend { path, key, .. }
        | W::DenseInsert { path, key, .. }
        | W::CommitInsert { path, key, .. } => l(path) || key.len() > 255,
        W::Batch(o) | W::NoBatch(o) => o.iter().any(|o| l(&o.path) || (o.is_append() && o.key.len() > 255)),
        W::PutAux { .. } | W::DelAux { .. } => false,
    }
}

fn prefixes(m: &Model, ops: &[BOp]) -> Vec<Model> {
    let mut out = vec![];
    let mut cur = m.clone();
    for o in ops {
        if let Some(w) = crate::batchmodel::as_single(o) {
            if cur.apply(&w).0 == Exp::Err {
                break;
            }
            out.push(cur.clone());
        }
    }
    take_tag();
    out
}

pub fn is_retry(e: &Error) -> bool {
    classify(e) == EC::Retry
}
