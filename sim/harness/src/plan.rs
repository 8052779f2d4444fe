//! A run: what it is made of, how it is executed, recorded and repeated.
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};

use crate::{check::*, gen_::Gen, node::*, ops::*, rng::*, sim::*};

/// one action of a run, of whichever kind of system the run simulates
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Db(Step),
    C(crate::comp::CAct),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub kind: String,
    pub prof: String,
    pub seed: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub allow: Vec<String>,
    /// None: generate
    #[serde(default)]
    pub acts: Option<Vec<Act>>,
}

/// a simulated system
pub trait Machine {
    /// the next action, drawn from the state reached
    fn next(&mut self) -> Option<Act>;
    fn act(&mut self, a: &Act) -> V;
    /// last checks
    fn last(&mut self) -> V;
    fn done(self: Box<Self>) -> Stats;
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub acts: Vec<Act>,
    pub stats: Stats,
}

pub struct DbMachine {
    sim: Sim,
    g: Gen,
}

impl Machine for DbMachine {
    fn next(&mut self) -> Option<Act> {
        self.g.next(&self.sim).map(Act::Db)
    }
    fn act(&mut self, a: &Act) -> V {
        match a {
            Act::Db(s) => self.sim.step(s),
            #[allow(unreachable_patterns)]
            _ => Ok(()),
        }
    }
    fn last(&mut self) -> V {
        let s = &mut self.sim;
        if s.over {
            return Ok(());
        }
        for i in 0..s.txs.len() {
            if s.txs[i].is_some() {
                s.check(Some(i), Opt { samples: 1, verify: false })?;
                s.step(&Step { op: Op::DropTx(i), faults: vec![] })?;
            }
        }
        s.full(None)?;
        s.step(&Step { op: Op::Reopen, faults: vec![] })?;
        s.full(None).map_err(|v| Viol { class: v.class, msg: format!("after reopening: {}", v.msg) })
    }
    fn done(self: Box<Self>) -> Stats {
        self.sim.finish()
    }
}

fn build(p: &Plan) -> V<Box<dyn Machine>> {
    let mut r = Rng::new(p.seed);
    match p.kind.as_str() {
        "db" => {
            let prof = crate::props::prof(&p.prof);
            let costs = prof.costs;
            let g = Gen::new(r.fork(), prof);
            let mut sim = Sim::new(p.seed, "/sim/a", &p.allow)?;
            sim.costs = costs;
            Ok(Box::new(DbMachine { sim, g }))
        }
        "commit" => Ok(Box::new(crate::comp_commit::CommitM::new(r.next(), &p.allow)?)),
        "query" => Ok(Box::new(crate::comp_query::QueryM::new(r.next(), &p.allow))),
        "costs" => Ok(Box::new(crate::comp_costs::CostsM::new(r.next()))),
        "flags" => Ok(Box::new(crate::comp_flags::FlagsM::new(r.next())?)),
        "decode" => Ok(Box::new(crate::comp_decode::DecodeM::new(r.next()))),
        "paths" => Ok(Box::new(crate::comp_paths::PathsM::new(r.next()))),
        "merk" => Ok(Box::new(crate::comp_merk::MerkM::new(r.next(), &p.allow)?)),
        "store" => Ok(Box::new(crate::comp_store::StoreM::new(r.next())?)),
        "shards" => Ok(Box::new(crate::comp_shards::ShardsM::new(r.next())?)),
        "fees" => Ok(Box::new(crate::comp_fees::FeesM::new(r.next())?)),
        "dense" => Ok(Box::new(crate::comp_dense::DenseM::new(r.next())?)),
        "bulk" => Ok(Box::new(crate::comp_bulk::BulkM::new(r.next())?)),
        "mmr" => Ok(Box::new(crate::comp_mmr::MmrM::new(r.next()))),
        k => panic!("unknown kind of run {k}"),
    }
}

/// execute in this thread
fn exec(p: &Plan, log: &Arc<Mutex<Vec<Act>>>) -> (Option<Viol>, Stats) {
    let mut m = match guard(|| build(p)) {
        Caught::Done(Ok(m)) => m,
        Caught::Done(Err(v)) => return (Some(v), Stats::default()),
        Caught::Panicked(e) => return (Some(Viol { class: "panic".into(), msg: format!("at start: {e}") }), Stats::default()),
        Caught::Crashed => return (Some(Viol { class: "panic".into(), msg: "crash at start".into() }), Stats::default()),
    };
    let res = guard(|| -> V {
        match &p.acts {
            Some(acts) => {
                for a in acts {
                    log.lock().unwrap().push(a.clone());
                    m.act(a)?;
                }
            }
            None => {
                while let Some(a) = m.next() {
                    trace(&a);
                    log.lock().unwrap().push(a.clone());
                    m.act(&a)?;
                }
            }
        }
        m.last()
    });
    let viol = match res {
        Caught::Done(Ok(())) => None,
        Caught::Done(Err(v)) => Some(v),
        Caught::Panicked(e) => Some(Viol { class: "panic".into(), msg: e }),
        Caught::Crashed => Some(Viol { class: "panic".into(), msg: "simulated crash escaped".into() }),
    };
    let st = match guard(move || m.done()) {
        Caught::Done(s) => s,
        _ => Stats::default(),
    };
    (viol, st)
}

/// with GSIM_TRACE=<file>: write actions down before they happen
fn trace(a: &Act) {
    use std::io::Write;
    if let Ok(f) = std::env::var("GSIM_TRACE") {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
            let _ = writeln!(f, "{}", serde_json::to_string(a).unwrap());
        }
    }
}

/// longest a run may take; the slowest ordinary runs need well under a second
pub const HANG_SECS: u64 = 90;

pub fn run(p: &Plan) -> Outcome {
    let log: Arc<Mutex<Vec<Act>>> = Arc::default();
    let (tx, rx) = std::sync::mpsc::channel();
    let (p2, l2) = (p.clone(), log.clone());
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            seed_os_randomness(mix(p2.seed));
            mark_stack();
            crate::paths::start(mix(p2.seed ^ 0x9a7));
            let _ = tx.send(exec(&p2, &l2));
        })
        .expect("thread");
    match rx.recv_timeout(std::time::Duration::from_secs(HANG_SECS)) {
        Ok((viol, mut stats)) => {
            let _ = h.join();
            let acts = std::mem::take(&mut *log.lock().unwrap());
            stats.runs = 1;
            if stats.trace == 0 {
                let s = serde_json::to_string(&acts).unwrap_or_default();
                stats.trace = s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)) | 1;
            }
            Outcome { viol, acts, stats }
        }
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
            let acts = std::mem::take(&mut *log.lock().unwrap());
            Outcome {
                viol: Some(Viol { class: "panic".into(), msg: "the run's thread died".into() }),
                acts,
                stats: Stats::default(),
            }
        }
        Err(_) => {
            // the thread is left behind
            let acts = log.lock().unwrap().clone();
            Outcome {
                viol: Some(Viol {
                    class: "hang".into(),
                    msg: format!("no end after {HANG_SECS} s, in {}", show(acts.last())),
                }),
                acts,
                stats: Stats::default(),
            }
        }
    }
}

pub fn show(a: Option<&Act>) -> String {
    let s = a.map(|a| brief(&serde_json::to_string(a).unwrap_or_default())).unwrap_or_default();
    if s.len() > 1500 { format!("{}..", s.chars().take(1500).collect::<String>()) } else { s }
}

/// JSON with byte arrays as hex
pub fn brief(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'[' {
            if let Some(n) = b[i + 1..].iter().position(|c| !(c.is_ascii_digit() || *c == b',')) {
                if b[i + 1 + n] == b']' {
                    let t = &s[i + 1..i + 1 + n];
                    if let Ok(v) = t.split(',').map(|x| x.parse::<u8>()).collect::<Result<Vec<u8>, _>>() {
                        out.push_str(&crate::node::hx(&v));
                        i += n + 2;
                        continue;
                    }
                }
            }
        }
        if b[i] != b'"' {
            out.push(b[i] as char);
        }
        i += 1;
    }
    out
}
