//! A second node synchronises itself from this one over a simulated network.
use std::pin::Pin;

use grovedb::{replication::{MultiStateSyncSession, CURRENT_STATE_SYNC_VERSION as VER}, Element};
use grovedb_merk::{element::tree_type::ElementTreeTypeExtensions, tree::hash::NULL_HASH};
use serde::{Deserialize, Serialize};

use crate::{check::*, gen_::Gen, model::*, node::*, ops::*, rng::*, sim::*, tamper::{bytes, convert, emit, feature, hash_of, nth, parse, parts, size, spoil, T}};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ev {
    /// the reply to one of the open requests arrives
    Go(u16),
    /// a reply that was already used arrives once more
    Dup(u16),
    /// from here on every event is about a hostile or broken peer:
    /// the reply of a database in another state
    Other(u16),
    /// the reply to another request
    Swap(u16, u16),
    /// a reply that was tampered with
    Bad(u16, u64),
    /// something nobody asked for
    Garbage(u64),
    /// a senseless request to the source
    Ask(u64),
    /// the node's storage misbehaves while a reply is taken in
    Fault(u16, u32, Fault),
    /// the source's storage misbehaves while a request is served
    SrcFault(u16, u32, Fault),
    /// the node dies; `wipe`: it starts from an empty database again
    Crash { power: Option<u16>, wipe: bool },
    /// the session is given up
    Restart { wipe: bool },
    /// commit before everything is there
    Early,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SyncPlan {
    /// subtrees per batch; 0: more than there are
    pub batch: u16,
    /// what sets the other state apart
    pub other: Option<W>,
    pub ev: Vec<Ev>,
    /// a fault during the commit
    pub commit: Option<(u32, Fault)>,
    /// what the finished node does afterwards
    pub after: Vec<W>,
}

type Session = Pin<Box<MultiStateSyncSession<'static>>>;

pub fn unpack(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let n = u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as usize;
    let mut at = 4;
    let mut out = vec![];
    for _ in 0..n {
        let l = u32::from_be_bytes(b.get(at..at + 4)?.try_into().ok()?) as usize;
        out.push(b.get(at + 4..at + 4 + l)?.to_vec());
        at += 4 + l;
    }
    (at == b.len()).then_some(out)
}

pub fn pack(v: &[Vec<u8>]) -> Vec<u8> {
    let mut out = (v.len() as u32).to_be_bytes().to_vec();
    for x in v {
        out.extend((x.len() as u32).to_be_bytes());
        out.extend(x);
    }
    out
}

/// a reply as a malicious peer would like it
fn forge(r: &mut Rng, reply: &[u8]) -> Vec<u8> {
    if r.chance(1, 8) {
        return bytes(r, reply, reply);
    }
    let Some(mut outer) = unpack(reply) else { return bytes(r, reply, reply) };
    if outer.is_empty() {
        return pack(&[vec![]]);
    }
    match r.below(12) {
        0 => {
            let i = r.below(outer.len());
            outer.remove(i);
        }
        1 => {
            let i = r.below(outer.len());
            let x = outer[i].clone();
            outer.push(x);
        }
        2 => {
            let (i, j) = (r.below(outer.len()), r.below(outer.len()));
            outer.swap(i, j);
        }
        _ => {
            let i = r.below(outer.len());
            let Some(mut inner) = unpack(&outer[i]) else { return bytes(r, reply, reply) };
            if inner.is_empty() {
                inner.push(vec![]);
            } else {
                let j = r.below(inner.len());
                match r.below(12) {
                    0 => {
                        inner.remove(j);
                    }
                    1 | 2 => inner[j] = vec![],
                    3 => inner[j] = bytes(r, &inner[j].clone(), reply),
                    4 => {
                        let k = r.below(inner.len());
                        inner.swap(j, k);
                    }
                    _ => {
                        for _ in 0..r.range(1, 2) {
                            inner[j] = chunk(r, &inner[j].clone());
                        }
                    }
                }
            }
            outer[i] = pack(&inner);
        }
    }
    pack(&outer)
}

/// another element in the place of a tree's or a reference's
pub fn retell(r: &mut Rng, old: &[u8]) -> B {
    let Ok(e) = Element::deserialize(old, gv()) else { return old.to_vec() };
    let fl = if r.chance(1, 2) { e.get_flags().clone() } else { Some(vec![r.next() as u8]) };
    let root = e.clone().root_key_and_tree_type_owned().and_then(|x| x.0).or_else(|| r.chance(1, 2).then(|| vec![r.next() as u8]));
    let (c, n) = (r.below(9) as u64, r.below(9) as i64 - 4);
    let new = match r.below(14) {
        0 => Element::Tree(root, fl),
        1 => Element::SumTree(root, n, fl),
        2 => Element::BigSumTree(root, n as i128, fl),
        3 => Element::CountTree(root, c, fl),
        4 => Element::CountSumTree(root, c, n, fl),
        5 => Element::ProvableCountTree(root, c, fl),
        6 => Element::ProvableCountSumTree(root, c, n, fl),
        7 => Element::new_mmr_tree(c, fl),
        8 => Element::new_dense_tree(c as u16, 3, fl),
        9 => Element::new_item_with_flags(vec![c as u8], fl),
        10 | 11 => Element::new_reference_with_flags(grovedb::reference_path::ReferencePathType::AbsolutePathReference(vec![vec![c as u8]]), fl),
        _ => match e {
            // only what the parent tells about the tree
            Element::Tree(k, _) => Element::Tree(k, fl),
            Element::SumTree(k, s, f) => Element::SumTree(k, s.wrapping_add(n), f),
            Element::BigSumTree(k, s, f) => Element::BigSumTree(k, s.wrapping_add(n as i128), f),
            Element::CountTree(k, s, f) => Element::CountTree(k, s.wrapping_add(c), f),
            Element::CountSumTree(k, a, b, f) => Element::CountSumTree(k, a.wrapping_add(c), b.wrapping_add(n), f),
            Element::ProvableCountTree(k, s, f) => Element::ProvableCountTree(k, s.wrapping_add(c), f),
            Element::ProvableCountSumTree(k, a, b, f) => Element::ProvableCountSumTree(k, a.wrapping_add(c), b.wrapping_add(n), f),
            Element::Reference(p, _, f) => Element::Reference(p, Some(c as u8), f),
            x => x,
        },
    };
    new.serialize(gv()).unwrap_or_default()
}

/// one chunk's nodes retold
pub fn chunk(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    use grovedb_merk::proofs::{encode_into, Node};
    let Some((mut t, inv)) = parse(b) else { return bytes(r, b, b) };
    let n = size(&t);
    let Some(x) = nth(&mut t, &mut r.below(n)) else { return b.to_vec() };
    // Safety: points into `t`, which nothing else touches meanwhile
    let x = unsafe { &mut *x };
    match r.below(14) {
        // the same hash
        0..=4 => x.n = convert(r, &x.n),
        10.. => {
            if let Some((k, v, h, c)) = parts(&x.n) {
                let v = retell(r, &v.unwrap_or_default());
                x.n = match (&x.n, r.below(2)) {
                    (Node::KVValueHashFeatureType(.., f), 0) => Node::KVValueHashFeatureType(k, v, h, *f),
                    (_, 0) => Node::KVValueHash(k, v, h),
                    _ => Node::KVValueHashFeatureType(k, v, h, feature(r, c)),
                };
            }
        }
        // a subtree folded into its hash
        5 => {
            x.n = Node::Hash(hash_of(x));
            (x.l, x.r) = (None, None);
        }
        6 => std::mem::swap(&mut x.l, &mut x.r),
        7 => x.l = None,
        _ => x.n = spoil(r, &x.n),
    }
    let mut ops = vec![];
    emit(&t, if r.chance(1, 6) { 2 } else { inv as u8 }, r, &mut ops);
    let mut out = vec![];
    encode_into(ops.iter(), &mut out);
    out
}

struct Dest<'a> {
    src: &'a mut Sim,
    /// another database to be confused with
    other: Option<(Sim, [u8; 32])>,
    node: Node,
    s: Option<Session>,
    root: [u8; 32],
    want: Vec<B>,
    used: Vec<(B, B)>,
    /// what is on disk when the session starts
    at_start: u64,
    /// the session has had an error, or was told something wrong
    hurt: bool,
    lied: bool,
    /// rows of an earlier attempt are there
    left: bool,
    batch: usize,
    subs: usize,
    delivered: u64,
    sessions: u64,
}

impl Dest<'_> {
    fn digest(&self) -> u64 {
        self.node.world.digest(&self.node.dir)
    }

    fn start(&mut self) -> V {
        self.s = None;
        self.sessions += 1;
        let db = self.node.db();
        match guard(|| db.start_snapshot_syncing(self.root, self.batch, VER, gv())) {
            Caught::Done(Ok(s)) => self.s = Some(s),
            Caught::Done(Err(e)) => return viol("sync", format!("a sync cannot be started: {e}")),
            _ => return viol("panic", format!("starting a sync: {}", last_panic())),
        }
        self.want = vec![self.root.to_vec()];
        self.used.clear();
        (self.hurt, self.lied) = (false, false);
        self.at_start = self.digest();
        Ok(())
    }

    /// `wipe`: begin with an empty database
    fn restart(&mut self, wipe: bool) -> V {
        self.s = None;
        let wipe = wipe || self.hurt || self.lied;
        self.src.st.ev("syncs started again");
        if wipe {
            match guard(|| self.node.db().wipe()) {
                Caught::Done(Ok(())) => self.left = false,
                Caught::Done(Err(e)) => return viol("sync", format!("wiping: {e}")),
                _ => return viol("panic", format!("wiping: {}", last_panic())),
            }
        } else if self.batch <= self.subs {
            self.left = true;
        }
        self.start()
    }

    fn crash(&mut self, power: Option<u16>, wipe: bool) -> V {
        let old = self.s.take();
        let _ = guard(move || drop(old));
        let _ = guard(|| self.node.close());
        let (w, dir) = (self.node.world.clone(), self.node.dir.clone());
        match power {
            None => w.crash_process(&dir),
            Some(k) => w.crash_power(&dir, (w.unsynced(&dir) * k as usize + 500) / 1000),
        }
        self.src.st.ev("crashes of the syncing node");
        match guard(|| self.node.open()) {
            Caught::Done(Ok(())) => {}
            Caught::Done(Err(e)) => return viol("sync", format!("the syncing node cannot reopen after a crash: {e}")),
            _ => return viol("panic", "reopening the syncing node"),
        }
        self.restart(wipe)
    }

    /// the source's answer
    fn ask(&mut self, id: &[u8], what: &str) -> V<Result<B, String>> {
        let db = self.src.node.db();
        match guard(|| db.fetch_chunk(id, None, VER, gv())) {
            Caught::Done(Ok(b)) => Ok(Ok(b)),
            Caught::Done(Err(e)) => Ok(Err(e.to_string())),
            _ => viol("panic", format!("the source serving {what}: {}", last_panic())),
        }
    }

    /// None: the request came from a lie, and the sync starts again
    fn honest(&mut self, id: &B) -> V<Option<B>> {
        match self.ask(id, "a chunk")? {
            Ok(b) => Ok(Some(b)),
            Err(_) if self.lied => {
                self.restart(true)?;
                Ok(None)
            }
            Err(e) => viol("sync", format!("the source refuses a chunk it was rightly asked for: {e}")),
        }
    }

    /// hand a reply to the session: Some(error) if it was refused
    fn apply(&mut self, id: &B, reply: &B, what: &str, fault: Option<(u32, Fault)>) -> V<Option<String>> {
        let faults: Vec<_> = fault.into_iter().collect();
        self.src.drv.begin(&faults);
        let Some(s) = self.s.as_mut() else { return Ok(None) };
        let res = guard(|| s.apply_chunk(id, reply, VER, gv()));
        let (_, fired, crash) = self.src.drv.end();
        for (f, c) in &fired {
            *self.src.st.faults.entry(format!("{} at {c:?} while syncing", fault_name(f))).or_default() += 1;
        }
        let failed = !fired.is_empty();
        self.delivered += 1;
        match res {
            Caught::Crashed => {
                let p = crash.and_then(|c| c.1);
                // an interrupted batch may be there in part only if its commit is what was interrupted
                self.crash(p, false)?;
                Ok(None)
            }
            Caught::Panicked(p) => viol("panic", format!("taking in {what}: {p}")),
            Caught::Done(r) => {
                self.invisible(what)?;
                match r {
                    Ok(next) => {
                        if failed {
                            self.src.st.ev("chunks taken in although storage failed");
                        }
                        self.want.retain(|w| w != id);
                        self.used.push((id.clone(), reply.clone()));
                        self.want.extend(next);
                        Ok(None)
                    }
                    Err(e) => {
                        if failed {
                            self.hurt = true;
                        }
                        Ok(Some(e.to_string()))
                    }
                }
            }
        }
    }

    fn invisible(&mut self, what: &str) -> V {
        if self.batch > self.subs && self.digest() != self.at_start {
            return viol("sync-visible", format!("the database changed before the sync was committed, taking in {what}"));
        }
        Ok(())
    }

    fn go(&mut self, i: usize, fault: Option<(u32, Fault)>) -> V {
        if self.want.is_empty() {
            return Ok(());
        }
        let i = i % self.want.len();
        let id = self.want[i].clone();
        let Some(reply) = self.honest(&id)? else { return Ok(()) };
        let hurt = self.hurt || self.lied;
        if let Some(e) = self.apply(&id, &reply, "a true chunk", fault)? {
            if !hurt && !self.hurt {
                return viol("sync", format!("a true chunk is refused: {e}"));
            }
            return self.restart(true);
        }
        Ok(())
    }

    /// a reply the session must not believe; it may refuse it or take it for what it is
    fn lie(&mut self, id: &B, reply: &B, what: &str, forget: bool) -> V {
        let true_one = self.ask(id, what)?.ok();
        if true_one.as_ref() == Some(reply) {
            return Ok(());
        }
        // a reference's value hash binds its target, too, which a chunk doesn't tell
        if !self.src.allow.contains("sync-ref") {
            let honest = true_one.as_deref().map(told_refs).unwrap_or_default();
            if told_refs(reply).iter().any(|x| !honest.contains(x)) {
                self.src.st.skipped += 1;
                return Ok(());
            }
        }
        let before = self.want.clone();
        match self.apply(id, reply, what, None)? {
            Some(_) => {
                self.src.st.ev("false chunks refused");
                // what it refused it still wants, unless its owner gives up on it
                self.want = before;
                if forget {
                    self.want.retain(|w| w != id);
                }
                self.hurt = true;
            }
            None => {
                self.src.st.ev("false chunks taken in");
                self.lied = true;
            }
        }
        Ok(())
    }

    fn event(&mut self, e: &Ev) -> V {
        match e {
            Ev::Go(i) => self.go(*i as usize, None),
            Ev::Fault(i, n, f) => self.go(*i as usize, Some((*n, f.clone()))),
            Ev::Dup(i) => {
                if self.used.is_empty() {
                    return Ok(());
                }
                let (id, reply) = self.used[*i as usize % self.used.len()].clone();
                let (before, hurt) = (self.want.clone(), self.hurt);
                if self.apply(&id, &reply, "a chunk for the second time", None)?.is_none() && self.s.is_some() {
                    // taken in again: nothing to be asked for twice
                    self.src.st.ev("repeated chunks taken in");
                } else {
                    self.src.st.ev("repeated chunks refused");
                }
                self.want = before;
                self.hurt = hurt;
                Ok(())
            }
            Ev::Other(i) => {
                if self.want.is_empty() {
                    return Ok(());
                }
                let id = self.want[*i as usize % self.want.len()].clone();
                let Some((o, root)) = &self.other else { return Ok(()) };
                let oid = if id == self.root { root.to_vec() } else { id.clone() };
                let db = o.node.db();
                let reply = match guard(|| db.fetch_chunk(&oid, None, VER, gv())) {
                    Caught::Done(Ok(b)) => b,
                    Caught::Done(Err(_)) => return Ok(()),
                    _ => return viol("panic", format!("the source serving a chunk of another state: {}", last_panic())),
                };
                self.lie(&id, &reply, "a chunk of another state", i % 4 == 3)
            }
            Ev::Swap(i, j) => {
                if self.want.is_empty() {
                    return Ok(());
                }
                let id = self.want[*i as usize % self.want.len()].clone();
                let mut from: Vec<B> = self.want.clone();
                from.extend(self.used.iter().map(|u| u.0.clone()));
                let b = from[*j as usize % from.len()].clone();
                let Some(reply) = self.honest(&b)? else { return Ok(()) };
                self.lie(&id, &reply, "the reply to another request", i % 4 == 3)
            }
            Ev::Bad(i, k) => {
                if self.want.is_empty() {
                    return Ok(());
                }
                let id = self.want[*i as usize % self.want.len()].clone();
                let Some(reply) = self.honest(&id)? else { return Ok(()) };
                let reply = forge(&mut Rng::new(*k), &reply);
                self.lie(&id, &reply, "a forged chunk", k % 4 == 3)
            }
            Ev::Garbage(k) => {
                let mut r = Rng::new(*k);
                let mut ids = self.want.clone();
                ids.extend(self.used.iter().map(|u| u.0.clone()));
                let Some(id) = (!ids.is_empty()).then(|| r.pick(&ids).clone()) else { return Ok(()) };
                let Some(reply) = self.honest(&id)? else { return Ok(()) };
                let id2 = twist_id(&mut r, &id);
                if self.want.contains(&id2) {
                    return Ok(());
                }
                let reply = if r.chance(1, 2) { reply } else { bytes(&mut r, &reply, &reply) };
                self.lie(&id2, &reply, "a chunk nobody asked for", false)
            }
            Ev::Ask(k) => {
                let mut r = Rng::new(*k);
                let mut ids = self.want.clone();
                ids.extend(self.used.iter().map(|u| u.0.clone()));
                let id = if ids.is_empty() { self.root.to_vec() } else { r.pick(&ids).clone() };
                let id = twist_id(&mut r, &id);
                match self.ask(&id, "a senseless request")? {
                    Ok(_) => self.src.st.ev("senseless requests answered"),
                    Err(_) => self.src.st.ev("senseless requests refused"),
                }
                Ok(())
            }
            Ev::SrcFault(i, n, f) => {
                if self.want.is_empty() {
                    return Ok(());
                }
                let id = self.want[*i as usize % self.want.len()].clone();
                let Some(true_one) = self.honest(&id)? else { return Ok(()) };
                self.src.drv.begin(&[(*n, f.clone())]);
                let got = self.ask(&id, "a chunk under a storage fault");
                let (_, fired, _) = self.src.drv.end();
                for (f, c) in &fired {
                    *self.src.st.faults.entry(format!("{} at {c:?} while serving a chunk", fault_name(f))).or_default() += 1;
                }
                if let Ok(b) = got? {
                    if b != true_one {
                        return viol("fault-hidden", "a storage failure made the source serve a wrong chunk");
                    }
                }
                Ok(())
            }
            Ev::Crash { power, wipe } => self.crash(*power, *wipe),
            Ev::Restart { wipe } => self.restart(*wipe),
            Ev::Early => {
                let Some(s) = self.s.take() else { return Ok(()) };
                if s.is_sync_completed() {
                    self.s = Some(s);
                    return Ok(());
                }
                let db = self.node.db();
                match guard(|| db.commit_session(s, gv())) {
                    Caught::Done(Err(_)) => {}
                    Caught::Done(Ok(())) => return viol("sync", "an unfinished sync was committed"),
                    _ => return viol("panic", format!("committing an unfinished sync: {}", last_panic())),
                }
                self.src.st.ev("unfinished syncs refused");
                self.invisible("a commit too early")?;
                self.restart(false)
            }
        }
    }

    /// everything delivered: Some(true) when the database is there
    fn finish(&mut self, fault: Option<(u32, Fault)>) -> V<bool> {
        let s = self.s.take().unwrap();
        let odd = self.hurt || self.lied;
        if !s.is_sync_completed() {
            drop(s);
            if !odd {
                return viol("sync", "all chunks are delivered and the sync is not complete");
            }
            self.restart(true)?;
            return Ok(false);
        }
        let faults: Vec<_> = fault.into_iter().collect();
        let db = self.node.db();
        self.src.drv.begin(&faults);
        let res = guard(|| db.commit_session(s, gv()));
        let (_, fired, crash) = self.src.drv.end();
        for (f, c) in &fired {
            *self.src.st.faults.entry(format!("{} at {c:?} while committing a sync", fault_name(f))).or_default() += 1;
        }
        match res {
            Caught::Panicked(p) => viol("panic", format!("committing a sync: {p}")),
            Caught::Crashed => {
                self.crash(crash.and_then(|c| c.1), false)?;
                Ok(false)
            }
            Caught::Done(Ok(())) => Ok(true),
            Caught::Done(Err(e)) => {
                if fired.is_empty() && !odd {
                    return viol("sync", format!("the finished sync is refused: {e}"));
                }
                self.invisible("a refused commit")?;
                if odd {
                    self.src.st.ev("syncs refused at the end");
                }
                self.restart(odd)?;
                Ok(false)
            }
        }
    }
}

fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// the nodes of a reply whose values are references
fn told_refs(reply: &[u8]) -> Vec<(B, B, [u8; 32])> {
    use grovedb_merk::proofs::Node;
    fn walk(t: &T, out: &mut Vec<(B, B, [u8; 32])>) {
        if let Node::KVValueHash(k, v, h) | Node::KVValueHashFeatureType(k, v, h, _) = &t.n {
            if Element::deserialize(v, gv()).is_ok_and(|e| e.is_reference()) {
                out.push((k.clone(), v.clone(), *h));
            }
        }
        for c in [&t.l, &t.r].into_iter().flatten() {
            walk(c, out);
        }
    }
    let mut out = vec![];
    for inner in unpack(reply).unwrap_or_default() {
        for c in unpack(&inner).unwrap_or_default() {
            if let Some((t, _)) = parse(&c) {
                walk(&t, &mut out);
            }
        }
    }
    out
}

fn twist_id(r: &mut Rng, id: &[u8]) -> B {
    if r.chance(1, 4) {
        let n = r.below(80);
        return r.bytes(n);
    }
    let Some(mut outer) = unpack(id) else { return bytes(r, id, id) };
    if outer.is_empty() || r.chance(1, 6) {
        return bytes(r, id, id);
    }
    let i = r.below(outer.len());
    let x = &mut outer[i];
    // prefix, root key, tree type, chunk ids
    if x.len() < 35 {
        return pack(&[bytes(r, x, id)]);
    }
    let kl = u16::from_be_bytes([x[32], x[33]]) as usize;
    match r.below(6) {
        0 => x[r.below(32)] ^= 1 << r.below(8),
        1 if kl > 0 && x.len() > 34 => {
            let at = 34 + r.below(kl.min(x.len() - 34));
            x[at] ^= 1 << r.below(8)
        }
        2 if x.len() > 34 + kl => x[34 + kl] = r.below(12) as u8,
        3 | 4 => {
            let head = x[..(35 + kl).min(x.len())].to_vec();
            let mut ids = x.get(35 + kl..).and_then(unpack).unwrap_or_default();
            let n = r.below(10);
            let top = if r.chance(1, 9) { 256 } else { 2 };
            let one: B = (0..n).map(|_| r.below(top) as u8).collect();
            if ids.is_empty() || r.chance(1, 2) {
                ids.push(one);
            } else {
                let j = r.below(ids.len());
                ids[j] = one;
            }
            *x = [head, pack(&ids)].concat();
        }
        _ => *x = bytes(r, &x.clone(), id),
    }
    pack(&outer)
}

pub fn sync(src: &mut Sim, p: &SyncPlan) -> V {
    let root = match src.node.db().root_hash(None, gv()).value {
        Ok(h) => h,
        Err(e) => return viol("read-error", format!("root_hash: {e}")),
    };
    let mut m = src.m.clone();
    m.aux.clear();
    if has_append(&m) && !src.allow.contains("sync-append") {
        src.st.skipped += 1;
        return Ok(());
    }
    // an empty database has the hash that also names the root subtree
    let other = match &p.other {
        None => None,
        Some(w) => {
            let mut o = src.fork("other")?;
            o.direct(w, &[])?;
            let h = o.node.db().root_hash(None, gv()).value.unwrap_or(NULL_HASH);
            Some((o, h))
        }
    };
    let subs = m.subtrees().len() + m.elements().iter().filter(|(_, _, e)| e.v.is_tree() && !matches!(e.v, Val::Tree(_))).count();
    let elements = m.elements().len();
    src.forks += 1;
    let dir = format!("{}-sync{}", src.node.dir, src.forks);
    let mut node = Node::new(src.world.clone(), &dir, SLOTS);
    if let Err(e) = node.open() {
        return viol("open", format!("opening an empty database: {e}"));
    }
    // a lie may make more subtrees of the same contents
    let batch = if p.batch == 0 { subs + 100_000 } else { p.batch as usize };
    let mut d = Dest {
        src,
        other,
        node,
        s: None,
        root,
        want: vec![],
        used: vec![],
        at_start: 0,
        hurt: false,
        lied: false,
        left: false,
        batch,
        subs,
        delivered: 0,
        sessions: 0,
    };
    d.start()?;
    for e in &p.ev {
        d.event(e)?;
    }
    // from here on the network and the disk are reliable
    let bound = 4 * (elements + 2 * subs) as u64 + 64;
    let (from, mut fault) = (d.delivered, p.commit.clone());
    loop {
        if d.delivered - from > bound {
            return viol("sync-stuck", format!("no end after {bound} chunks delivered in order"));
        }
        if !d.want.is_empty() {
            d.go(0, None)?;
            continue;
        }
        if d.finish(fault.take())? {
            break;
        }
    }
    let (lied, hurt) = (d.lied, d.hurt);
    let Dest { node, other, src, delivered, sessions, .. } = d;
    if let Some((mut o, _)) = other {
        o.node.close();
        src.world.remove(&o.node.dir);
    }
    src.st.ev("syncs finished");
    src.st.evn("chunks delivered", delivered);
    src.st.evn("sync sessions", sessions);
    let at = |v: Viol| Viol {
        class: if lied { "sync-believed".into() } else { format!("sync-{}", v.class) },
        msg: format!(
            "after a sync{}: {}",
            if lied { " that took in false chunks" } else if hurt { " that refused some chunks" } else { "" },
            v.msg
        ),
    };
    let mut t = src.with_node(node, m);
    t.synced = true;
    let got = t.node.db().root_hash(None, gv()).value;
    if got.as_ref().ok() != Some(&root) {
        return viol("sync", "the synchronised database has another root hash");
    }
    let full = t.full(None).map_err(at);
    if let Err(v) = full {
        // is the damage at least one the integrity check reports
        return Err(v);
    }
    let res = (|| {
        t.reopen(&[])?;
        for w in &p.after {
            t.direct(w, &[])?;
        }
        t.full(None)
    })();
    t.node.close();
    let dir = t.node.dir.clone();
    drop(t);
    src.world.remove(&dir);
    res.map_err(at)
}

fn has_append(m: &Model) -> bool {
    m.elements().iter().any(|(_, _, e)| match &e.v {
        Val::Mmr(v) | Val::Bulk(_, v) | Val::Dense(_, v) => !v.is_empty(),
        Val::Commit(_, v) => !v.is_empty(),
        _ => false,
    })
}

pub fn gen_plan(g: &mut Gen, s: &Sim, evil: bool) -> SyncPlan {
    let mut r = g.r.fork();
    let r = &mut r;
    let mut ev = vec![];
    let n = r.below(30);
    let faulty = r.chance(1, 2);
    let hostile = evil && r.chance(4, 5);
    for _ in 0..n {
        let i = r.below(1 << 16) as u16;
        ev.push(if hostile && r.chance(1, 4) {
            match r.below(12) {
                0 | 1 => Ev::Other(i),
                2 | 3 => Ev::Swap(i, r.below(1 << 16) as u16),
                4 => Ev::Garbage(r.next() >> 1),
                5 => Ev::Ask(r.next() >> 1),
                _ => Ev::Bad(i, r.next() >> 1),
            }
        } else if faulty && r.chance(1, 5) {
            match r.below(9) {
                0 => Ev::Crash { power: r.chance(1, 2).then(|| *r.pick(&[0u16, 500, 1000])), wipe: r.chance(1, 3) },
                1 => Ev::Restart { wipe: r.chance(1, 2) },
                2 => Ev::Early,
                3 | 4 => Ev::SrcFault(i, r.below(40) as u32, r.pick(&FAILS).clone()),
                _ => Ev::Fault(i, r.below(40) as u32, fault(r)),
            }
        } else if r.chance(1, 6) {
            Ev::Dup(i)
        } else {
            Ev::Go(if r.chance(1, 4) { 0 } else { i })
        });
    }
    let mut after = vec![];
    let mut m = s.m.clone();
    m.aux.clear();
    for _ in 0..r.below(4) {
        after.push(g.write(&m));
    }
    let batch = match r.below(3) {
        0 => 0,
        1 => r.range(1, 3) as u16,
        _ => r.range(1, 12) as u16,
    };
    SyncPlan {
        batch,
        other: evil.then(|| g.write(&s.m)),
        ev,
        commit: (faulty && r.chance(1, 4)).then(|| (r.below(12) as u32, fault(r))),
        after,
    }
}

const FAILS: [Fault; 4] = [Fault::FailIo, Fault::FailCorruption, Fault::FailTryAgain, Fault::FailBusy];

fn fault(r: &mut Rng) -> Fault {
    match r.below(6) {
        0 => Fault::CrashBefore,
        1 => Fault::CrashAfter,
        2 => Fault::PowerBefore(*r.pick(&[0u16, 500, 1000])),
        3 => Fault::PowerAfter(*r.pick(&[0u16, 500, 1000])),
        _ => r.pick(&FAILS).clone(),
    }
}
