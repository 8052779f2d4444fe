//! The commitment tree: a server over a store that fails, crashes and comes
//! back, and clients (in memory, in SQLite) that follow it.
use std::sync::{
    Arc, Mutex,
    atomic::{AtomicI64, Ordering},
};

use grovedb_commitment_tree::{
    Anchor, ClientMemoryCommitmentTree, ClientPersistentCommitmentTree, CommitmentFrontier, CommitmentTree,
    CommitmentTreeError, DashMemo, ExtractedNoteCommitment, Hashable, Level, MerkleHashOrchard, MerklePath, Position,
    Retention, TransmittedNoteCiphertext, ciphertext_payload_size, compute_commitment_tree_state_root,
    deserialize_chunk_blob, deserialize_ciphertext, serialize_ciphertext,
};
use rusqlite::{
    Connection,
    hooks::{AuthContext, Authorization},
};

use crate::{check::*, comp::*, comp_bulk::bulk_root, comp_mmr::hex, component::derive, ops::B, plan::*, rng::*, sim::Stats};

type H = [u8; 32];
type Server = CommitmentTree<MemCtx, DashMemo>;

/// a 32-byte string that is a field element
pub fn cmx(seed: u64) -> H {
    let mut h: H = derive(seed, 7, 32).try_into().unwrap();
    h[31] &= 0x3f;
    h
}

fn leaf(h: &H) -> MerkleHashOrchard {
    Option::from(MerkleHashOrchard::from_bytes(h)).expect("field element")
}

/// from the definition: a tree of depth 32, absent leaves empty
pub fn anchor_of(leaves: &[H]) -> H {
    if leaves.is_empty() {
        return MerkleHashOrchard::empty_root(Level::from(32)).to_bytes();
    }
    let mut row: Vec<MerkleHashOrchard> = leaves.iter().map(leaf).collect();
    let mut none = MerkleHashOrchard::empty_leaf();
    for l in 0..32u8 {
        let lv = Level::from(l);
        row = row
            .chunks(2)
            .map(|c| MerkleHashOrchard::combine(lv, &c[0], c.get(1).unwrap_or(&none)))
            .collect();
        none = MerkleHashOrchard::combine(lv, &none, &none);
    }
    row[0].to_bytes()
}

#[derive(Clone)]
struct Noted {
    cmx: H,
    all: B,
}

enum Client {
    Mem(ClientMemoryCommitmentTree),
    Sql(Option<ClientPersistentCommitmentTree>, Arc<Mutex<Connection>>),
}

impl Client {
    fn append(&mut self, c: H, r: Retention<u32>) -> Result<(), CommitmentTreeError> {
        match self {
            Client::Mem(t) => t.append(c, r),
            Client::Sql(t, _) => t.as_mut().unwrap().append(c, r),
        }
    }
    fn checkpoint(&mut self, id: u32) -> Result<bool, CommitmentTreeError> {
        match self {
            Client::Mem(t) => t.checkpoint(id),
            Client::Sql(t, _) => t.as_mut().unwrap().checkpoint(id),
        }
    }
    fn max(&self) -> Result<Option<u64>, CommitmentTreeError> {
        match self {
            Client::Mem(t) => t.max_leaf_position(),
            Client::Sql(t, _) => t.as_ref().unwrap().max_leaf_position(),
        }
        .map(|p| p.map(u64::from))
    }
    fn anchor(&self) -> Result<Anchor, CommitmentTreeError> {
        match self {
            Client::Mem(t) => t.anchor(),
            Client::Sql(t, _) => t.as_ref().unwrap().anchor(),
        }
    }
    fn witness(&self, p: u64, d: usize) -> Result<Option<MerklePath>, CommitmentTreeError> {
        let p = Position::from(p);
        match self {
            Client::Mem(t) => t.witness(p, d),
            Client::Sql(t, _) => t.as_ref().unwrap().witness(p, d),
        }
    }
}

/// what a client has been told
struct Known {
    c: Client,
    leaves: Vec<H>,
    marked: Vec<bool>,
    /// (id, leaves at the time), oldest first
    cps: Vec<(u32, usize)>,
    next_id: u32,
    /// a failed call leaves it open which checkpoints there are
    loose: bool,
    max_cp: usize,
}

pub struct CommitM {
    t: Server,
    ctx: MemCtx,
    height: u8,
    notes: Vec<Noted>,
    durable: usize,
    clients: Vec<Known>,
    fuse: Arc<AtomicI64>,
    tripped: Arc<AtomicI64>,
    r: Rng,
    left: usize,
    st: Stats,
}

fn err<T>(what: &str, e: impl std::fmt::Debug) -> V<T> {
    viol("commit", format!("{what}: {e:?}"))
}

fn roots(n: &[Noted]) -> Vec<H> {
    n.iter().map(|n| n.cmx).collect()
}

impl CommitM {
    pub fn new(seed: u64, allow: &[String]) -> V<Self> {
        let mut r = Rng::new(seed);
        let ctx = MemCtx::new(false);
        let height = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let t = match Server::new(height, ctx.clone()) {
            Ok(t) => t,
            Err(e) => return err("new", e),
        };
        let max_cp = r.range(1, 5);
        // the persistent client drops the newest checkpoints, not the oldest
        // (known finding): it gets room for all
        let max_sql = if allow.iter().any(|a| a == "sqlite-prune") { max_cp } else { 1000 };
        let (fuse, tripped) = (Arc::new(AtomicI64::new(-1)), Arc::new(AtomicI64::new(0)));
        let conn = Connection::open_in_memory().expect("sqlite");
        let (f, tr) = (fuse.clone(), tripped.clone());
        conn.authorizer(Some(move |_: AuthContext<'_>| {
            // the statement that reaches zero fails
            match f.load(Ordering::SeqCst) {
                0 => {
                    f.store(-1, Ordering::SeqCst);
                    tr.fetch_add(1, Ordering::SeqCst);
                    Authorization::Deny
                }
                n if n > 0 => {
                    f.store(n - 1, Ordering::SeqCst);
                    Authorization::Allow
                }
                _ => Authorization::Allow,
            }
        }))
        .expect("authorizer");
        let conn = Arc::new(Mutex::new(conn));
        let sql = match ClientPersistentCommitmentTree::open_on_shared_connection(conn.clone(), max_sql) {
            Ok(t) => t,
            Err(e) => return err("client", e),
        };
        let known = |c, max_cp| Known { c, leaves: vec![], marked: vec![], cps: vec![], next_id: 1, loose: false, max_cp };
        let clients = vec![
            known(Client::Mem(ClientMemoryCommitmentTree::new(max_cp)), max_cp),
            known(Client::Sql(Some(sql), conn), max_sql),
        ];
        let left = r.range(10, 60);
        Ok(CommitM { t, ctx, height, notes: vec![], durable: 0, clients, fuse, tripped, r, left, st: Stats::default() })
    }

    fn state_root(&self, n: &[Noted]) -> H {
        let vals: Vec<B> = n.iter().map(|n| n.all.clone()).collect();
        let mut h = blake3::Hasher::new();
        h.update(b"ct_state");
        h.update(&anchor_of(&roots(n)));
        h.update(&bulk_root(&vals, self.height));
        *h.finalize().as_bytes()
    }

    fn check(&mut self) -> V {
        self.st.checks += 1;
        let n = self.notes.len();
        let t = &self.t;
        ensure(
            t.total_count() as usize == n && t.tree_size() as usize == n && t.position() == (n as u64).checked_sub(1),
            "commit",
            || format!("count {} tree size {} position {:?} after {n}", t.total_count(), t.tree_size(), t.position()),
        )?;
        let a = anchor_of(&roots(&self.notes));
        ensure(t.root_hash() == a && t.anchor().to_bytes() == a, "commit", || {
            format!("anchor of {n} notes is {}, expected {}", hex(&t.root_hash()), hex(&a))
        })?;
        match t.compute_current_state_root() {
            Ok(h) => ensure(h == self.state_root(&self.notes), "commit", || format!("state root of {n} notes"))?,
            Err(e) => return err("state root", e),
        }
        let e = 1usize << self.height;
        ensure(t.epoch_size() as usize == e && t.chunk_count() as usize == n / e, "commit", || "chunk count".into())?;
        let got = self.served()?;
        ensure(got.len() == n && got.iter().zip(&self.notes).all(|(a, b)| *a == b.all), "commit", || {
            format!("the {n} stored payloads changed")
        })?;
        self.st.states.insert(u64::from_be_bytes(a[..8].try_into().unwrap()));
        Ok(())
    }

    /// every payload the server hands out
    fn served(&self) -> V<Vec<B>> {
        let mut out = vec![];
        for c in 0..self.t.chunk_count() {
            match self.t.get_chunk_value(c) {
                Ok(Some(b)) => match deserialize_chunk_blob(&b) {
                    Ok(l) => out.extend(l),
                    Err(e) => return err("chunk", e),
                },
                o => return err("chunk", o),
            }
        }
        for i in 0..u16::MAX {
            match self.t.get_buffer_value(i) {
                Ok(Some(v)) => out.push(v),
                Ok(None) => break,
                Err(e) => return err("buffer", e),
            }
        }
        Ok(out)
    }

    fn client(&mut self, i: usize) -> V {
        self.st.checks += 1;
        let k = &mut self.clients[i];
        let n = k.leaves.len();
        match k.c.max() {
            Ok(m) => ensure(m == (n as u64).checked_sub(1), "commit-client", || {
                format!("client {i} is at {m:?} after {n} notes")
            })?,
            Err(e) => return err("client position", e),
        }
        let want = anchor_of(&k.leaves);
        match k.c.anchor() {
            Ok(a) => ensure(a.to_bytes() == want, "commit-client", || {
                format!("client {i} has anchor {} after {n} notes, expected {}", hex(&a.to_bytes()), hex(&want))
            }),
            Err(e) => err("client anchor", e),
        }
    }

    fn witness(&mut self, i: usize, seed: u64) -> V {
        let k = &self.clients[i];
        let mut r = Rng::new(seed);
        for _ in 0..4 {
            let n = k.leaves.len();
            let p = if r.chance(1, 10) { n as u64 + r.below(20) as u64 } else { r.below(n + 1) as u64 };
            let d = r.below(k.max_cp.min(7) + 2);
            let w = k.c.witness(p, d);
            let at = (d < k.cps.len().min(k.max_cp)).then(|| k.cps[k.cps.len() - 1 - d].1);
            let known = at.is_some_and(|at| (p as usize) < at && k.marked[p as usize]);
            match w {
                Ok(Some(path)) => {
                    self.st.proofs += 1;
                    ensure((p as usize) < n, "commit-witness", || format!("witness for a note not received: {p} of {n}"))?;
                    ensure(path.position() as u64 == p, "commit-witness", || "position".into())?;
                    let c = k.leaves[p as usize];
                    let Some(cm) = Option::<ExtractedNoteCommitment>::from(ExtractedNoteCommitment::from_bytes(&c)) else {
                        return err("commitment", hex(&c));
                    };
                    let root = path.root(cm).to_bytes();
                    if k.loose {
                        ensure((p as usize + 1..=n).any(|m| anchor_of(&k.leaves[..m]) == root), "commit-witness", || {
                            format!("client {i}: witness of note {p} leads to no anchor there was")
                        })?;
                    } else {
                        let Some(at) = at else {
                            return err("witness at a checkpoint there is none of", (i, p, d));
                        };
                        ensure(root == anchor_of(&k.leaves[..at]), "commit-witness", || {
                            format!("client {i}: witness of note {p} at checkpoint depth {d} is not for the {at} notes at that time")
                        })?;
                    }
                }
                Ok(None) | Err(_) if !known || k.loose => {}
                o => return viol("commit-witness", format!("client {i}: no witness for marked note {p} of {n} at depth {d}, {:?}: {o:?}", k.cps)),
            }
        }
        Ok(())
    }

    /// give a client the next notes the server has committed
    fn follow(&mut self, i: usize, count: usize, seed: u64, fail: Option<u32>) -> V {
        let mut r = Rng::new(seed);
        // what a client sees is what has been committed
        let open = match Server::open(self.durable as u64, self.height, self.ctx.clone()).unwrap() {
            Ok(t) => t,
            Err(e) => return err("open for reading", e),
        };
        let mine = std::mem::replace(&mut self.t, open);
        let got = self.served();
        self.t = mine;
        let got = got?;
        ensure(got.len() == self.durable, "commit", || format!("{} of {} committed notes served", got.len(), self.durable))?;
        for _ in 0..count {
            let k = &mut self.clients[i];
            let n = k.leaves.len();
            if n >= got.len() {
                break;
            }
            let c: H = got[n][..32].try_into().unwrap();
            let id = k.next_id;
            let (ret, mark, cp) = match r.below(8) {
                0 | 1 | 2 => (Retention::Marked, true, false),
                3 => (
                    Retention::Checkpoint { id, marking: incrementalmerkletree::Marking::Marked },
                    true,
                    true,
                ),
                4 => (Retention::Checkpoint { id, marking: incrementalmerkletree::Marking::None }, false, true),
                5 => (Retention::Reference, false, false),
                _ => (Retention::Ephemeral, false, false),
            };
            let sql = matches!(k.c, Client::Sql(..));
            if sql {
                self.fuse.store(fail.map_or(-1, |f| f as i64), Ordering::SeqCst);
                self.tripped.store(0, Ordering::SeqCst);
            }
            let res = k.c.append(c, ret);
            self.fuse.store(-1, Ordering::SeqCst);
            let failed = sql && self.tripped.load(Ordering::SeqCst) > 0;
            match res {
                Ok(()) => {
                    ensure(!failed, "commit-client", || "a failed statement went unnoticed".into())?;
                    k.leaves.push(c);
                    k.marked.push(mark);
                    if cp {
                        k.cps.push((id, n + 1));
                        k.next_id += 1 + r.below(3) as u32;
                    }
                }
                Err(_) if failed => {
                    *self.st.faults.entry("sql_error".into()).or_default() += 1;
                    k.loose = true;
                    k.next_id += 1;
                    // received or not
                    if k.c.max().ok().flatten() == Some(n as u64) {
                        k.leaves.push(c);
                        k.marked.push(mark);
                    }
                    break;
                }
                Err(e) => return err(&format!("client {i} append {n}"), e),
            }
        }
        self.client(i)?;
        // a client with all notes has the server's anchor
        let k = &self.clients[i];
        if k.leaves.len() == self.notes.len() {
            let a = k.c.anchor().map(|a| a.to_bytes()).ok();
            ensure(a == Some(self.t.root_hash()), "commit-client", || "client and server disagree".into())?;
            self.st.ev("caught up");
        }
        Ok(())
    }

    fn append(&mut self, a: &CAct) -> V {
        for j in 0..a.get(2).clamp(1, 60) {
            let mut r = Rng::new(a.get(0) ^ j.wrapping_mul(0x9e37_79b9));
            let mut c = cmx(a.get(0).wrapping_add(j));
            let rho: H = derive(a.get(0), 9 + j, 32).try_into().unwrap();
            let size = ciphertext_payload_size::<DashMemo>();
            ensure(size == 216, "commit", || "payload size".into())?;
            let payload = derive(a.get(0), 11 + j, 216);
            let kind = a.get(1);
            self.ctx.arm(a.fail);
            let (res, bad, all) = match kind {
                1 => {
                    // not a field element
                    c = *r.pick(&[[0xff; 32], P, { let mut x = P; x[0] += 1; x }, { let mut x = [0; 32]; x[31] = 0x41; x }]);
                    (self.t.append_raw(c, rho, &payload).unwrap(), true, vec![])
                }
                2 => {
                    let n = *r.pick(&[0usize, 1, 215, 217, 248, 1000]);
                    (self.t.append_raw(c, rho, &derive(1, 2, n)).unwrap(), true, vec![])
                }
                _ => {
                    let ct: Option<TransmittedNoteCiphertext<DashMemo>> = deserialize_ciphertext(&payload);
                    let Some(ct) = ct else { return err("payload refused", payload.len()) };
                    ensure(serialize_ciphertext(&ct) == payload, "commit", || "payload changed by coding".into())?;
                    let mut all = c.to_vec();
                    all.extend(rho);
                    all.extend(&payload);
                    if kind == 0 {
                        (self.t.append(c, rho, &ct).unwrap(), false, all)
                    } else {
                        (self.t.append_raw(c, rho, &payload).unwrap(), false, all)
                    }
                }
            };
            let failed = self.ctx.disarm();
            match res {
                Ok(x) => {
                    ensure(!failed, "commit-fault", || "append over a failed call succeeded".into())?;
                    ensure(!bad, "commit", || format!("malformed note accepted ({kind})"))?;
                    let n = self.notes.len();
                    self.notes.push(Noted { cmx: c, all });
                    self.st.writes_ok += 1;
                    let vals: Vec<B> = self.notes.iter().map(|n| n.all.clone()).collect();
                    ensure(
                        x.global_position as usize == n
                            && x.sinsemilla_root == anchor_of(&roots(&self.notes))
                            && x.bulk_state_root == bulk_root(&vals, self.height)
                            && x.compacted == ((n + 1) % (1 << self.height) == 0),
                        "commit",
                        || format!("append {n} reports position {} and other roots", x.global_position),
                    )?;
                    ensure(
                        compute_commitment_tree_state_root(&x.sinsemilla_root, &x.bulk_state_root) == self.state_root(&self.notes),
                        "commit",
                        || "state root of two roots".into(),
                    )?;
                }
                Err(_) if bad => {
                    self.st.writes_refused += 1;
                    return Ok(());
                }
                Err(_) if failed => {
                    *self.st.faults.entry("store_error".into()).or_default() += 1;
                    self.st.writes_refused += 1;
                    return Ok(());
                }
                Err(e) => return err("append", e),
            }
        }
        Ok(())
    }

    fn frontier(&mut self, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let mut f = CommitmentFrontier::new();
        // some other number of leaves, to reach every shape
        let n = *r.pick(&[0usize, 1, 2, 3, 7, 8, 9, 31, 64, 100]) + r.below(3);
        let ls: Vec<H> = (0..n).map(|i| cmx(seed.wrapping_add(i as u64))).collect();
        for (i, l) in ls.iter().enumerate() {
            let x = f.append(*l);
            let calls = x.cost().sinsemilla_hash_calls;
            match x.unwrap() {
                Ok(h) => ensure(h == anchor_of(&ls[..=i]), "commit", || format!("frontier of {} leaves", i + 1))?,
                Err(e) => return err("frontier append", e),
            }
            let merges = if i == 0 { 0 } else { (i as u64 - 1).trailing_ones() };
            ensure(calls == 32 + merges, "commit", || format!("{calls} hashes for leaf {i}"))?;
            if r.chance(1, 8) {
                let s = f.serialize();
                f = match CommitmentFrontier::deserialize(&s) {
                    Ok(g) => g,
                    Err(e) => return err("frontier reload", e),
                };
                ensure(f.serialize() == s, "commit", || "frontier coding".into())?;
            }
        }
        ensure(f.append([0xff; 32]).unwrap().is_err(), "commit", || "bad leaf accepted".into())?;
        ensure(f.root_hash() == anchor_of(&ls), "commit", || "frontier changed by a refused leaf".into())?;
        let s = f.serialize();
        for _ in 0..6 {
            let d = damage(&mut r, &s, &[]);
            if let Ok(g) = CommitmentFrontier::deserialize(&d) {
                // whatever it is, it is one
                let back = g.serialize();
                let _ = (g.root_hash(), g.tree_size(), g.anchor());
                ensure(d.starts_with(&back), "commit", || "a damaged frontier was read as something else".into())?;
                let mut g = g;
                let _ = g.append(cmx(3)).unwrap();
            }
        }
        let len = r.below(300);
        let _ = deserialize_ciphertext::<DashMemo>(&r.bytes(len)).map(|c| serialize_ciphertext(&c));
        Ok(())
    }
}

const P: H = [
    0x01, 0x00, 0x00, 0x00, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46, 0x22, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0x40,
];

impl Machine for CommitM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let f = if r.chance(1, 4) { Some(r.below(8) as u32) } else { None };
        let fs = if r.chance(1, 5) { Some(r.below(40) as u32) } else { None };
        Some(Act::C(match r.below(24) {
            0..9 => ca("append", &[r.next(), *r.pick(&[0, 0, 3, 3, 1, 2]), *r.pick(&[1, 1, 1, 2, 3, 7, 20])]).fail(f),
            9..12 => ca("save", &[]).fail(f),
            12 => ca("reopen", &[]),
            13..18 => ca("follow", &[r.below(2) as u64, *r.pick(&[1, 2, 5, 17, 100]), r.next()]).fail(fs),
            18 => ca("restart", &[]),
            19 => ca("checkpoint", &[r.below(2) as u64, r.below(4) as u64]).fail(fs),
            20 => ca("frontier", &[r.next()]),
            21 => ca("bad", &[r.below(2) as u64]),
            _ => ca("witness", &[r.below(2) as u64, r.next()]),
        }))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        let i = a.get(0) as usize % 2;
        match a.op.as_str() {
            "append" => self.append(a)?,
            "save" => {
                self.ctx.arm(a.fail);
                let res = self.t.save().unwrap().and_then(|_| self.t.commit_mmr());
                let failed = self.ctx.disarm();
                match res {
                    Ok(()) => {
                        ensure(!failed, "commit-fault", || "save over a failed write succeeded".into())?;
                        self.ctx.flush();
                        self.durable = self.notes.len();
                    }
                    Err(_) if failed => {
                        *self.st.faults.entry("store_error".into()).or_default() += 1;
                    }
                    Err(e) => return err("save", e),
                }
            }
            "reopen" => {
                *self.st.faults.entry("crash".into()).or_default() += 1;
                self.ctx.crash();
                self.notes.truncate(self.durable);
                let n = self.notes.len() as u64;
                self.t = match Server::open(n, self.height, self.ctx.clone()).unwrap() {
                    Ok(t) => t,
                    Err(e) => return err("open", e),
                };
                for m in [n + 1, n.wrapping_sub(1)] {
                    ensure(Server::open(m, self.height, self.ctx.clone()).unwrap().is_err(), "commit", || {
                        format!("opened {n} notes as {m}")
                    })?;
                }
            }
            "follow" => self.follow(i, a.get(1) as usize, a.get(2), a.fail)?,
            "restart" => {
                let max = self.clients[1].max_cp;
                if let Client::Sql(t, conn) = &mut self.clients[1].c {
                    *t = None;
                    *t = match ClientPersistentCommitmentTree::open_on_shared_connection(conn.clone(), max) {
                        Ok(t) => Some(t),
                        Err(e) => return err("client restart", e),
                    };
                }
                self.client(1)?;
            }
            "checkpoint" => {
                let k = &mut self.clients[i];
                let old = a.get(1) == 0 && !k.cps.is_empty() && !k.loose;
                let id = if old { k.cps.last().unwrap().0 } else { k.next_id };
                let sql = matches!(k.c, Client::Sql(..));
                if sql {
                    self.fuse.store(a.fail.map_or(-1, |f| f as i64), Ordering::SeqCst);
                    self.tripped.store(0, Ordering::SeqCst);
                }
                let res = k.c.checkpoint(id);
                self.fuse.store(-1, Ordering::SeqCst);
                let failed = sql && self.tripped.load(Ordering::SeqCst) > 0;
                match res {
                    Ok(b) => {
                        ensure(!failed, "commit-client", || "a failed statement went unnoticed".into())?;
                        ensure(b != old, "commit-client", || format!("checkpoint {id} gives {b}"))?;
                        if b {
                            k.cps.push((id, k.leaves.len()));
                            k.next_id = id + 1;
                        }
                    }
                    Err(_) if failed => {
                        *self.st.faults.entry("sql_error".into()).or_default() += 1;
                        k.loose = true;
                        k.next_id += 1;
                    }
                    Err(e) => return err("checkpoint", e),
                }
                self.client(i)?;
            }
            "bad" => {
                let k = &mut self.clients[i];
                ensure(k.c.append([0xff; 32], Retention::Marked).is_err(), "commit-client", || "bad leaf accepted".into())?;
                self.client(i)?;
            }
            "frontier" => self.frontier(a.get(0))?,
            "witness" => {
                let s = a.get(1);
                self.witness(i, s)?;
            }
            _ => {}
        }
        self.check()
    }

    fn last(&mut self) -> V {
        self.act(&Act::C(ca("save", &[])))?;
        self.act(&Act::C(ca("reopen", &[])))?;
        for i in 0..2u64 {
            self.act(&Act::C(ca("restart", &[])))?;
            self.act(&Act::C(ca("follow", &[i, 100_000, i])))?;
            self.act(&Act::C(ca("witness", &[i, 5])))?;
        }
        Ok(())
    }

    fn done(mut self: Box<Self>) -> Stats {
        self.st.engine_calls = self.ctx.calls();
        std::mem::take(&mut self.st)
    }
}
