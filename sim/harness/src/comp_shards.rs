//! The SQLite shard store beside shardtree's own store in memory: under the
//! same calls they hold the same, and a refused statement leaves no trace.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        Arc, Mutex,
        atomic::{AtomicI64, Ordering},
    },
};

use grovedb_commitment_tree::{Level, MerkleHashOrchard, Position, Retention, SqliteShardStore, SqliteShardStoreError};
use incrementalmerkletree::{Address, Marking, frontier::NonEmptyFrontier};
use rusqlite::{
    Connection,
    hooks::{AuthContext, Authorization},
};
use shardtree::{
    LocatedPrunableTree, LocatedTree, PrunableTree, RetentionFlags, ShardTree, Tree,
    error::{QueryError, ShardTreeError},
    store::{Checkpoint, ShardStore, TreeState, memory::MemoryShardStore},
};

use crate::{check::*, comp::*, comp_commit::cmx, plan::*, rng::*, sim::Stats};

const H: u8 = 4;
type Hash = MerkleHashOrchard;
type Mem = MemoryShardStore<Hash, u32>;
type TreeA = ShardTree<Mem, 32, H>;
type TreeB = ShardTree<SqliteShardStore, 32, H>;

pub struct ShardsM {
    a: Option<TreeA>,
    b: Option<TreeB>,
    conn: Arc<Mutex<Connection>>,
    fuse: Arc<AtomicI64>,
    tripped: Arc<AtomicI64>,
    /// the stores are called directly
    raw: bool,
    r: Rng,
    left: usize,
    st: Stats,
}

fn leaf(seed: u64) -> Hash {
    Option::from(Hash::from_bytes(&cmx(seed))).expect("field element")
}

/// what went wrong, without what a store adds
fn kind<T, E: std::fmt::Debug>(r: Result<T, ShardTreeError<E>>) -> Result<T, String> {
    r.map_err(|e| match e {
        ShardTreeError::Query(q) => match q {
            QueryError::TreeIncomplete(_) => "incomplete".into(),
            q => format!("{q:?}"),
        },
        ShardTreeError::Insert(i) => format!("{i:?}"),
        ShardTreeError::Storage(e) => format!("storage: {e:?}"),
    })
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> V {
    ensure(a == b, "shards", || {
        let cut = |x: &T| format!("{x:?}").chars().take(300).collect::<String>();
        format!("{what}: {} in memory, {} in SQLite", cut(&a), cut(&b))
    })
}

/// a tree below `addr`, of any shape the store may be given
fn grow(r: &mut Rng, level: u8, start: u64) -> PrunableTree<Hash> {
    let flags = || RetentionFlags::from_bits(0).unwrap();
    if level == 0 {
        return match r.below(4) {
            0 => Tree::empty(),
            n => Tree::leaf((leaf(start ^ n as u64), RetentionFlags::from_bits(r.below(8) as u8).unwrap_or_else(flags))),
        };
    }
    match r.below(6) {
        0 => Tree::empty(),
        1 => Tree::leaf((leaf(start ^ 77), RetentionFlags::from_bits(r.below(8) as u8).unwrap_or_else(flags))),
        n => {
            let ann = (n == 2).then(|| Arc::new(leaf(start ^ 99)));
            let (l, rt) = (grow(r, level - 1, mix(start + 1)), grow(r, level - 1, mix(start + 2)));
            Tree::parent(ann, l, rt)
        }
    }
}

fn cp(x: u64) -> Checkpoint {
    let mut r = Rng::new(x);
    let st = if r.chance(1, 5) { TreeState::Empty } else { TreeState::AtPosition(Position::from(r.below(200) as u64)) };
    let n = *r.pick(&[0usize, 0, 1, 2, 5]);
    Checkpoint::from_parts(st, (0..n).map(|_| Position::from(r.below(100) as u64)).collect())
}

fn cps<S: ShardStore<CheckpointId = u32>>(s: &mut S, limit: usize) -> Result<(BTreeMap<u32, String>, BTreeMap<u32, String>), S::Error> {
    let (mut x, mut y) = (BTreeMap::new(), BTreeMap::new());
    s.for_each_checkpoint(limit, |i, c| {
        x.insert(*i, format!("{c:?}"));
        Ok(())
    })?;
    s.with_checkpoints(limit, |i, c| {
        y.insert(*i, format!("{c:?}"));
        Ok(())
    })?;
    Ok((x, y))
}

#[derive(PartialEq, Debug, Clone)]
struct Dump {
    shards: Vec<(u64, Option<LocatedPrunableTree<Hash>>)>,
    last: Option<LocatedPrunableTree<Hash>>,
    cap: PrunableTree<Hash>,
    cps: (BTreeMap<u32, String>, BTreeMap<u32, String>),
    ids: (Option<u32>, Option<u32>, usize),
    at: Vec<String>,
    one: Vec<String>,
}

fn dump<S: ShardStore<H = Hash, CheckpointId = u32>>(s: &mut S) -> Result<Dump, S::Error>
where
    S::Error: std::fmt::Debug,
{
    let mut shards = vec![];
    for a in s.get_shard_roots()? {
        shards.push((a.index(), s.get_shard(a)?));
    }
    let n = s.checkpoint_count()?;
    let mut at = vec![];
    for d in 0..n + 2 {
        at.push(format!("{:?}", s.get_checkpoint_at_depth(d)?));
    }
    let mut one = vec![];
    for i in 0..12 {
        one.push(format!("{:?}", s.get_checkpoint(&i)?));
    }
    Ok(Dump {
        shards,
        last: s.last_shard()?,
        cap: s.get_cap()?,
        cps: cps(s, n + 1)?,
        ids: (s.min_checkpoint_id()?, s.max_checkpoint_id()?, n),
        at,
        one,
    })
}

/// one direct call
fn call<S: ShardStore<H = Hash, CheckpointId = u32>>(s: &mut S, a: &CAct) -> Result<String, S::Error> {
    let (x, y) = (a.get(0), a.get(1));
    let id = (x % 12) as u32;
    Ok(match a.op.as_str() {
        "put" => {
            // as a tree grows: no further than one beyond the last
            let n = s.get_shard_roots()?.len() as u64;
            let addr = Address::from_parts(Level::from(H), x % (n + 1));
            let t = grow(&mut Rng::new(y), H, y);
            match LocatedTree::from_parts(addr, t) {
                Ok(t) => format!("{:?}", s.put_shard(t)?),
                Err(_) => String::new(),
            }
        }
        "cut" => format!("{:?}", s.truncate_shards(x % 8)?),
        "cap" => format!("{:?}", s.put_cap(grow(&mut Rng::new(y), 28.min(1 + (x % 28) as u8), y))?),
        "cp" => {
            if s.get_checkpoint(&id)?.is_some() {
                return Ok("there".into());
            }
            format!("{:?}", s.add_checkpoint(id, cp(y))?)
        }
        "alter" => format!(
            "{:?}",
            s.update_checkpoint_with(&id, |c| {
                *c = cp(y);
                Ok(())
            })?
        ),
        "forget" => format!("{:?}", s.remove_checkpoint(&id)?),
        _ => format!("{:?}", s.truncate_checkpoints_retaining(&id)?),
    })
}

impl ShardsM {
    pub fn new(seed: u64) -> V<Self> {
        let mut r = Rng::new(seed);
        let conn = Connection::open_in_memory().expect("sqlite");
        let (fuse, tripped) = (Arc::new(AtomicI64::new(-1)), Arc::new(AtomicI64::new(0)));
        let (f, tr) = (fuse.clone(), tripped.clone());
        conn.authorizer(Some(move |_: AuthContext<'_>| match f.load(Ordering::SeqCst) {
            0 => {
                f.store(-1, Ordering::SeqCst);
                tr.fetch_add(1, Ordering::SeqCst);
                Authorization::Deny
            }
            n if n > 0 => {
                f.store(n - 1, Ordering::SeqCst);
                Authorization::Allow
            }
            _ => Authorization::Allow,
        }))
        .expect("authorizer");
        let conn = Arc::new(Mutex::new(conn));
        let b = match SqliteShardStore::new_shared(conn.clone()) {
            Ok(b) => b,
            Err(e) => return viol("shards", format!("new: {e}")),
        };
        let raw = r.chance(1, 3);
        let left = r.range(8, 50);
        // pruning by number is another finding: room for all
        Ok(ShardsM {
            a: Some(ShardTree::new(Mem::empty(), 1000)),
            b: Some(ShardTree::new(b, 1000)),
            conn,
            fuse,
            tripped,
            raw,
            r,
            left,
            st: Stats::default(),
        })
    }

    fn direct(&mut self, a: &CAct) -> V {
        let (ta, tb) = (self.a.as_mut().unwrap(), self.b.as_mut().unwrap());
        let (sa, sb) = (ta.store_mut(), tb.store_mut());
        let x = call(sa, a).unwrap_or_else(|e| match e {});
        let before = dump(sb).map_err(|e| format!("{e:?}"));
        self.tripped.store(0, Ordering::SeqCst);
        self.fuse.store(a.fail.map_or(-1, |f| f as i64), Ordering::SeqCst);
        let mut y: Result<String, SqliteShardStoreError> = call(sb, a);
        self.fuse.store(-1, Ordering::SeqCst);
        if self.tripped.load(Ordering::SeqCst) > 0 {
            *self.st.faults.entry("sqlite_refused".into()).or_default() += 1;
            if y.is_err() {
                let now = dump(sb).map_err(|e| format!("{e:?}"));
                ensure(before == now, "shards", || {
                    format!("{} failed and left a trace in SQLite: {before:?} became {now:?}", a.op).chars().take(600).collect()
                })?;
                y = call(sb, a);
            }
        }
        match y {
            Ok(y) => same(&a.op, x, y)?,
            Err(e) => return viol("shards", format!("{}: {e:?}", a.op)),
        }
        self.compare(&a.op)
    }

    fn compare(&mut self, what: &str) -> V {
        self.st.checks += 1;
        let (ta, tb) = (self.a.as_mut().unwrap(), self.b.as_mut().unwrap());
        let x = dump(ta.store_mut()).unwrap_or_else(|e| match e {});
        let mut x = x;
        let mut y = match dump(tb.store_mut()) {
            Ok(y) => y,
            Err(e) => return viol("shards", format!("reading after {what}: {e:?}")),
        };
        if !self.raw {
            // the store in memory fills gaps with empty shards
            for d in [&mut x, &mut y] {
                d.shards.retain(|(_, t)| t.as_ref().is_some_and(|t| !t.root().is_empty()));
            }
        }
        let mut h = 0u64;
        for b in format!("{y:?}").bytes() {
            h = mix(h ^ b as u64);
        }
        self.st.states.insert(h);
        same(&format!("the store after {what}"), x, y)
    }

    fn tree(&mut self, a: &CAct) -> V {
        macro_rules! both {
            ($w:expr, |$t:ident| $e:expr) => {{
                let x = {
                    let $t = self.a.as_mut().unwrap();
                    kind($e)
                };
                let y = {
                    let $t = self.b.as_mut().unwrap();
                    kind($e)
                };
                same($w, x, y)?;
            }};
        }
        let (x, y, z) = (a.get(0), a.get(1), a.get(2));
        let id = {
            let s = self.a.as_ref().unwrap().store();
            s.max_checkpoint_id().unwrap_or_else(|e| match e {}).unwrap_or(0) + 1 + (z % 3) as u32
        };
        let keep = |k: u64| -> Retention<u32> {
            match k % 6 {
                0 | 1 => Retention::Ephemeral,
                2 | 3 => Retention::Marked,
                4 => Retention::Reference,
                _ => Retention::Checkpoint {
                    id,
                    marking: [Marking::None, Marking::Marked, Marking::Reference][(k / 6 % 3) as usize],
                },
            }
        };
        let end = self
            .a
            .as_ref()
            .unwrap()
            .max_leaf_position(None)
            .ok()
            .flatten()
            .map_or(0, |p| u64::from(p) + 1);
        match a.op.as_str() {
            "append" => {
                for i in 0..x % 20 + 1 {
                    let k = if i == x % 20 { keep(z) } else { keep(mix(y + i) % 5) };
                    both!("append", |t| t.append(leaf(y ^ i << 32), k));
                }
            }
            "insert many" => {
                let n = x % 40;
                let vals: Vec<(Hash, Retention<u32>)> = (0..n)
                    .map(|i| (leaf(y ^ i << 32), if i + 1 == n { keep(z) } else { keep(mix(y + i) % 5) }))
                    .collect();
                let at = Position::from(if z & 1 == 0 { end } else { end.saturating_sub(y % 20) + y % 33 });
                both!("batch_insert", |t| t.batch_insert(at, vals.clone().into_iter()).map(|r| format!("{r:?}")));
            }
            "insert" => {
                let l = (x % 8) as u8;
                let at = Address::from_parts(Level::from(l), (end >> l) + y % 3);
                both!("insert", |t| t.insert(at, leaf(y)));
            }
            "jump" => {
                let p = Position::from(end + x % 90);
                let om: Vec<Hash> = (0..u8::from(p.past_ommer_count())).map(|i| leaf(y + i as u64)).collect();
                let Ok(f) = NonEmptyFrontier::from_parts(p, leaf(y ^ 5), om) else { return Ok(()) };
                both!("insert_frontier_nodes", |t| t.insert_frontier_nodes(f.clone(), keep(z)));
            }
            "checkpoint" => both!("checkpoint", |t| t.checkpoint(id)),
            "unmark" => {
                let p = Position::from(if end == 0 { 0 } else { x % end });
                let c = (y & 1 == 1).then_some(id.saturating_sub(1 + (y % 5) as u32));
                both!("remove_mark", |t| t.remove_mark(p, c.as_ref()));
            }
            "back" => both!("truncate_to_checkpoint_depth", |t| t.truncate_to_checkpoint_depth((x % 4) as usize)),
            "back to" => {
                let c = id.saturating_sub(1 + (x % 6) as u32);
                both!("truncate_to_checkpoint", |t| t.truncate_to_checkpoint(&c));
            }
            "warm" => {
                both!("root caching", |t| t.root_at_checkpoint_depth_caching(None));
                let d = (x % 4) as usize;
                both!("root caching", |t| t.root_at_checkpoint_depth_caching(Some(d)));
                let marked = self.a.as_ref().unwrap().marked_positions().unwrap_or_default();
                for p in marked.into_iter().take(6) {
                    both!("witness caching", |t| t.witness_at_checkpoint_depth_caching(p, d));
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn reads(&mut self) -> V {
        macro_rules! both {
            ($w:expr, |$t:ident| $e:expr) => {{
                let x = {
                    let $t = self.a.as_ref().unwrap();
                    kind($e)
                };
                let y = {
                    let $t = self.b.as_ref().unwrap();
                    kind($e)
                };
                same($w, x, y)?;
            }};
        }
        both!("marked positions", |t| t.marked_positions());
        both!("frontier", |t| t.frontier());
        both!("root", |t| t.root_at_checkpoint_depth(None));
        both!("last position", |t| t.max_leaf_position(None));
        let marked: BTreeSet<Position> = self.a.as_ref().unwrap().marked_positions().unwrap_or_default();
        for d in 0..4 {
            both!("root at depth", |t| t.root_at_checkpoint_depth(Some(d)));
            both!("last position at depth", |t| t.max_leaf_position(Some(d)));
            for p in marked.iter().take(5) {
                both!("witness", |t| t.witness_at_checkpoint_depth(*p, d));
            }
        }
        for i in 0..12u32 {
            both!("root at id", |t| t.root_at_checkpoint_id(&i));
            for p in marked.iter().rev().take(2) {
                both!("witness at id", |t| t.witness_at_checkpoint_id(*p, &i));
            }
        }
        for p in marked.iter().take(8) {
            both!("marked leaf", |t| t.get_marked_leaf(*p));
        }
        Ok(())
    }
}

impl Machine for ShardsM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let n = [r.next() >> 12, r.next() >> 12, r.next() >> 12];
        if self.raw {
            let op = *r.pick(&["put", "put", "cut", "cap", "cp", "cp", "cp", "alter", "alter", "forget", "keep", "reopen"]);
            let f = r.chance(1, 4).then(|| r.below(40) as u32);
            return Some(Act::C(ca(op, &n).fail(f)));
        }
        let op = *r.pick(&[
            "append", "append", "append", "insert many", "insert", "jump", "checkpoint", "checkpoint", "unmark", "back", "back to",
            "warm", "reopen",
        ]);
        Some(Act::C(ca(op, &n)))
    }

    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        self.st.writes_ok += 1;
        if a.op == "reopen" {
            drop(self.b.take());
            self.b = Some(match SqliteShardStore::new_shared(self.conn.clone()) {
                Ok(b) => ShardTree::new(b, 1000),
                Err(e) => return viol("shards", format!("reopening: {e}")),
            });
            return self.compare("reopening");
        }
        if self.raw {
            return self.direct(a);
        }
        self.tree(a)?;
        self.compare(&a.op)?;
        self.reads()
    }

    fn last(&mut self) -> V {
        self.act(&Act::C(ca("reopen", &[])))?;
        if self.raw { Ok(()) } else { self.reads() }
    }

    fn done(mut self: Box<Self>) -> Stats {
        std::mem::take(&mut self.st)
    }
}
