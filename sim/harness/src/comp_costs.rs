//! Cost accounting: costs added up in every way the library offers, against a
//! plain account.
use std::collections::BTreeMap;

use grovedb_costs::{
    CostContext, CostResult, CostsExt, OperationCost, TreeCostType, cost_return_on_error, cost_return_on_error_into,
    cost_return_on_error_into_no_add, cost_return_on_error_no_add,
    storage_cost::{
        StorageCost,
        key_value_cost::KeyValueStorageCost,
        removal::{StorageRemovedBytes, UNKNOWN_EPOCH},
        transition::OperationStorageTransitionType as T,
    },
};

use crate::{check::*, comp::*, plan::*, rng::*, sim::Stats};

type Id = [u8; 32];

#[derive(Clone, Default, Debug, PartialEq)]
struct Acc {
    seek: u64,
    loaded: u128,
    hash: u64,
    sins: u64,
    added: u64,
    replaced: u64,
    /// what was not attributed counts as the unknown owner's unknown epoch
    removed: BTreeMap<(Id, u16), u64>,
}

fn clamp(n: u64) -> u64 {
    n.min(u32::MAX as u64)
}

impl Acc {
    fn add(&mut self, o: &Acc) {
        self.seek = clamp(self.seek + o.seek);
        self.hash = clamp(self.hash + o.hash);
        self.sins = clamp(self.sins + o.sins);
        self.added = clamp(self.added + o.added);
        self.replaced = clamp(self.replaced + o.replaced);
        self.loaded = (self.loaded + o.loaded).min(u64::MAX as u128);
        for (k, v) in &o.removed {
            *self.removed.entry(*k).or_default() += v;
        }
    }
    fn total_removed(&self) -> u64 {
        self.removed.values().sum()
    }
}

fn removed(s: &StorageRemovedBytes) -> BTreeMap<(Id, u16), u64> {
    let mut m = BTreeMap::new();
    match s {
        StorageRemovedBytes::NoStorageRemoval => {}
        StorageRemovedBytes::BasicStorageRemoval(n) => {
            m.insert(([0; 32], UNKNOWN_EPOCH), *n as u64);
        }
        StorageRemovedBytes::SectionedStorageRemoval(x) => {
            for (id, e) in x {
                for (k, v) in e.iter() {
                    *m.entry((*id, k)).or_default() += *v as u64;
                }
            }
        }
    }
    m.retain(|_, v| *v > 0);
    m
}

fn acc(c: &OperationCost) -> Acc {
    Acc {
        seek: c.seek_count as u64,
        loaded: c.storage_loaded_bytes as u128,
        hash: c.hash_node_calls as u64,
        sins: c.sinsemilla_hash_calls as u64,
        added: c.storage_cost.added_bytes as u64,
        replaced: c.storage_cost.replaced_bytes as u64,
        removed: removed(&c.storage_cost.removed_bytes),
    }
}

fn gen_removed(r: &mut Rng) -> StorageRemovedBytes {
    let n = |r: &mut Rng| if r.chance(1, 6) { 0 } else { r.below(1000) as u32 };
    match r.below(5) {
        0 => StorageRemovedBytes::NoStorageRemoval,
        1 | 2 => StorageRemovedBytes::BasicStorageRemoval(n(r)),
        _ => {
            let mut m: BTreeMap<Id, _> = BTreeMap::new();
            for _ in 0..r.below(4) {
                let mut id = [0u8; 32];
                id[31] = r.below(3) as u8;
                for _ in 0..r.range(1, 3) {
                    let e = *r.pick(&[0u16, 1, 2, 7, UNKNOWN_EPOCH - 1, UNKNOWN_EPOCH, UNKNOWN_EPOCH]);
                    let v = n(r);
                    let im: &mut intmap::IntMap<u16, u32> = m.entry(id).or_default();
                    im.insert(e, v);
                }
            }
            StorageRemovedBytes::SectionedStorageRemoval(m)
        }
    }
}

fn gen_storage(r: &mut Rng) -> StorageCost {
    let n = |r: &mut Rng| match r.below(12) {
        0..=3 => 0,
        4 => u32::MAX / 2,
        _ => r.below(5000) as u32,
    };
    StorageCost { added_bytes: n(r), replaced_bytes: n(r), removed_bytes: gen_removed(r) }
}

fn gen_cost(r: &mut Rng) -> OperationCost {
    let n = |r: &mut Rng| match r.below(12) {
        0..=3 => 0,
        4 => u32::MAX / 2,
        _ => r.below(5000) as u32,
    };
    OperationCost {
        seek_count: n(r),
        storage_cost: gen_storage(r),
        storage_loaded_bytes: if r.chance(1, 12) { u64::MAX / 2 } else { n(r) as u64 },
        hash_node_calls: n(r),
        sinsemilla_hash_calls: n(r),
    }
}

fn fails(a: OperationCost, b: OperationCost, bad: bool) -> CostResult<u8, String> {
    let mut cost = a;
    let x = cost_return_on_error!(&mut cost, (if bad { Err("bad".to_string()) } else { Ok(7u8) }).wrap_with_cost(b));
    Ok(x).wrap_with_cost(cost)
}
fn fails_into(a: OperationCost, b: OperationCost, bad: bool) -> CostResult<u8, String> {
    let mut cost = a;
    let x = cost_return_on_error_into!(&mut cost, (if bad { Err("bad") } else { Ok(7u8) }).wrap_with_cost(b));
    Ok(x).wrap_with_cost(cost)
}
fn fails_no_add(a: OperationCost, bad: bool) -> CostResult<u8, String> {
    let cost = a;
    let x = cost_return_on_error_no_add!(cost, if bad { Err("bad".to_string()) } else { Ok(7u8) });
    Ok(x).wrap_with_cost(cost)
}
fn fails_into_no_add(a: OperationCost, bad: bool) -> CostResult<u8, String> {
    let cost = a;
    let x = cost_return_on_error_into_no_add!(cost, if bad { Err("bad") } else { Ok(7u8) });
    Ok(x).wrap_with_cost(cost)
}

fn req(n: u64) -> u64 {
    (1..10).find(|i| n < 1 << (7 * i)).unwrap_or(10)
}

pub struct CostsM {
    real: Vec<OperationCost>,
    want: Vec<Acc>,
    r: Rng,
    left: usize,
    st: Stats,
}

impl CostsM {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let left = r.range(10, 60);
        CostsM { real: vec![OperationCost::default(); 4], want: vec![Acc::default(); 4], r, left, st: Stats::default() }
    }
    fn same(&self, what: &str, got: &OperationCost, want: &Acc) -> V {
        let g = acc(got);
        let mut want = want.clone();
        want.removed.retain(|_, v| *v > 0);
        ensure(g == want, "cost-sum", || {
            let all: std::collections::BTreeSet<_> = g.removed.keys().chain(want.removed.keys()).collect();
            let d: Vec<String> = all
                .iter()
                .filter(|k| g.removed.get(k) != want.removed.get(k))
                .map(|k| format!("owner {} epoch {}: {:?}, parts {:?}", k.0[31], k.1, g.removed.get(k), want.removed.get(k)))
                .collect();
            let f = |a: &Acc| (a.seek, a.loaded, a.hash, a.sins, a.added, a.replaced);
            format!("{what}: {:?}, the parts add up to {:?}; removed: {d:?}", f(&g), f(&want))
        })?;
        let s = &got.storage_cost;
        ensure(s.removed_bytes.total_removed_bytes() as u64 == want.total_removed(), "cost-sum", || {
            format!("{what}: {} bytes removed in total, {} in parts", s.removed_bytes.total_removed_bytes(), want.total_removed())
        })?;
        ensure(s.removed_bytes.has_removal() == (want.total_removed() > 0), "cost-sum", || format!("{what}: has_removal"))?;
        ensure(s.has_storage_change() == (want.added > 0 || want.total_removed() > 0), "cost-sum", || {
            format!("{what}: has_storage_change")
        })?;
        let (a, r, d) = (want.added > 0, want.replaced > 0, want.total_removed() > 0);
        let ok = matches!(
            (s.transition_type(), a, r, d),
            (T::OperationReplace, true, _, true)
                | (T::OperationUpdateBiggerSize, true, true, false)
                | (T::OperationInsertNew, true, false, false)
                | (T::OperationUpdateSmallerSize, false, true, true)
                | (T::OperationDelete, false, false, true)
                | (T::OperationUpdateSameSize, false, true, false)
                | (T::OperationNone, false, false, false)
        );
        ensure(ok, "cost-sum", || format!("{what}: wrong kind of transition for {s:?}"))
    }
    /// add to a slot, in one of the ways there are
    fn add(&mut self, i: usize, way: u64, c: OperationCost) -> V {
        let a = std::mem::take(&mut self.real[i]);
        let d = acc(&c);
        self.want[i].add(&d);
        let got = match way {
            0 => a + c,
            1 => {
                let mut a = a;
                a += c;
                a
            }
            2 => 5u8.wrap_with_cost(a).add_cost(c).cost,
            3 => {
                let mut a = a;
                let v = 5u8.wrap_with_cost(c).unwrap_add_cost(&mut a);
                ensure(v == 5, "cost-sum", || "value changed".into())?;
                a
            }
            4 => 5u8.wrap_with_cost(a).flat_map(|v| (v + 1).wrap_with_cost(c)).map(|v| v + 1).cost,
            5 => {
                let x: CostResult<u8, ()> = Ok(5).wrap_with_cost(a);
                x.flat_map_ok(|v| Ok(v + 1).wrap_with_cost(c)).map_ok(|v| v + 1).map_err(|_| ()).cost
            }
            6 => {
                let x: CostContext<CostContext<u8>> = 1u8.wrap_with_cost(a).wrap_with_cost(c);
                x.flatten().cost
            }
            7 => fails(a, c, false).cost,
            8 => {
                let x = fails(a, c, true);
                ensure(x.value.is_err(), "cost-sum", || "error lost".into())?;
                x.cost
            }
            9 => fails_into(a, c, true).cost,
            10 => {
                // no cost of its own, then the whole
                let x = fails_no_add(a, true);
                let y = fails_into_no_add(x.cost, true);
                fails_into(y.cost, c, false).cost
            }
            11 => {
                // an error skips what would follow
                let x: CostResult<u8, u8> = Err(1).wrap_with_cost(a);
                let x = x.flat_map_ok(|_| Ok(5u8).wrap_with_cost(OperationCost::with_seek_count(77)));
                let x = x.for_ok(|_| {});
                ensure(x.value == Err(1), "cost-sum", || "error lost".into())?;
                x.add_cost(c).cost
            }
            12 => {
                // in parts
                let mut a = a;
                let s = StorageCost { added_bytes: c.storage_cost.added_bytes, ..Default::default() };
                a += OperationCost::with_storage_written_bytes(s.added_bytes);
                let rest = StorageCost { added_bytes: 0, ..c.storage_cost };
                let kv = KeyValueStorageCost { value_storage_cost: rest, ..Default::default() };
                let mut kv2 = KeyValueStorageCost::default();
                kv2 += kv.clone();
                let kv = kv + KeyValueStorageCost::default();
                ensure(kv == kv2, "cost-sum", || "key/value costs added differently".into())?;
                let removed_bytes = kv.clone().combined_removed_bytes();
                a.storage_cost += StorageCost { removed_bytes, added_bytes: 0, replaced_bytes: kv.value_storage_cost.replaced_bytes };
                a += OperationCost::with_seek_count(c.seek_count);
                a += OperationCost::with_hash_node_calls(c.hash_node_calls);
                a = a + OperationCost::with_storage_loaded_bytes(c.storage_loaded_bytes);
                a + OperationCost { sinsemilla_hash_calls: c.sinsemilla_hash_calls, ..Default::default() }
            }
            _ => c + a,
        };
        self.same(&format!("after adding a cost (way {way})"), &got, &self.want[i])?;
        self.real[i] = got;
        Ok(())
    }

    /// what writing a key and value adds, and which reports are refused
    fn stored(&mut self, i: usize, seed: u64) -> V {
        let mut r = Rng::new(seed);
        let len = |r: &mut Rng| *r.pick(&[0usize, 1, 40, 100, 127, 128, 129, 300, 16383, 16384, 70000]) as u64 + r.below(3) as u64;
        let k = r.range(33, 33 + 255) as u64;
        let tree = r.chance(2, 3);
        let kinds = [TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes, TreeCostType::TreeFeatureUses16Bytes, TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes];
        let ft = if r.chance(1, 2) { Some(r.below(3)) } else { None };
        let fcost = ft.map_or(0, |t| [8, 16, 16][t]);
        let fl = r.below(10) as u64;
        let child = |r: &mut Rng| r.chance(1, 2).then(|| (r.range(35, 300) as u64, if ft.is_some() { r.below(10) as u64 } else { 0 }));
        let (lc, rc) = (child(&mut r), child(&mut r));
        let own = len(&mut r);
        let (stored, paid, sizes) = if tree {
            let kids: u64 = [lc, rc].iter().flatten().map(|(a, b)| a + b).sum();
            let stored = own + 2 + kids + if ft.is_some() { fl } else { 0 };
            let p = own + fcost;
            let p = p + req(p) + k + 4 + fcost;
            let c = |o: Option<(u64, u64)>| o.map(|(a, b)| (a as u32, b as u32));
            let sizes = Some((ft.map(|t| (pick_kind(&kinds, t), fl as u32)), c(lc), c(rc)));
            (stored, p, sizes)
        } else {
            (own, own + req(own), None)
        };
        let kpaid = k + req(k);
        let with_info = r.chance(2, 3);
        if !with_info {
            let mut c = std::mem::take(&mut self.real[i]);
            let res = c.add_key_value_storage_costs(k as u32, stored as u32, sizes, None);
            ensure(res.is_ok(), "cost-stored", || format!("refused: {res:?}"))?;
            self.want[i].add(&Acc { added: kpaid + paid, ..Acc::default() });
            self.same("after a write without a report", &c, &self.want[i])?;
            self.real[i] = c;
            return Ok(());
        }
        let new = r.chance(1, 2);
        let split = |r: &mut Rng, n: u64, new: bool| {
            let add = if new { n } else { r.below(n as usize + 1) as u64 };
            StorageCost { added_bytes: add as u32, replaced_bytes: (n - add) as u32, removed_bytes: gen_removed(r) }
        };
        let mut info = KeyValueStorageCost {
            key_storage_cost: split(&mut r, kpaid, new),
            value_storage_cost: split(&mut r, paid, new),
            new_node: new,
            needs_value_verification: r.chance(2, 3),
        };
        // a report that does not add up
        let wrong = r.below(4);
        let mut refuse = false;
        match wrong {
            0 => {
                info.value_storage_cost.added_bytes += 1;
                refuse = info.needs_value_verification;
            }
            1 => {
                info.key_storage_cost.added_bytes += 1;
                refuse = new;
            }
            _ => {}
        }
        let d = Acc {
            added: info.key_storage_cost.added_bytes as u64 + info.value_storage_cost.added_bytes as u64,
            replaced: info.key_storage_cost.replaced_bytes as u64 + info.value_storage_cost.replaced_bytes as u64,
            removed: removed(&(info.key_storage_cost.removed_bytes.clone() + info.value_storage_cost.removed_bytes.clone())),
            ..Acc::default()
        };
        let mut c = self.real[i].clone();
        let res = c.add_key_value_storage_costs(k as u32, stored as u32, sizes, Some(info));
        if refuse {
            ensure(res.is_err(), "cost-stored", || "a report that does not match what is written was accepted".into())?;
            ensure(c == self.real[i], "cost-stored", || "a refused report was added".into())?;
        } else {
            ensure(res.is_ok(), "cost-stored", || format!("refused: {res:?}"))?;
            self.want[i].add(&d);
            self.same("after a write", &c, &self.want[i])?;
            self.real[i] = c;
        }
        // the pointer to a subtree's root key
        let (a, b) = (r.below(256) as u64, r.below(256) as u64);
        let (pa, pb) = (a + req(a), b + req(b));
        let n = KeyValueStorageCost::for_updated_root_cost(None, b as u32);
        let u = KeyValueStorageCost::for_updated_root_cost(Some(a as u32), b as u32);
        let tot = |s: &StorageCost| (s.added_bytes as u64, s.replaced_bytes as u64, s.removed_bytes.total_removed_bytes() as u64);
        ensure(tot(&n.key_storage_cost) == (34, 0, 0) && tot(&n.value_storage_cost) == (pb, 0, 0) && n.new_node, "cost-stored", || "new root".into())?;
        ensure(
            tot(&u.key_storage_cost) == (0, 34, 0)
                && tot(&u.value_storage_cost) == (pb.saturating_sub(pa), pa.min(pb), pa.saturating_sub(pb))
                && !u.new_node,
            "cost-stored",
            || format!("root key from {a} to {b} bytes: {:?}", tot(&u.value_storage_cost)),
        )
    }
}

fn pick_kind(k: &[TreeCostType; 3], i: usize) -> TreeCostType {
    match (i, k) {
        (0, [TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes, ..]) => TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes,
        (1, _) => TreeCostType::TreeFeatureUses16Bytes,
        _ => TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes,
    }
}

impl Machine for CostsM {
    fn next(&mut self) -> Option<Act> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let r = &mut self.r;
        let i = r.below(4) as u64;
        Some(Act::C(match r.below(10) {
            0..=4 => ca("add", &[i, r.below(14) as u64, r.next()]),
            5 => ca("merge", &[i, r.below(4) as u64, r.below(14) as u64]),
            6 => ca("laws", &[r.next()]),
            _ => ca("stored", &[i, r.next()]),
        }))
    }
    fn act(&mut self, a: &Act) -> V {
        let Act::C(a) = a else { return Ok(()) };
        note(&mut self.st, a);
        self.st.checks += 1;
        self.st.writes_ok += 1;
        match a.op.as_str() {
            "add" => {
                let c = gen_cost(&mut Rng::new(a.get(2)));
                self.add(a.get(0) as usize % 4, a.get(1), c)?;
            }
            "merge" => {
                let j = a.get(1) as usize % 4;
                if self.want[j].total_removed() + self.want[a.get(0) as usize % 4].total_removed() < 1 << 30 {
                    let c = self.real[j].clone();
                    self.add(a.get(0) as usize % 4, a.get(2), c)?;
                }
            }
            "laws" => {
                let mut r = Rng::new(a.get(0));
                let (x, y, z) = (gen_cost(&mut r), gen_cost(&mut r), gen_cost(&mut r));
                let mut w = acc(&x);
                w.add(&acc(&y));
                w.add(&acc(&z));
                for (n, c) in [
                    ("(x+y)+z", (x.clone() + y.clone()) + z.clone()),
                    ("x+(y+z)", x.clone() + (y.clone() + z.clone())),
                    ("z+y+x", z.clone() + y.clone() + x.clone()),
                ] {
                    self.same(n, &c, &w)?;
                }
                // an operation is worse than another if it costs at least as
                // much of everything and gives back at most as much
                let (p, q) = (acc(&x), acc(&y));
                let worse = p.seek >= q.seek
                    && p.loaded >= q.loaded
                    && p.hash >= q.hash
                    && p.sins >= q.sins
                    && p.added >= q.added
                    && p.replaced >= q.replaced
                    && p.total_removed() <= q.total_removed();
                ensure(x.worse_or_eq_than(&y) == worse, "cost-sum", || format!("{x:?} worse than {y:?}: {}", !worse))?;
                ensure(x.worse_or_eq_than(&x), "cost-sum", || "not as bad as itself".into())?;
                let mut more = x.clone();
                more += OperationCost { storage_cost: StorageCost { removed_bytes: Default::default(), ..y.storage_cost }, ..y };
                ensure(more.worse_or_eq_than(&x), "cost-sum", || "more is better".into())?;
                ensure(x.is_nothing() == (x == OperationCost::default()), "cost-sum", || "is_nothing".into())?;
            }
            "stored" => self.stored(a.get(0) as usize % 4, a.get(1))?,
            _ => {}
        }
        Ok(())
    }
    fn last(&mut self) -> V {
        for i in 0..4 {
            self.same("at the end", &self.real[i], &self.want[i])?;
        }
        Ok(())
    }
    fn done(self: Box<Self>) -> Stats {
        self.st
    }
}
