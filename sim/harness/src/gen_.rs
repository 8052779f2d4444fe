//! Online generator: the next step is drawn from the current model state.
use crate::{model::*, ops::*, query, rng::Rng, sim::*};

/// how a kind of run is weighted; every run perturbs these
#[derive(Clone, Debug)]
pub struct Prof {
    pub steps: (usize, usize),
    /// elements kept at most
    pub size: usize,
    // actions
    pub direct: u32,
    pub in_tx: u32,
    pub begin: u32,
    pub commit: u32,
    pub rollback: u32,
    pub drop_tx: u32,
    pub reopen: u32,
    pub flush: u32,
    pub bg: u32,
    pub crash: u32,
    pub power: u32,
    pub check: u32,
    pub query: u32,
    pub prove: u32,
    pub tamper: u32,
    pub chunks: u32,
    pub sync: u32,
    /// peers may lie
    pub evil: bool,
    pub cp: u32,
    pub corrupt: u32,
    pub sweep: u32,
    pub race: u32,
    pub replica: u32,
    /// open transactions at most
    pub tx_slots: usize,
    // writes
    pub w_insert: u32,
    pub w_cond: u32,
    pub w_delete: u32,
    pub w_delete_up: u32,
    pub w_clear: u32,
    pub w_append: u32,
    pub w_batch: u32,
    pub w_nobatch: u32,
    pub w_aux: u32,
    // elements
    pub e_item: u32,
    pub e_sum: u32,
    pub e_isum: u32,
    pub e_ref: u32,
    pub e_tree: u32,
    pub e_append: u32,
    pub kinds: [u32; 7],
    /// MMR, bulk, dense, commitment
    pub a_kinds: [u32; 4],
    /// permille of write / commit steps that get faults
    pub fault: u32,
    pub f_fail: u32,
    pub f_crash: u32,
    pub f_power: u32,
    pub f_run: u32,
    /// permille of reads that get faults
    pub rfault: u32,
    /// permille of invalid inputs
    pub bad: u32,
    /// permille of extreme sums
    pub extreme: u32,
    /// flags on elements (permille)
    pub flags: u32,
    pub batch_len: usize,
    /// permille of keys from the adversarial alphabet
    pub odd_keys: u32,
    /// permille of values that are large
    pub big: u32,
    pub depth: usize,
    pub swarm: bool,
    pub costs: bool,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            steps: (25, 60),
            size: 60,
            direct: 40,
            in_tx: 15,
            begin: 4,
            commit: 4,
            rollback: 1,
            drop_tx: 1,
            reopen: 2,
            flush: 1,
            bg: 1,
            crash: 1,
            power: 1,
            check: 4,
            query: 4,
            prove: 0,
            tamper: 0,
            chunks: 0,
            sync: 0,
            evil: false,
            cp: 0,
            corrupt: 0,
            sweep: 0,
            race: 0,
            replica: 0,
            tx_slots: 2,
            w_insert: 40,
            w_cond: 8,
            w_delete: 14,
            w_delete_up: 2,
            w_clear: 2,
            w_append: 8,
            w_batch: 15,
            w_nobatch: 2,
            w_aux: 3,
            e_item: 30,
            e_sum: 10,
            e_isum: 5,
            e_ref: 10,
            e_tree: 18,
            e_append: 5,
            kinds: [4, 2, 2, 2, 2, 2, 2],
            a_kinds: [1, 1, 1, 1],
            fault: 60,
            f_fail: 4,
            f_crash: 2,
            f_power: 1,
            f_run: 0,
            rfault: 20,
            bad: 40,
            extreme: 30,
            flags: 200,
            batch_len: 6,
            odd_keys: 300,
            big: 40,
            depth: 4,
            swarm: true,
            costs: false,
        }
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub left: usize,
    /// keys this run likes
    keys: Vec<B>,
    fresh: u32,
    flags: Vec<B>,
    seq: bool,
}

fn swarm(r: &mut Rng, v: &mut u32) {
    match r.below(8) {
        0 => *v = 0,
        1 => *v *= 4,
        2 => *v = (*v / 3).max((*v > 0) as u32),
        _ => {}
    }
}

impl Gen {
    pub fn new(mut r: Rng, mut p: Prof) -> Gen {
        if p.swarm {
            for v in [
                &mut p.in_tx, &mut p.reopen, &mut p.flush, &mut p.bg, &mut p.crash, &mut p.power,
                &mut p.rollback, &mut p.w_cond, &mut p.w_delete, &mut p.w_delete_up, &mut p.w_clear,
                &mut p.w_append, &mut p.w_batch, &mut p.w_nobatch, &mut p.w_aux, &mut p.e_sum,
                &mut p.e_isum, &mut p.e_ref, &mut p.e_tree, &mut p.e_append, &mut p.fault,
                &mut p.extreme, &mut p.flags, &mut p.odd_keys, &mut p.big, &mut p.bad,
            ] {
                swarm(&mut r, v);
            }
            for k in &mut p.kinds {
                swarm(&mut r, k);
            }
            if p.kinds.iter().all(|k| *k == 0) {
                p.kinds[0] = 1;
            }
            p.direct = p.direct.max(1);
            p.w_insert = p.w_insert.max(10);
            if r.chance(1, 6) {
                p.size *= 3;
                p.e_tree = p.e_tree / 3 + 1;
                p.w_batch = p.w_batch * 2 + 5;
                p.batch_len *= 3;
            }
        }
        let left = r.range(p.steps.0, p.steps.1);
        let mut odd: Vec<B> = vec![
            vec![],
            vec![0],
            vec![0, 0],
            vec![0, 1],
            vec![255],
            vec![255, 255],
            b"a".to_vec(),
            b"ab".to_vec(),
            b"abc".to_vec(),
            b"b".to_vec(),
            b"bc".to_vec(),
            b"c".to_vec(),
            vec![b'a', 1],
            vec![b'a', 0],
            vec![1],
            vec![2],
            vec![7; 32],
            vec![9; 255],
            vec![255; 255],
            b"r".to_vec(),
            b"m".to_vec(),
        ];
        r.shuffle(&mut odd);
        let n = r.range(4, odd.len());
        odd.truncate(n);
        let flags = (0..3)
            .map(|i| match i {
                0 => vec![],
                _ => {
                    let n = r.range(1, 40);
                    r.bytes(n)
                }
            })
            .collect();
        let seq = r.chance(1, 3);
        Gen { r, p, left, keys: odd, fresh: 0, flags, seq }
    }

    fn pm(&mut self, permille: u32) -> bool {
        self.r.below(1000) < permille as usize
    }

    pub fn new_key(&mut self) -> B {
        if self.pm(self.p.odd_keys) {
            return self.r.pick(&self.keys).clone();
        }
        if self.pm(8) {
            let n = self.r.range(200, 255);
            return self.r.bytes(n);
        }
        self.fresh += 1;
        if self.seq {
            return format!("k{:04}", self.fresh).into_bytes();
        }
        match self.r.below(4) {
            0 => vec![self.r.next() as u8],
            1 => self.r.bytes(2),
            2 => format!("k{}", self.r.below(30)).into_bytes(),
            _ => {
                let n = self.r.range(3, 33);
                self.r.bytes(n)
            }
        }
    }

    fn key_in(&mut self, s: &Sub, exist: usize) -> B {
        if !s.map.is_empty() && self.r.below(100) < exist {
            return s.map.keys().nth(self.r.below(s.map.len())).unwrap().clone();
        }
        if !s.map.is_empty() && self.r.chance(1, 10) {
            let ks: Vec<&B> = s.map.keys().collect();
            let k = query::near_key(&mut self.r, &ks);
            if k.len() <= 255 {
                return k;
            }
        }
        self.new_key()
    }

    pub fn path(&mut self, m: &Model) -> Path {
        if self.pm(self.p.bad / 2) {
            // somewhere that is not a subtree
            let els = m.elements();
            if els.is_empty() || self.r.chance(1, 2) {
                return vec![self.new_key()];
            }
            let mut p;
            loop {
                let (pp, k, _) = &els[self.r.below(els.len())];
                p = pp.clone();
                p.push(k.clone());
                break;
            }
            return p;
        }
        let subs = m.subtrees();
        // prefer deeper ones a little
        let a = self.r.below(subs.len());
        let b = self.r.below(subs.len());
        let i = if subs[a].0.len() > subs[b].0.len() && self.r.chance(1, 2) { a } else { b };
        subs[i].0.clone()
    }

    pub fn value(&mut self) -> B {
        if self.pm(self.p.big) {
            if self.r.chance(1, 25) {
                // where lengths no longer fit two bytes
                let n = *self.r.pick(&[65_530usize, 65_534, 65_535, 65_536, 65_540, 70_000]);
                return vec![self.r.next() as u8; n];
            }
            let n = *self.r.pick(&[126usize, 127, 128, 129, 250, 255, 256, 300, 1000, 5000]);
            return vec![self.r.next() as u8; n];
        }
        let n = self.r.below(40);
        self.r.bytes(n)
    }

    pub fn sum(&mut self) -> i64 {
        if self.pm(self.p.extreme) {
            return *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MAX / 2, i64::MIN / 2, i64::MIN + 1]);
        }
        match self.r.below(4) {
            0 => self.r.below(200) as i64 - 100,
            1 => self.r.below(100_000) as i64,
            2 => -(self.r.below(1_000_000) as i64),
            _ => *self.r.pick(&[0, 1, -1, 63, 64, -64, -65, 127, 128, 8191, 8192]),
        }
    }

    fn fl(&mut self) -> Option<B> {
        if self.pm(self.p.flags) { Some(self.r.pick(&self.flags).clone()) } else { None }
    }

    fn reference(&mut self, m: &Model, path: &[B], key: &[u8]) -> RefP {
        let els = m.elements();
        let target: Path = if els.is_empty() || self.pm(self.p.bad) {
            vec![self.new_key(), self.new_key()]
        } else {
            // prefer references (chains) and items
            let mut best = self.r.below(els.len());
            for _ in 0..3 {
                let c = self.r.below(els.len());
                if matches!(els[c].2.v, Val::Ref(..)) && self.r.chance(1, 2) || els[best].2.v.is_tree() {
                    best = c;
                }
            }
            let (p, k, _) = &els[best];
            let mut q = p.clone();
            q.push(k.clone());
            q
        };
        // express the target in one of the forms
        for _ in 0..6 {
            let c = match self.r.below(7) {
                0 => RefP::Abs(target.clone()),
                1 => {
                    let n = target.iter().zip(path).take_while(|(a, b)| a == b).count().min(target.len() - 1);
                    let n = self.r.range(0, n);
                    RefP::UpRoot(n as u8, target[n..].to_vec())
                }
                2 => {
                    let n = target.iter().zip(path).take_while(|(a, b)| a == b).count().min(target.len() - 1);
                    let n = self.r.range(0, n);
                    RefP::UpRootParent(n as u8, target[n..target.len() - 1].to_vec())
                }
                3 => {
                    let n = target.iter().zip(path).take_while(|(a, b)| a == b).count().min(target.len() - 1);
                    let n = self.r.range(0, n);
                    RefP::UpElem((path.len() - n) as u8, target[n..].to_vec())
                }
                4 if target.len() >= 2 => RefP::Cousin(target[target.len() - 2].clone()),
                5 if target.len() >= path.len() && !path.is_empty() => {
                    RefP::RemovedCousin(target[path.len() - 1..target.len() - 1].to_vec())
                }
                _ => RefP::Sibling(target.last().unwrap().clone()),
            };
            if ref_target(&c, path, key).as_ref() == Some(&target) {
                return c;
            }
        }
        RefP::Abs(target)
    }

    pub fn element(&mut self, m: &Model, path: &[B], key: &[u8]) -> ElF {
        let p = &self.p;
        let depth_left = p.depth.saturating_sub(path.len());
        let kind = m.sub(path).map(|s| s.kind);
        let sums = kind.is_none_or(|k| k.allows_sum()) || self.r.below(1000) < self.p.bad as usize;
        let p = &self.p;
        let w = [
            p.e_item,
            if sums { p.e_sum * 2 } else { 0 },
            if sums { p.e_isum * 2 } else { 0 },
            p.e_ref,
            if depth_left > 0 { p.e_tree } else { 0 },
            p.e_append,
        ];
        let el = match self.r.weighted(&w) {
            1 => El::Sum(self.sum()),
            2 => {
                let b = self.value();
                El::ItemSum(b, self.sum())
            }
            3 => {
                let r = self.reference(m, path, key);
                let h = match self.r.below(6) {
                    0 => Some(self.r.range(0, 12) as u8),
                    _ => None,
                };
                El::Ref(r, h)
            }
            4 => El::Tree(KINDS[self.r.weighted(&self.p.kinds.clone())]),
            5 => match self.r.weighted(&self.p.a_kinds.clone()) {
                0 => El::Mmr,
                1 => El::Bulk(self.r.range(1, 3) as u8),
                2 => El::Dense(self.r.range(1, 4) as u8),
                _ => El::Commit(self.r.range(1, 3) as u8),
            },
            _ => El::Item(self.value()),
        };
        ElF { el, fl: self.fl() }
    }

    fn append_target(&mut self, m: &Model) -> Option<(Path, B, El)> {
        let els = m.elements();
        let v: Vec<_> = els
            .iter()
            .filter_map(|(p, k, e)| match e.v {
                Val::Mmr(_) => Some((p, k, El::Mmr)),
                Val::Bulk(c, _) => Some((p, k, El::Bulk(c))),
                Val::Dense(h, _) => Some((p, k, El::Dense(h))),
                Val::Commit(c, _) => Some((p, k, El::Commit(c))),
                _ => None,
            })
            .collect();
        if v.is_empty() {
            return None;
        }
        let (p, k, e) = self.r.pick(&v).clone();
        Some((p.clone(), k.clone(), e))
    }

    fn append_w(&mut self, path: Path, key: B, e: &El) -> W {
        // now and then the wrong operation
        let e = if self.pm(self.p.bad) { &El::Bulk(0) } else { e };
        match e {
            El::Mmr => W::MmrAppend { path, key, val: self.value() },
            El::Bulk(_) => W::BulkAppend { path, key, val: self.value() },
            El::Dense(_) => W::DenseInsert { path, key, val: self.value() },
            _ => {
                let note = self.note();
                W::CommitInsert { path, key, note }
            }
        }
    }

    pub fn note(&mut self) -> Note {
        let cmx = if self.pm(self.p.bad / 2) { u64::MAX } else { self.r.next() >> 1 };
        Note { cmx, rho: self.r.next() >> 1, payload: self.r.next() >> 1 }
    }

    pub fn write(&mut self, m: &Model) -> W {
        let p = self.p.clone();
        let full = m.size() > p.size;
        let w = [
            if full { p.w_insert / 4 } else { p.w_insert },
            p.w_cond,
            if full { p.w_delete * 3 } else { p.w_delete },
            p.w_delete_up,
            if full { p.w_clear * 3 } else { p.w_clear },
            p.w_append,
            if full { p.w_batch / 3 } else { p.w_batch },
            p.w_nobatch,
            p.w_aux,
        ];
        match self.r.weighted(&w) {
            0 => {
                let path = self.path(m);
                let key = self.target_key(m, &path, 25);
                let el = self.element(m, &path, &key);
                let (a, b) = *self.r.pick(&[(false, true), (false, true), (false, true), (true, true), (true, false), (false, false)]);
                W::Insert { path, key, el, no_override: a, no_override_tree: b }
            }
            1 => {
                let path = self.path(m);
                let key = self.target_key(m, &path, 50);
                let mut el = self.element(m, &path, &key);
                match self.r.below(3) {
                    0 => W::InsertIfNot { path, key, el },
                    1 => W::InsertIfNotRet { path, key, el },
                    _ => {
                        if self.r.chance(1, 2) {
                            // the very same value
                            if let Some(e) = m.get(&path, &key) {
                                let same = match &e.v {
                                    Val::Item(b) => Some(El::Item(b.clone())),
                                    Val::Sum(v) => Some(El::Sum(*v)),
                                    Val::ItemSum(b, v) => Some(El::ItemSum(b.clone(), *v)),
                                    Val::Ref(r, h) => Some(El::Ref(r.clone(), *h)),
                                    _ => None,
                                };
                                if let Some(s) = same {
                                    el = ElF { el: s, fl: e.fl.clone() };
                                }
                            }
                        }
                        W::InsertIfChanged { path, key, el }
                    }
                }
            }
            2 => {
                let path = self.path(m);
                let key = self.target_key(m, &path, 92);
                if self.r.chance(1, 5) {
                    W::DeleteIfEmpty { path, key }
                } else {
                    let (a, e) = *self.r.pick(&[(true, false), (true, true), (false, true), (false, false)]);
                    W::Delete { path, key, allow: a, err: e }
                }
            }
            3 => {
                let path = self.path(m);
                let key = self.target_key(m, &path, 95);
                let stop = match self.r.below(3) {
                    0 => None,
                    1 => Some(0),
                    _ => Some(self.r.below(path.len() + 2) as u16),
                };
                W::DeleteUp { path, key, stop }
            }
            4 => {
                let path = match self.append_target(m) {
                    Some((mut path, key, _)) if self.r.chance(1, 4) => {
                        path.push(key);
                        path
                    }
                    _ => self.path(m),
                };
                W::Clear {
                    path,
                    check: self.r.chance(4, 5),
                    allow: self.r.chance(1, 2),
                    err: self.r.chance(1, 2),
                }
            }
            5 => match self.append_target(m) {
                Some((path, key, e)) => self.append_w(path, key, &e),
                None => {
                    let path = self.path(m);
                    let key = self.target_key(m, &path, 30);
                    if self.r.chance(1, 3) {
                        let e = *self.r.pick(&[0u8, 1, 2, 3]);
                        let e = [El::Mmr, El::Bulk(1), El::Dense(2), El::Commit(1)][e as usize].clone();
                        return self.append_w(path, key, &e);
                    }
                    let el = ElF {
                        el: match self.r.below(4) {
                            0 => El::Mmr,
                            1 => El::Bulk(self.r.range(1, 3) as u8),
                            2 => El::Dense(self.r.range(1, 4) as u8),
                            _ => El::Commit(self.r.range(1, 3) as u8),
                        },
                        fl: self.fl(),
                    };
                    W::Insert { path, key, el, no_override: false, no_override_tree: true }
                }
            },
            6 => W::Batch(self.batch(m)),
            7 => W::NoBatch(self.batch(m)),
            _ => {
                let key = if self.r.chance(1, 2) && !m.aux.is_empty() {
                    m.aux.keys().nth(self.r.below(m.aux.len())).unwrap().clone()
                } else {
                    self.new_key()
                };
                if self.r.chance(2, 3) {
                    W::PutAux { key, val: self.value() }
                } else {
                    W::DelAux { key }
                }
            }
        }
    }

    fn target_key(&mut self, m: &Model, path: &[B], exist: usize) -> B {
        if self.pm(self.p.bad / 20) {
            return vec![5; 256];
        }
        match m.sub(path) {
            Some(s) => self.key_in(s, exist),
            None => self.new_key(),
        }
    }

    /// a batch larger than any ordinary one, in one or two subtrees
    fn blast(&mut self, m: &Model) -> Vec<BOp> {
        let n = *self.r.pick(&[65usize, 129, 140, 257, 300, 520]);
        let (a, b) = (self.path(m), self.path(m));
        let (base, step) = (self.r.below(60_000), self.r.range(1, 9));
        let seq = self.r.chance(1, 2);
        (0..n)
            .map(|i| {
                let x = ((base + i * step) & 0xffff) as u16;
                let key = if seq { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
                let path = if i % 5 == 4 { b.clone() } else { a.clone() };
                let el = ElF { el: El::Item(vec![i as u8, 7]), fl: None };
                BOp { path, key, k: BKind::InsertOrReplace(el) }
            })
            .collect()
    }

    /// a batch that is mostly consistent
    pub fn batch(&mut self, m: &Model) -> Vec<BOp> {
        if self.pm(5) && m.size() < 150 {
            return self.blast(m);
        }
        let n = self.r.range(1, self.p.batch_len.max(1));
        let mut ops: Vec<BOp> = vec![];
        let mut cur = m.clone(); // with the inserts so far, to nest below them
        let mut used: Vec<Path> = vec![];
        let wild = self.pm(self.p.bad * 2);
        for _ in 0..n {
            let choice = self.r.weighted(&[
                if self.p.e_append > 0 { 4 + self.p.w_append } else { 0 },
                if m.size() > self.p.size { 40 } else { 15 },
                if self.p.e_ref > 0 { 4 } else { 0 },
                if self.p.e_append > 0 { 12 } else { 0 },
                5,
            ]);
            match choice {
                0 => {
                    let path = self.path(&cur);
                    let key = self.target_key(&cur, &path, 25);
                    let mut q = path.clone();
                    q.push(key.clone());
                    if used.contains(&q) && !wild {
                        continue;
                    }
                    let e = self.element(&cur, &path, &key);
                    let old = cur.get(&path, &key);
                    if old.is_some_and(|o| o.v.is_tree()) && !wild {
                        continue;
                    }
                    let k = if old.is_some() {
                        match self.r.below(8) {
                            0 => BKind::Replace(e.clone()),
                            1 => BKind::InsertIfNotExistsSkip(e.clone()),
                            2 => BKind::InsertIfNotExists(e.clone()),
                            _ => BKind::InsertOrReplace(e.clone()),
                        }
                    } else {
                        match self.r.below(8) {
                            0 => BKind::InsertIfNotExistsSkip(e.clone()),
                            1 => BKind::InsertIfNotExists(e.clone()),
                            2 => BKind::InsertOnly(e.clone()),
                            3 => BKind::InsertKnownNew(e.clone()),
                            4 => BKind::Replace(e.clone()),
                            _ => BKind::InsertOrReplace(e.clone()),
                        }
                    };
                    if cur.sub(&path).is_some() {
                        let _ = cur.put_ent(&path, &key, &e);
                    }
                    used.push(q);
                    ops.push(BOp { path, key, k });
                }
                1 => {
                    let els = m.elements();
                    if els.is_empty() {
                        continue;
                    }
                    let (path, key, e) = els[self.r.below(els.len())].clone();
                    let mut q = path.clone();
                    q.push(key.clone());
                    if used.iter().any(|u| u.starts_with(&q) || q.starts_with(u)) && !wild {
                        continue;
                    }
                    let k = match crate::batchmodel::tree_el(&e.v) {
                        None => BKind::Delete,
                        Some(t) => {
                            BKind::DeleteTree(*self.r.pick(&[0, 0, 1, 2, 2, 2, 3]), t)
                        }
                    };
                    // sometimes delete its children as well
                    if let (Val::Tree(s), true) = (&e.v, self.r.chance(1, 4)) {
                        for (ck, c) in &s.map {
                            if let None = crate::batchmodel::tree_el(&c.v) {
                                ops.push(BOp { path: q.clone(), key: ck.clone(), k: BKind::Delete });
                            }
                        }
                    }
                    if let Some(s) = cur.sub_mut(&path) {
                        s.map.remove(&key);
                    }
                    used.push(q);
                    ops.push(BOp { path, key, k });
                }
                2 => {
                    let els = m.elements();
                    let v: Vec<_> = els.iter().filter(|e| matches!(e.2.v, Val::Ref(..))).collect();
                    if v.is_empty() {
                        continue;
                    }
                    let (path, key, e) = (*self.r.pick(&v)).clone();
                    let mut q = path.clone();
                    q.push(key.clone());
                    if used.iter().any(|u| u.starts_with(&q) || q.starts_with(u)) && !wild {
                        continue;
                    }
                    let Val::Ref(r0, h0) = &e.v else { continue };
                    let trust = self.r.chance(1, 2);
                    let (r, hop) = if trust && self.r.chance(1, 2) {
                        (self.reference(&cur, &path, &key), None)
                    } else {
                        (r0.clone(), *h0)
                    };
                    used.push(q);
                    let fl = if self.r.chance(1, 2) { e.fl.clone() } else { self.fl() };
                    ops.push(BOp { path, key, k: BKind::RefreshRef { r, hop, fl, trust } });
                }
                3 => {
                    let Some((path, key, e)) = self.append_target(m) else { continue };
                    let mut q = path.clone();
                    q.push(key.clone());
                    if used.iter().any(|u| q.starts_with(u)) && !wild {
                        continue;
                    }
                    let times = self.r.range(1, 3);
                    for _ in 0..times {
                        let k = match e {
                            El::Mmr => BKind::MmrAppend(self.value()),
                            El::Bulk(_) => BKind::BulkAppend(self.value()),
                            El::Dense(_) => BKind::DenseInsert(self.value()),
                            _ => BKind::CommitInsert(self.note()),
                        };
                        ops.push(BOp { path: path.clone(), key: key.clone(), k });
                    }
                }
                _ => {
                    // a whole new branch
                    let path = self.path(&cur);
                    if path.len() + 1 >= self.p.depth || cur.sub(&path).is_none() {
                        continue;
                    }
                    let key = self.new_key();
                    let mut q = path.clone();
                    q.push(key.clone());
                    if used.contains(&q) || cur.get(&path, &key).is_some() {
                        continue;
                    }
                    let kind = KINDS[self.r.weighted(&self.p.kinds.clone())];
                    let e = ElF { el: El::Tree(kind), fl: self.fl() };
                    let _ = cur.put_ent(&path, &key, &e);
                    ops.push(BOp { path, key, k: BKind::InsertOrReplace(e) });
                    used.push(q.clone());
                    for _ in 0..self.r.range(1, 4) {
                        let key = self.new_key();
                        let mut cq = q.clone();
                        cq.push(key.clone());
                        if used.contains(&cq) {
                            continue;
                        }
                        let e = self.element(&cur, &q, &key);
                        let _ = cur.put_ent(&q, &key, &e);
                        used.push(cq);
                        ops.push(BOp { path: q.clone(), key, k: BKind::InsertOrReplace(e) });
                    }
                }
            }
        }
        if ops.is_empty() {
            let path: Path = vec![];
            let key = self.new_key();
            let e = ElF { el: El::Item(self.value()), fl: None };
            let k = if m.get(&path, &key).is_some() { BKind::InsertIfNotExistsSkip(e) } else { BKind::InsertOrReplace(e) };
            ops.push(BOp { path, key, k });
        }
        // the order of a batch is free
        if self.r.chance(1, 2) && !ops.iter().any(|o| o.is_append()) {
            self.r.shuffle(&mut ops);
        }
        // nested subtrees to delete must all be listed or not, free choice
        if wild && self.r.chance(1, 4) {
            let i = self.r.below(ops.len());
            let o = ops[i].clone();
            ops.push(o);
        }
        ops
    }

    pub fn faults(&mut self, s: &Sim, kind: &'static str) -> Vec<(u32, Fault)> {
        let len = s.lens.get(kind).copied().unwrap_or(12).max(1);
        let at = self.r.below(len as usize + 1) as u32;
        let p = &self.p;
        let f = match self.r.weighted(&[p.f_fail, p.f_crash, p.f_power, p.f_run]) {
            0 => self
                .r
                .pick(&[
                    Fault::FailIo,
                    Fault::FailNoSpace,
                    Fault::FailBusy,
                    Fault::FailTryAgain,
                    Fault::FailCorruption,
                ])
                .clone(),
            1 => self.r.pick(&[Fault::CrashBefore, Fault::CrashAfter]).clone(),
            2 => {
                let k = *self.r.pick(&[0u16, 0, 300, 500, 700, 1000]);
                if self.r.chance(1, 2) { Fault::PowerBefore(k) } else { Fault::PowerAfter(k) }
            }
            _ => Fault::Run(self.inner(s)),
        };
        vec![(at, f)]
    }

    /// work of other actors inside a call
    fn inner(&mut self, s: &Sim) -> Vec<Step> {
        let mut v = vec![];
        for _ in 0..self.r.range(1, 3) {
            let op = match self.r.below(6) {
                0 => Op::Check { tx: None },
                1 => {
                    let mut q = query::gen_q(&mut self.r, &s.m);
                    q.q.add_parent = false;
                    Op::Query { tx: None, q }
                }
                2 => Op::W { tx: None, w: self.write(&s.m) },
                3 => {
                    let i = self.r.below(self.p.tx_slots.max(1));
                    Op::Commit(i)
                }
                _ => {
                    let i = self.r.below(self.p.tx_slots.max(1));
                    let w = match &s.txs[i] {
                        Some(t) => self.write(&t.m),
                        None => self.write(&s.m),
                    };
                    Op::W { tx: Some(i), w }
                }
            };
            v.push(Step { op, faults: vec![] });
        }
        v
    }

    pub fn next(&mut self, s: &Sim) -> Option<Step> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let p = self.p.clone();
        let open: Vec<usize> = (0..s.txs.len()).filter(|i| s.txs[*i].is_some()).collect();
        let any = !open.is_empty();
        let w = [
            p.direct,
            if any { p.in_tx } else { 0 },
            if open.len() < p.tx_slots { p.begin + if any { 0 } else { p.in_tx / 3 } } else { 0 },
            if any { p.commit } else { 0 },
            if any { p.rollback } else { 0 },
            if any { p.drop_tx } else { 0 },
            p.reopen,
            p.flush,
            p.bg,
            p.crash,
            p.power,
            p.check,
            p.query,
            p.prove,
            p.tamper,
            p.chunks,
            p.sync,
            p.cp,
            p.corrupt,
            p.sweep,
            p.race,
            p.replica,
        ];
        let mut faults = vec![];
        let op = match self.r.weighted(&w) {
            0 => {
                let w = self.write(&s.m);
                if self.pm(p.fault) {
                    faults = self.faults(s, w_kind(&w));
                }
                Op::W { tx: None, w }
            }
            1 => {
                let i = *self.r.pick(&open);
                let m = s.txs[i].as_ref().unwrap().m.clone();
                let w = self.write(&m);
                if self.pm(p.fault) {
                    faults = self.faults(s, w_kind(&w));
                }
                Op::W { tx: Some(i), w }
            }
            2 => Op::Begin((0..p.tx_slots).find(|i| s.txs[*i].is_none()).unwrap_or(0)),
            3 => {
                if self.pm(p.fault * 2) {
                    faults = self.faults(s, "commit");
                }
                Op::Commit(*self.r.pick(&open))
            }
            4 => Op::Rollback(*self.r.pick(&open)),
            5 => Op::DropTx(*self.r.pick(&open)),
            6 => Op::Reopen,
            7 => Op::Flush,
            8 => Op::BgFlush,
            9 => Op::CrashProcess,
            10 => Op::CrashPower(*self.r.pick(&[0u16, 300, 500, 800, 1000])),
            11 => {
                let tx = if any && self.r.chance(1, 2) { Some(*self.r.pick(&open)) } else { None };
                if self.pm(p.rfault) {
                    let f = self.r.pick(&[Fault::FailIo, Fault::FailCorruption, Fault::FailTryAgain]).clone();
                    let n = s.lens.get("read").copied().unwrap_or(50).max(1) as usize;
                    faults = vec![(self.r.below(n) as u32, f)];
                }
                Op::Check { tx }
            }
            12 => {
                let tx = if any && self.r.chance(1, 4) { Some(*self.r.pick(&open)) } else { None };
                let m = match tx {
                    Some(i) => s.txs[i].as_ref().unwrap().m.clone(),
                    None => s.m.clone(),
                };
                if self.pm(p.rfault) {
                    let f = self.r.pick(&[Fault::FailIo, Fault::FailCorruption, Fault::FailTryAgain]).clone();
                    faults = vec![(self.r.below(40) as u32, f)];
                }
                if self.r.chance(1, 6) {
                    let n = self.r.range(2, 3);
                    let mut qs: Vec<query::Q> = (0..n).map(|_| query::gen_q(&mut self.r, &m)).collect();
                    for q in &mut qs {
                        (q.limit, q.offset) = (None, None);
                        q.q.forward();
                    }
                    Op::Merged { tx, qs }
                } else {
                    Op::Query { tx, q: query::gen_q(&mut self.r, &m) }
                }
            }
            13 => {
                if self.pm(p.rfault) {
                    let f = self.r.pick(&[Fault::FailIo, Fault::FailCorruption, Fault::FailTryAgain]).clone();
                    faults = vec![(self.r.below(60) as u32, f)];
                }
                Op::Prove { q: crate::prove::gen_pq(&mut self.r, &s.m), v: self.r.next() as u8 }
            }
            14 => Op::TamperProof {
                q: crate::prove::gen_pq(&mut self.r, &s.m),
                edits: (0..self.r.range(4, 16)).map(|_| crate::tamper::Edit { k: self.r.next() >> 1 }).collect(),
            },
            18 => Op::Corrupt(crate::corrupt::gen_corruption(self, s)),
            20 => {
                let (r, f) = crate::race::gen_race(self, s);
                faults = f;
                Op::Race { r }
            }
            21 => Op::Replicas(crate::replica::gen_replicas(self, s)),
            15 => {
                if self.pm(p.rfault) {
                    let f = self.r.pick(&[Fault::FailIo, Fault::FailCorruption, Fault::FailTryAgain]).clone();
                    faults = vec![(self.r.below(90) as u32, f)];
                }
                if self.r.chance(1, 8) {
                    if let Some(w) = crate::chunks::grow(self, s) {
                        faults.clear();
                        return Some(Step { op: Op::W { tx: None, w }, faults });
                    }
                }
                Op::Chunks(crate::chunks::gen_plan(self, s))
            }
            16 => {
                let evil = self.p.evil;
                Op::Sync(crate::sync::gen_plan(self, s, evil))
            }
            17 => {
                let i = self.r.below(crate::cp::SLOTS);
                let full: Vec<usize> = (0..crate::cp::SLOTS).filter(|i| s.cps[*i].is_some()).collect();
                let (op, f) = match self.r.below(12) {
                    0..=3 => (Op::Checkpoint(i), 1),
                    4 | 5 if !full.is_empty() => (Op::OpenCheckpoint(*self.r.pick(&full)), 2),
                    6..=8 if !full.is_empty() => {
                        let cp = *self.r.pick(&full);
                        let w = self.write(&s.cps[cp].as_ref().unwrap().m);
                        if self.pm(p.fault) {
                            faults = self.faults(s, w_kind(&w));
                        }
                        (Op::WCheckpoint { cp, w }, 0)
                    }
                    9 if !full.is_empty() => {
                        let cp = *self.r.pick(&full);
                        (Op::SyncCheckpoint { cp, p: crate::sync::gen_plan(self, s, false) }, 0)
                    }
                    10 => (Op::OpenCheckpoint(i), 2),
                    _ => (Op::DeleteCheckpoint(self.r.below(crate::cp::SLOTS + 1)), 2),
                };
                if f > 0 && self.pm(p.fault * 2) {
                    let x = match self.r.below(3) {
                        0 => Fault::FailIo,
                        1 => if self.r.chance(1, 2) { Fault::CrashBefore } else { Fault::CrashAfter },
                        _ => {
                            let k = *self.r.pick(&[0u16, 500, 1000]);
                            if self.r.chance(1, 2) { Fault::PowerBefore(k) } else { Fault::PowerAfter(k) }
                        }
                    };
                    faults = vec![(0, x)];
                }
                op
            }
            19 => Op::Sweep {
                w: self.write(&s.m),
                mode: self.r.weighted(&[p.f_fail, p.f_crash, p.f_power]) as u8,
                salt: self.r.next() >> 1,
                tx: self.r.chance(1, 3),
            },
            _ => Op::Check { tx: None },
        };
        Some(Step { op, faults })
    }
}
