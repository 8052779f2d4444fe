//! Damaged copies of the disk: what they answer, what is noticed.
use grovedb::{Element, GroveDb};
use serde::{Deserialize, Serialize};

use crate::{check::*, gen_::Gen, model::*, node::*, ops::*, prove, query, rng::Rng, sim::*, structure};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dmg {
    /// a byte of the element as it is stored
    Value { path: Path, key: B, byte: u32, mask: u8 },
    /// of its stored value hash
    Hash { path: Path, key: B, byte: u32, mask: u8 },
    /// any byte of its row
    Row { path: Path, key: B, byte: u32, mask: u8 },
    /// the element's bytes become those of another element
    Take { path: Path, key: B, from: (Path, B) },
    /// the row ends early
    Cut { path: Path, key: B, len: u32 },
    Lost { path: Path, key: B },
    /// a byte of any row of a column family
    Any { cf: String, nth: u32, byte: u32, mask: u8 },
    LostAny { cf: String, nth: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Corruption {
    pub dmg: Vec<Dmg>,
    pub pqs: Vec<query::Q>,
    pub qs: Vec<query::Q>,
}

fn row_of(dump: &[(String, B, B)], path: &[B], key: &[u8]) -> Option<(B, B)> {
    let mut k = structure::prefix(path).to_vec();
    k.extend_from_slice(key);
    dump.iter().find(|r| r.0 == "default" && r.1 == k).map(|r| (r.1.clone(), r.2.clone()))
}

/// where the element's bytes begin
fn value_at(row: &[u8]) -> Option<usize> {
    structure::parse_node(row).map(|n| row.len() - n.value.len())
}

fn flip(row: &mut [u8], at: usize, mask: u8) {
    row[at] ^= mask.max(1);
}

/// was anything changed
fn damage(s: &Sim, dir: &str, d: &[Dmg]) -> bool {
    let w = &s.world;
    let mut any = false;
    for d in d {
        let dump = w.dump(dir);
        match d {
            Dmg::Value { path, key, byte, mask } | Dmg::Hash { path, key, byte, mask } | Dmg::Row { path, key, byte, mask } => {
                let Some((k, mut row)) = row_of(&dump, path, key) else { continue };
                let Some(v) = value_at(&row) else { continue };
                let (from, to) = match d {
                    Dmg::Value { .. } => (v, row.len()),
                    Dmg::Hash { .. } => (v - 32, v),
                    _ => (0, row.len()),
                };
                if from >= to {
                    continue;
                }
                let at = from + *byte as usize % (to - from);
                flip(&mut row, at, *mask);
                w.put_raw(dir, "default", k, Some(row));
                any = true;
            }
            Dmg::Take { path, key, from } => {
                let (Some((k, row)), Some((_, other))) = (row_of(&dump, path, key), row_of(&dump, &from.0, &from.1)) else { continue };
                let (Some(v), Some(o)) = (value_at(&row), value_at(&other)) else { continue };
                let mut new = row[..v].to_vec();
                new.extend_from_slice(&other[o..]);
                if new != row {
                    w.put_raw(dir, "default", k, Some(new));
                    any = true;
                }
            }
            Dmg::Cut { path, key, len } => {
                let Some((k, row)) = row_of(&dump, path, key) else { continue };
                let n = *len as usize % row.len().max(1);
                w.put_raw(dir, "default", k, Some(row[..n].to_vec()));
                any = true;
            }
            Dmg::Lost { path, key } => {
                let Some((k, _)) = row_of(&dump, path, key) else { continue };
                w.put_raw(dir, "default", k, None);
                any = true;
            }
            Dmg::Any { cf, nth, byte, mask } => {
                let rows: Vec<_> = dump.iter().filter(|r| &r.0 == cf && !r.2.is_empty()).collect();
                if rows.is_empty() {
                    continue;
                }
                let r = rows[*nth as usize % rows.len()];
                let mut row = r.2.clone();
                let at = *byte as usize % row.len();
                flip(&mut row, at, *mask);
                w.put_raw(dir, cf, r.1.clone(), Some(row));
                any = true;
            }
            Dmg::LostAny { cf, nth } => {
                let rows: Vec<_> = dump.iter().filter(|r| &r.0 == cf).collect();
                if rows.is_empty() {
                    continue;
                }
                w.put_raw(dir, cf, rows[*nth as usize % rows.len()].1.clone(), None);
                any = true;
            }
        }
    }
    any
}

/// elements that are stored with other bytes or another value hash than
/// before; nothing when it is not sure that they can be found
fn altered(s: &Sim, dir: &str, broken: bool) -> Vec<(Path, B)> {
    let (old, new) = (s.world.dump(&s.node.dir), s.world.dump(dir));
    let mut hit = vec![];
    if old.len() != new.len() {
        return hit;
    }
    for (p, k, _) in s.m.elements() {
        let (Some((_, a)), Some((_, b))) = (row_of(&old, &p, &k), row_of(&new, &p, &k)) else { continue };
        if a == b {
            continue;
        }
        let Some(a) = structure::parse_node(&a) else { continue };
        match structure::parse_node(&b) {
            None => {}
            Some(n) if n.value != a.value || n.value_hash != a.value_hash => {
                // references may not be looked at
                if broken && [&a, &n].iter().any(|n| matches!(Element::deserialize(&n.value, gv()), Ok(e) if e.is_reference())) {
                    return vec![];
                }
                hit.push((p, k));
            }
            _ => {}
        }
    }
    hit
}

/// do the rows' links lead back to where they came from
fn cyclic(dump: &[(String, B, B)]) -> bool {
    let im = structure::image(dump);
    im.data.values().any(|rows| {
        let kids = |k: &B| -> Vec<B> {
            let n = rows.get(k).and_then(|r| structure::parse_node(r));
            n.map(|n| [n.left, n.right].into_iter().flatten().map(|l| l.key).collect()).unwrap_or_default()
        };
        rows.keys().any(|k| {
            let (mut seen, mut todo) = (std::collections::BTreeSet::new(), kids(k));
            while let Some(x) = todo.pop() {
                if &x == k {
                    return true;
                }
                if seen.insert(x.clone()) {
                    todo.extend(kids(&x));
                }
            }
            false
        })
    })
}

pub fn run(s: &mut Sim, c: &Corruption) -> V {
    if s.nested() || s.m.root.map.is_empty() {
        return Ok(());
    }
    let root = match s.node.db().root_hash(None, gv()).value {
        Ok(h) => h,
        Err(e) => return viol("read-error", format!("root hash: {e}")),
    };
    s.forks += 1;
    let dir = format!("{}-d{}", s.node.dir, s.forks);
    s.world.copy(&s.node.dir, &dir);
    let els = s.m.elements();
    let broken = els.iter().any(|(p, k, e)| matches!(&e.v, Val::Ref(r, _) if s.m.follow(r, p, k).is_err()));
    let any = damage(s, &dir, &c.dmg);
    let hit = altered(s, &dir, broken);
    let mut res = Ok(());
    if any {
        for d in &c.dmg {
            let n = match d {
                Dmg::Value { .. } => "element byte",
                Dmg::Hash { .. } => "value hash byte",
                Dmg::Row { .. } => "row byte",
                Dmg::Take { .. } => "element swapped in",
                Dmg::Cut { .. } => "row cut",
                Dmg::Lost { .. } => "row lost",
                Dmg::Any { .. } => "stored byte",
                Dmg::LostAny { .. } => "stored row lost",
            };
            *s.st.faults.entry(format!("damage: {n}")).or_default() += 1;
        }
        // every byte of the damaged disk is read on a budget: no endless walks
        s.drv.begin(&[]);
        s.drv.with(|d| d.budget = 400_000);
        let mut node = Node::new(s.world.clone(), &dir, SLOTS);
        res = match guard(|| judge(s, &mut node, c, &hit, broken, root)) {
            Caught::Panicked(p)
                if (p.contains(DEEP) || p.contains(ENDLESS)) && !s.allow.contains("damage-cycle") && cyclic(&s.world.dump(&dir)) =>
            {
                s.st.ev("links damaged into a circle (known finding)");
                Ok(())
            }
            Caught::Panicked(p) => viol("damage-panic", format!("{p}; {}", crate::plan::brief(&serde_json::to_string(&c.dmg).unwrap_or_default()))),
            Caught::Crashed => Ok(()),
            Caught::Done(r) => r,
        };
        s.drv.end();
        let _ = guard(move || drop(node));
    }
    s.world.remove(&dir);
    res
}

fn judge(s: &mut Sim, node: &mut Node, c: &Corruption, hit: &[(Path, B)], broken: bool, root: [u8; 32]) -> V {
    if node.open().is_err() {
        s.st.ev("damaged databases that don't open");
        return Ok(());
    }
    let v = gv();
    let what = || crate::plan::brief(&serde_json::to_string(&c.dmg).unwrap_or_default());
    let db = node.db();
    let m = &s.m;
    let els = m.elements();

    // 1. the integrity check
    let seen = db.verify_grovedb(None, !broken, false, v);
    let mut told = false;
    match &seen {
        Err(_) => told = true,
        Ok(issues) => {
            for (p, k) in hit {
                let mut q = p.clone();
                q.push(k.clone());
                // or a tree above it, when it is not reached
                if !issues.keys().any(|i| q.starts_with(i)) {
                    return viol("damage-missed", format!("the integrity check does not report {} {}; {}", pp(p), hx(k), what()));
                }
                told = true;
            }
        }
    }
    if !hit.is_empty() && told {
        s.st.ev("probe.damaged elements reported");
    }

    // 2. plain reads
    for (p, k, e) in &els {
        let Ok(Some(got)) = db.get_raw_optional(sp(p), k, None, v).value else { continue };
        if same_element(e, &got).is_ok() {
            continue;
        }
        // only what is stored there now
        let dump = s.world.dump(&node.dir);
        let now = row_of(&dump, p, k).and_then(|(_, row)| {
            let n = structure::parse_node(&row)?;
            Element::deserialize(&n.value, v).ok()
        });
        if now.as_ref() != Some(&got) {
            return viol("damage-read", format!("get_raw {} {} returned {got}, which is not stored there; {}", pp(p), hx(k), what()));
        }
        s.st.ev("damaged elements read back");
    }
    let _ = db.root_hash(None, v).value;
    let mut r = s.r.fork();
    let _ = view(db, None, m, &mut r, Opt { samples: 2, verify: false });
    for q in &c.qs {
        let _ = query::check_query(db, m, None, q);
    }
    for (p, k, e) in &els {
        let _ = db.get(crate::paths::sp(p), k, None, v).value;
        let _ = db.has_raw(crate::paths::sp(p), k, None, v).value;
        let mut t = p.clone();
        t.push(k.clone());
        if e.v.is_tree() {
            let _ = db.is_empty_tree(crate::paths::sp(&t), None, v).value;
        }
    }

    // 3. proofs
    for q in &c.pqs {
        let Ok(proof) = db.prove_query(&q.to(), None, v).value else { continue };
        let Ok((h, _)) = GroveDb::verify_query_raw(&proof, &q.to(), v) else { continue };
        if h != root {
            continue;
        }
        s.st.ev("probe.proofs of damaged databases that fit");
        if let Some(Err(e)) = prove::carried(&proof, m, q, 0, root) {
            return viol("damage-proof", format!("a proof made from damaged data fits the true root: {e}; query {}; {}", query::show_q(q), what()));
        }
    }
    Ok(())
}

fn mask(r: &mut Rng) -> u8 {
    if r.chance(2, 3) { 1 << r.below(8) } else { (r.next() as u8).max(1) }
}

pub fn gen_corruption(g: &mut Gen, s: &Sim) -> Corruption {
    let els = s.m.elements();
    let n = if g.r.chance(3, 4) { 1 } else { g.r.range(2, 3) };
    let mut dmg = vec![];
    if els.is_empty() {
        return Corruption { dmg, pqs: vec![], qs: vec![] };
    }
    let mut places = vec![];
    for _ in 0..n {
        let (path, key, _) = els[g.r.below(els.len())].clone();
        places.push((path.clone(), key.clone()));
        let byte = g.r.next() as u32;
        let mask = mask(&mut g.r);
        dmg.push(match g.r.below(16) {
            0..=4 => Dmg::Value { path, key, byte, mask },
            5 => Dmg::Hash { path, key, byte, mask },
            6..=8 => Dmg::Row { path, key, byte, mask },
            9 => {
                let (p, k, _) = els[g.r.below(els.len())].clone();
                Dmg::Take { path, key, from: (p, k) }
            }
            10 => Dmg::Cut { path, key, len: byte },
            11 => Dmg::Lost { path, key },
            12..=14 => {
                let cf = if g.r.chance(1, 4) { *g.r.pick(&["aux", "roots", "meta"]) } else { "default" };
                Dmg::Any { cf: cf.into(), nth: g.r.next() as u32, byte, mask }
            }
            _ => Dmg::LostAny { cf: if g.r.chance(1, 4) { "roots".into() } else { "default".into() }, nth: byte },
        });
    }
    let pqs = (0..g.r.range(2, 5))
        .map(|_| {
            let mut q = prove::gen_pq(&mut g.r, &s.m);
            // often about what is damaged
            if g.r.chance(1, 2) {
                let (p, k) = g.r.pick(&places).clone();
                q = query::Q { path: p, q: query::QQ::keys(vec![query::QI::Key(k)]), limit: None, offset: None };
            }
            q
        })
        .collect();
    let qs = (0..g.r.below(3)).map(|_| query::gen_q(&mut g.r, &s.m)).collect();
    Corruption { dmg, pqs, qs }
}
