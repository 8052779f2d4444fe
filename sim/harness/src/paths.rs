//! The forms in which a path can be handed to the code: a slice, owned
//! segments, children and parents of other paths, and mixes of them. All must
//! mean the same, so calls get theirs in forms that change from call to call.
use std::cell::{Cell, RefCell};

use grovedb_path::{SubtreePath, SubtreePathBuilder};

use crate::{ops::B, rng::*};

type Pb = SubtreePathBuilder<'static, B>;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static CALL: Cell<u64> = const { Cell::new(0) };
    /// lives as long as the run's thread
    static KEEP: RefCell<(Vec<Box<Pb>>, Vec<Box<[B]>>)> = const { RefCell::new((vec![], vec![])) };
}

/// vary the forms from now on, in this thread; 0: slices only
pub fn start(seed: u64) {
    SEED.set(seed);
    CALL.set(0);
}

fn keep(b: Pb) -> &'static Pb {
    let b = Box::new(b);
    // SAFETY: boxes are never moved out or dropped before the thread ends, and
    // no path leaves the thread of its run
    let p: &'static Pb = unsafe { &*(&*b as *const Pb) };
    KEEP.with(|k| k.borrow_mut().0.push(b));
    p
}

pub fn slice(p: &[B]) -> &'static [B] {
    let b: Box<[B]> = p.into();
    // SAFETY: as above
    let s: &'static [B] = unsafe { &*(&*b as *const [B]) };
    KEEP.with(|k| k.borrow_mut().1.push(b));
    s
}

/// the path in some form
pub fn form(r: &mut Rng, p: &[B], depth: usize) -> SubtreePath<'static, B> {
    if depth == 0 {
        return SubtreePath::from(slice(p));
    }
    match r.below(8) {
        0 => SubtreePath::from(slice(p)),
        // the parent of a longer one
        1 => {
            let mut q = p.to_vec();
            let n = r.below(4);
            q.push(r.bytes(n));
            let (up, _) = form(r, &q, depth - 1).derive_parent().expect("it has a last key");
            up
        }
        2 => {
            let mut q = p.to_vec();
            let n = r.below(4);
            q.push(r.bytes(n));
            let (up, _) = keep(builder(r, &q, depth - 1)).derive_parent().expect("it has a last key");
            up
        }
        _ => SubtreePath::from(keep(builder(r, p, depth - 1))),
    }
}

/// the path in some form that owns part of it
pub fn builder(r: &mut Rng, p: &[B], depth: usize) -> Pb {
    let n = p.len();
    match r.below(8) {
        0 => SubtreePathBuilder::owned_from_iter(p),
        1 => SubtreePathBuilder::owned_from_path(form(r, p, depth.saturating_sub(1))),
        2 if n > 0 => {
            let b = form(r, &p[..n - 1], depth.saturating_sub(1));
            if r.chance(1, 2) {
                b.derive_owned_with_child(p[n - 1].clone())
            } else {
                b.derive_owned_with_child(slice(p)[n - 1].as_slice())
            }
        }
        3 if n > 0 => keep(builder(r, &p[..n - 1], depth.saturating_sub(1))).derive_owned_with_child(p[n - 1].clone()),
        4 => keep(builder(r, p, depth.saturating_sub(1))).derive_owned(),
        5 => {
            let mut q = p.to_vec();
            let n = r.below(4);
            q.push(r.bytes(n));
            let (up, _) = builder(r, &q, depth.saturating_sub(1)).derive_parent_owned().expect("it has a last key");
            up
        }
        _ => {
            // the first keys in some form, the others pushed one by one
            let k = r.below(n + 1);
            let base = form(r, &p[..k], depth.saturating_sub(1));
            let mut b = if k < n && r.chance(1, 2) {
                let mut b = base.derive_owned_with_child(p[k].clone());
                p[k + 1..].iter().for_each(|s| b.push_segment(s));
                b
            } else {
                let mut b = base.derive_owned();
                p[k..].iter().for_each(|s| b.push_segment(s));
                b
            };
            if r.chance(1, 4) {
                b = b.clone();
            }
            b
        }
    }
}

/// for a call: every second time a slice
pub fn sp(p: &[B]) -> SubtreePath<'_, B> {
    let s = SEED.get();
    let n = CALL.get();
    CALL.set(n + 1);
    if s == 0 || n % 2 == 0 {
        return SubtreePath::from(p);
    }
    form(&mut Rng::new(mix(s ^ n)), p, 3)
}
