//! Independent recomputation of the roots of append-only trees, straight from
//! the documented hash formulas over the plain sequence of values.
use crate::{ops::*, structure::{H, NULL, h}};

/// the mountain range root: peaks bagged right to left
pub fn mmr(leaves: &[B]) -> H {
    let n = leaves.len();
    if n == 0 {
        return NULL;
    }
    let mut peaks = vec![];
    let mut at = 0;
    for bit in (0..usize::BITS).rev() {
        let size = 1usize << bit;
        if n & size != 0 {
            peaks.push(perfect(&leaves[at..at + size]));
            at += size;
        }
    }
    let mut acc = peaks.pop().unwrap();
    while let Some(left) = peaks.pop() {
        acc = h(&[&[1], &acc, &left]);
    }
    acc
}

fn perfect(l: &[B]) -> H {
    if l.len() == 1 {
        return h(&[&[0], &l[0]]);
    }
    let (a, b) = l.split_at(l.len() / 2);
    h(&[&[1], &perfect(a), &perfect(b)])
}

/// dense tree root over the values in level order
pub fn dense(v: &[B], height: u8) -> H {
    fn rec(v: &[B], cap: usize, i: usize) -> H {
        if i >= v.len() || i >= cap {
            return NULL;
        }
        h(&[&h(&[&v[i]]), &rec(v, cap, 2 * i + 1), &rec(v, cap, 2 * i + 2)])
    }
    rec(v, (1usize << height) - 1, 0)
}

pub fn blob(v: &[B]) -> B {
    let mut out;
    if v.is_empty() {
        return vec![];
    }
    if v.iter().all(|x| x.len() == v[0].len()) {
        out = vec![1];
        out.extend((v.len() as u32).to_be_bytes());
        out.extend((v[0].len() as u32).to_be_bytes());
        for x in v {
            out.extend(x);
        }
    } else {
        out = vec![0];
        for x in v {
            out.extend((x.len() as u32).to_be_bytes());
            out.extend(x);
        }
    }
    out
}

/// chunks of 2^power values in a mountain range, the rest in a dense tree
pub fn bulk(v: &[B], power: u8) -> H {
    let n = 1usize << power;
    let full = v.len() / n;
    let chunks: Vec<B> = (0..full).map(|i| blob(&v[i * n..(i + 1) * n])).collect();
    h(&[b"bulk_state", &mmr(&chunks), &dense(&v[full * n..], power)])
}

/// root of the depth-32 commitment tree (under the stand-in hash)
pub fn anchor(cmx: &[H]) -> H {
    if cmx.is_empty() {
        return grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT;
    }
    let comb = |lvl: u8, a: &H, b: &H| -> H {
        let mut o = h(&[b"sim-sinsemilla", &[lvl], a, b]);
        o[31] &= 0x3f;
        o
    };
    let mut empty = NULL;
    empty[0] = 2;
    let mut row = cmx.to_vec();
    for lvl in 0..32u8 {
        let mut next = vec![];
        for p in row.chunks(2) {
            next.push(comb(lvl, &p[0], p.get(1).unwrap_or(&empty)));
        }
        empty = comb(lvl, &empty, &empty);
        row = next;
    }
    row[0]
}

pub fn anchor_of(v: &[Note]) -> H {
    anchor(&v.iter().map(crate::component::note_cmx).collect::<Vec<_>>())
}

pub fn commit(v: &[Note], power: u8) -> H {
    if v.is_empty() {
        return grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT;
    }
    let vals: Vec<B> = v.iter().map(crate::component::note_bytes).collect();
    h(&[b"ct_state", &anchor_of(v), &bulk(&vals, power)])
}
