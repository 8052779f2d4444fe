//! Helpers for append-only payloads.
use crate::{ops::*, rng::mix};

pub fn derive(seed: u64, tag: u64, n: usize) -> B {
    let mut x = mix(seed ^ tag.wrapping_mul(0x1234_5678_9ABC_DEF1));
    (0..n)
        .map(|_| {
            x = mix(x);
            (x >> 32) as u8
        })
        .collect()
}

/// length of a note's ciphertext: epk 32 + enc 104 + out 80
pub const CT_LEN: usize = 32 + 104 + 80;

pub fn note_cmx(n: &Note) -> [u8; 32] {
    let mut c: [u8; 32] = derive(n.cmx, 1, 32).try_into().unwrap();
    if n.cmx == u64::MAX {
        return [0xff; 32]; // not a canonical field element
    }
    c[31] &= 0x3f;
    c
}

pub fn note_rho(n: &Note) -> [u8; 32] {
    derive(n.rho, 2, 32).try_into().unwrap()
}

pub fn note_ct(n: &Note) -> B {
    derive(n.payload, 3, CT_LEN)
}

pub fn note_valid(n: &Note) -> bool {
    n.cmx != u64::MAX
}

pub fn note_bytes(n: &Note) -> B {
    let mut v = note_cmx(n).to_vec();
    v.extend(note_rho(n));
    v.extend(note_ct(n));
    v
}
