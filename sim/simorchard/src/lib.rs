//! Stand-in for `orchard` (git dependency, unavailable offline).
//!
//! What GroveDB's own code depends on is real in behaviour: a 32-byte node
//! hash with a canonical-encoding check, a level-separated `combine`, the
//! frontier's `Hashable` contract, and the fixed-size note ciphertext
//! container.  The Sinsemilla hash itself is replaced by BLAKE3 (a stub hash
//! that is collision resistant); the zk types are empty shells that only make
//! the re-exports compile.

use incrementalmerkletree::{Hashable, Level};

pub const NOTE_COMMITMENT_TREE_DEPTH: usize = 32;

macro_rules! shells {
    ($($n:ident),* $(,)?) => { $(#[derive(Debug, Clone)] pub struct $n;)* };
}

pub mod tree {
    use super::*;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct MerkleHashOrchard([u8; 32]);

    impl std::fmt::Debug for MerkleHashOrchard {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "MerkleHashOrchard(")?;
            for b in self.0 {
                write!(f, "{b:02x}")?;
            }
            write!(f, ")")
        }
    }

    /// Pallas base field modulus, little endian.
    const P: [u8; 32] = [
        0x01, 0x00, 0x00, 0x00, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46,
        0x22, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x40,
    ];

    fn canonical(b: &[u8; 32]) -> bool {
        for i in (0..32).rev() {
            if b[i] != P[i] {
                return b[i] < P[i];
            }
        }
        false
    }

    /// Root of the empty depth-32 tree under real Sinsemilla; GroveDB embeds
    /// it as a constant, so the stand-in reports the same value.
    const EMPTY_ROOT_32: [u8; 32] = [
        0xae, 0x29, 0x35, 0xf1, 0xdf, 0xd8, 0xa2, 0x4a, 0xed, 0x7c, 0x70, 0xdf, 0x7d, 0xe3, 0xa6,
        0x68, 0xeb, 0x7a, 0x49, 0xb1, 0x31, 0x98, 0x80, 0xdd, 0xe2, 0xbb, 0xd9, 0x03, 0x1a, 0xe5,
        0xd8, 0x2f,
    ];

    impl MerkleHashOrchard {
        pub fn from_bytes(bytes: &[u8; 32]) -> Option<Self> {
            canonical(bytes).then_some(MerkleHashOrchard(*bytes))
        }

        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
    }

    impl Hashable for MerkleHashOrchard {
        fn empty_leaf() -> Self {
            let mut b = [0u8; 32];
            b[0] = 2;
            MerkleHashOrchard(b)
        }

        fn combine(level: Level, a: &Self, b: &Self) -> Self {
            let mut h = blake3::Hasher::new();
            h.update(b"sim-sinsemilla");
            h.update(&[u8::from(level)]);
            h.update(&a.0);
            h.update(&b.0);
            let mut out = *h.finalize().as_bytes();
            out[31] &= 0x3f;
            MerkleHashOrchard(out)
        }

        fn empty_root(level: Level) -> Self {
            if u8::from(level) as usize == NOTE_COMMITMENT_TREE_DEPTH {
                return MerkleHashOrchard(EMPTY_ROOT_32);
            }
            Level::from(0)
                .iter_to(level)
                .fold(Self::empty_leaf(), |v, lvl| Self::combine(lvl, &v, &v))
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Anchor([u8; 32]);

    impl Anchor {
        pub fn empty_tree() -> Self {
            Anchor(EMPTY_ROOT_32)
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: [u8; 32]) -> Option<Self> {
            canonical(&b).then_some(Anchor(b))
        }
    }

    impl From<MerkleHashOrchard> for Anchor {
        fn from(h: MerkleHashOrchard) -> Self {
            Anchor(h.0)
        }
    }

    #[derive(Clone, Debug)]
    pub struct MerklePath {
        position: u32,
        auth_path: Vec<MerkleHashOrchard>,
    }

    impl From<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>> for MerklePath {
        fn from(p: incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>) -> Self {
            MerklePath {
                position: u64::from(p.position()) as u32,
                auth_path: p.path_elems().to_vec(),
            }
        }
    }

    impl MerklePath {
        pub fn position(&self) -> u32 {
            self.position
        }
        pub fn auth_path(&self) -> &[MerkleHashOrchard] {
            &self.auth_path
        }
        pub fn root(&self, cmx: super::note::ExtractedNoteCommitment) -> Anchor {
            let mut node = MerkleHashOrchard(cmx.0);
            for (i, sib) in self.auth_path.iter().enumerate() {
                let lvl = Level::from(i as u8);
                node = if (self.position >> i) & 1 == 0 {
                    MerkleHashOrchard::combine(lvl, &node, sib)
                } else {
                    MerkleHashOrchard::combine(lvl, sib, &node)
                };
            }
            Anchor(node.0)
        }
    }
}

pub use tree::Anchor;

pub mod memo {
    use super::zcash_note_encryption::note_bytes::{NoteBytes, NoteBytesData};

    pub const COMPACT_NOTE_SIZE: usize = 52;

    pub trait MemoSize: std::fmt::Debug + Clone {
        type NoteCiphertextBytes: NoteBytes;
    }

    #[derive(Debug, Clone, Copy)]
    pub struct DashMemo;

    impl MemoSize for DashMemo {
        // 52 compact + 36 memo + 16 tag
        type NoteCiphertextBytes = NoteBytesData<104>;
    }
}

pub mod zcash_note_encryption {
    pub mod note_bytes {
        pub trait NoteBytes: AsRef<[u8]> + AsMut<[u8]> + Clone + Copy {
            fn from_slice(bytes: &[u8]) -> Option<Self>;
        }

        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct NoteBytesData<const N: usize>(pub [u8; N]);

        impl<const N: usize> AsRef<[u8]> for NoteBytesData<N> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const N: usize> AsMut<[u8]> for NoteBytesData<N> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl<const N: usize> NoteBytes for NoteBytesData<N> {
            fn from_slice(bytes: &[u8]) -> Option<Self> {
                bytes.try_into().ok().map(NoteBytesData)
            }
        }
    }

    pub trait Domain {}
    pub trait ShieldedOutput {}
    shells!(EphemeralKeyBytes);
    pub fn try_compact_note_decryption() {}
    pub fn try_note_decryption() {}
}

pub mod note {
    use super::memo::MemoSize;

    #[derive(Debug, Clone)]
    pub struct TransmittedNoteCiphertext<M: MemoSize> {
        pub epk_bytes: [u8; 32],
        pub enc_ciphertext: M::NoteCiphertextBytes,
        pub out_ciphertext: [u8; 80],
    }

    impl<M: MemoSize> TransmittedNoteCiphertext<M> {
        pub fn from_parts(
            epk_bytes: [u8; 32],
            enc_ciphertext: M::NoteCiphertextBytes,
            out_ciphertext: [u8; 80],
        ) -> Self {
            Self {
                epk_bytes,
                enc_ciphertext,
                out_ciphertext,
            }
        }
    }

    #[derive(Debug, Clone, Copy)]
    pub struct ExtractedNoteCommitment(pub(crate) [u8; 32]);
    impl ExtractedNoteCommitment {
        pub fn from_bytes(b: &[u8; 32]) -> Option<Self> {
            Some(Self(*b))
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
    }

    shells!(RandomSeed, Nullifier, Rho);
}

pub mod builder {
    shells!(Builder, BundleType);
}
pub mod bundle {
    shells!(BatchValidator, Authorized, Flags);
}
pub mod circuit {
    shells!(ProvingKey, VerifyingKey);
}
pub mod keys {
    shells!(
        FullViewingKey,
        IncomingViewingKey,
        OutgoingViewingKey,
        PreparedIncomingViewingKey,
        Scope,
        SpendAuthorizingKey,
        SpendValidatingKey,
        SpendingKey,
    );
}
pub mod note_encryption {
    shells!(CompactAction, OrchardDomain);
}
pub mod primitives {
    pub mod redpallas {}
}
pub mod value {
    shells!(NoteValue, ValueCommitment);
}
shells!(Action, Address, Bundle, Note, Proof);
