//! Shared helpers: block headers whose hash is under the harness' control.
#![allow(dead_code)]
use crate::nk;
use nakamoto_common::bitcoin::consensus::Encodable;
use nakamoto_common::bitcoin::hashes::{sha256d, Hash, HashEngine};
use nakamoto_common::bitcoin::{BlockHash, BlockHeader, TxMerkleNode};
use nakamoto_common::block::time::{Clock, LocalTime};

/// Version field of headers whose hash is given by the oracle below instead of SHA-256.
pub const ORACLE_VERSION: i32 = 0x4e4b0001;

/// Hash of a header, without going through `BlockHeader::block_hash`.
pub fn real_hash(h: &BlockHeader) -> BlockHash {
    let mut e = sha256d::Hash::engine();
    h.version.consensus_encode(&mut e).unwrap();
    e.input(&h.prev_blockhash[..]);
    e.input(&h.merkle_root[..]);
    h.time.consensus_encode(&mut e).unwrap();
    h.bits.consensus_encode(&mut e).unwrap();
    h.nonce.consensus_encode(&mut e).unwrap();
    BlockHash::from_hash(sha256d::Hash::from_engine(e))
}

/// The executor redirects `BlockHeader::block_hash` here. The hash of an oracle header is a
/// function of its (concrete) nonce: byte 0 and byte 31 are chosen by the harness, the rest makes
/// it unique. Everything else is really hashed.
#[no_mangle]
pub extern "C" fn nk_block_hash(out: *mut [u8; 32], h: &BlockHeader) {
    let b = if h.version == ORACLE_VERSION {
        let mut b = [0x5au8; 32];
        b[0] = (h.nonce >> 16) as u8;
        b[1] = h.nonce as u8;
        b[2] = (h.nonce >> 8) as u8;
        b[31] = (h.nonce >> 24) as u8;
        b
    } else {
        real_hash(h).into_inner()
    };
    unsafe { *out = b }
}

/// A header with the given hash bytes 0 and 31 (little-endian: 31 is the most significant).
/// Natively a real header with such a hash is searched for.
pub fn mk_header(prev: BlockHash, time: u32, bits: u32, id: u16, lo: u8, top: u8) -> BlockHeader {
    let mut h = BlockHeader {
        version: ORACLE_VERSION,
        prev_blockhash: prev,
        merkle_root: TxMerkleNode::from_inner([id as u8; 32]),
        time,
        bits,
        nonce: (top as u32) << 24 | (lo as u32) << 16 | id as u32,
    };
    if !nk::symbolic() {
        h.nonce = 0;
        loop {
            let x = h.block_hash();
            if x[0] == lo && x[31] == top {
                break;
            }
            h.nonce += 1;
        }
    }
    h
}

/// A fixed clock.
#[derive(Clone, Debug)]
pub struct FixedClock(pub u32);
impl Clock for FixedClock {
    fn block_time(&self) -> u32 {
        self.0
    }
    fn local_time(&self) -> LocalTime {
        LocalTime::from_secs(self.0 as u64)
    }
    fn from_block_time(t: u32) -> Self {
        Self(t)
    }
}

/// A file that only the harness uses: in the executor's own file system, or in a scratch
/// directory that whoever runs the replay provides and removes.
pub fn scratch(name: &str) -> std::path::PathBuf {
    if nk::symbolic() {
        std::path::PathBuf::from(format!("/nk/{}", name))
    } else {
        let d = std::env::var("NK_SCRATCH").expect("NK_SCRATCH is set");
        std::path::Path::new(&d).join(name)
    }
}
/// Cut a file, as a crash may.
pub fn cut(path: &std::path::Path, len: u64) {
    std::fs::OpenOptions::new().write(true).open(path).unwrap().set_len(len).unwrap();
}
