//! Blocks with transactions, their filters, and an honest peer that serves them.
#![allow(dead_code)]
use crate::nk::*;
use crate::node::*;
use crate::util::*;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::StoredHeader;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter, GetCFHeaders, GetCFilters};
use nakamoto_common::bitcoin::{Block, BlockHeader, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxMerkleNode, TxOut, Txid, Witness};
use nakamoto_common::block::filter::{BlockFilter, FilterHash, FilterHeader};
use nakamoto_common::block::store::Genesis as _;
use nakamoto_common::block::BlockHash;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_p2p::fsm::Io;
use std::net::SocketAddr;

/// A script of our own, and scripts of others.
pub fn mine(n: u8) -> Script {
    Script::from(vec![0x51, 0x01, n])
}
pub fn other(n: u8) -> Script {
    Script::from(vec![0x52, 0x02, 0, n])
}
pub fn tx(inputs: Vec<OutPoint>, outputs: Vec<(u64, Script)>, tag: u32) -> Transaction {
    Transaction {
        version: 2,
        lock_time: PackedLockTime(tag),
        input: inputs
            .into_iter()
            .map(|o| TxIn { previous_output: o, script_sig: Script::from(vec![tag as u8]), sequence: Sequence::MAX, witness: Witness::new() })
            .collect(),
        output: outputs.into_iter().map(|(value, script_pubkey)| TxOut { value, script_pubkey }).collect(),
    }
}
pub fn coinbase(id: u16, outputs: Vec<(u64, Script)>) -> Transaction {
    tx(vec![OutPoint::null()], outputs, id as u32)
}
pub fn outpoint(t: &Transaction, vout: u32) -> OutPoint {
    OutPoint { txid: t.txid(), vout }
}
pub fn unknown_outpoint(n: u8) -> OutPoint {
    OutPoint { txid: Txid::from_inner([n; 32]), vout: 0 }
}
/// A block on top of another, with the given transactions.
pub fn block_on(prev: &BlockHeader, id: u16, txdata: Vec<Transaction>) -> Block {
    block_at(prev, prev.time + 600, id, txdata)
}
pub fn block_at(prev: &BlockHeader, time: u32, id: u16, txdata: Vec<Transaction>) -> Block {
    let mut b = Block {
        header: BlockHeader {
            version: ORACLE_VERSION,
            prev_blockhash: prev.block_hash(),
            merkle_root: TxMerkleNode::all_zeros(),
            time,
            bits: prev.bits,
            nonce: 0x11 << 16 | id as u32,
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().unwrap();
    if !symbolic() {
        b.header.nonce = 0;
        while b.header.validate_pow(&b.header.target()).is_err() {
            b.header.nonce += 1;
        }
    }
    b
}
/// Genesis and `n` blocks; block `i` pays us if bit `i - 1` of `marks` is set.
pub fn blocks(n: usize, marks: u64, id: u16) -> Vec<Block> {
    let mut v = vec![NET.genesis_block()];
    let mut t = T0 as u32 - 600 * n as u32;
    for i in 0..n {
        let s = if marks >> i & 1 == 1 { mine(1) } else { other(id as u8 + i as u8) };
        let p = v[i].header;
        v.push(block_at(&p, t, id + i as u16, vec![coinbase(id + i as u16, vec![(50, s)])]));
        t += 600;
    }
    v
}
/// Blocks on top of the chain cut to `keep` blocks above genesis.
pub fn fork(chain: &[Block], keep: usize, n: usize, marks: u64, id: u16) -> Vec<Block> {
    let mut v = chain[..=keep].to_vec();
    for i in 0..n {
        let s = if marks >> i & 1 == 1 { mine(1) } else { other(id as u8 + i as u8) };
        let p = v[v.len() - 1].header;
        v.push(block_on(&p, id + i as u16, vec![coinbase(id + i as u16, vec![(50, s)])]));
    }
    v
}
pub fn hdrs(c: &[Block]) -> Vec<BlockHeader> {
    c.iter().map(|b| b.header).collect()
}
pub fn pays_us(b: &Block) -> bool {
    b.txdata.iter().any(|t| t.output.iter().any(|o| o.script_pubkey == mine(1)))
}
pub fn filter_of(b: &Block) -> BlockFilter {
    if b.block_hash() == NET.genesis_hash() {
        return BlockFilter::genesis(NET);
    }
    let spent = other(250);
    BlockFilter::new_script_filter(b, |_| Ok(spent.clone())).unwrap()
}
/// The filter headers of a chain.
pub fn fheaders(c: &[Block]) -> Vec<(FilterHash, FilterHeader)> {
    let mut prev = FilterHeader::all_zeros();
    c.iter()
        .map(|b| {
            let f = filter_of(b);
            let hash = FilterHash::hash(&f.content);
            prev = hash.filter_header(&prev);
            (hash, prev)
        })
        .collect()
}
pub fn stored(f: &[(FilterHash, FilterHeader)]) -> Memory<StoredHeader> {
    let mut v = vec![StoredHeader::genesis(NET)];
    v.extend(f[1..].iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }));
    Memory::new(NonEmpty::from_vec(v).unwrap())
}
/// A node that has the chain, and filter headers up to a height.
pub fn node_with(c: &[Block], filters: usize) -> Node {
    Node::with_filters(config(), hdrs(c), book(vec![]), stored(&fheaders(&c[..=filters])))
}
pub fn position(c: &[Block], h: &BlockHash) -> Option<usize> {
    c.iter().position(|b| b.block_hash() == *h)
}
pub fn cfilter(b: &Block) -> NetworkMessage {
    NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: b.block_hash(), filter: filter_of(b).content })
}
pub fn cfheaders(c: &[Block], start: usize, stop: usize) -> NetworkMessage {
    let f = fheaders(&c[..=stop]);
    NetworkMessage::CFHeaders(CFHeaders {
        filter_type: 0,
        stop_hash: c[stop].block_hash(),
        previous_filter_header: f[start - 1].1,
        filter_hashes: f[start..].iter().map(|x| x.0).collect(),
    })
}
/// What an honest peer that has the chain answers.
pub fn answers(c: &[Block], m: &NetworkMessage) -> Vec<NetworkMessage> {
    match m {
        NetworkMessage::GetHeaders(g) => {
            let from = g.locator_hashes.iter().find_map(|h| position(c, h)).unwrap_or(0);
            vec![NetworkMessage::Headers(hdrs(&c[from + 1..]))]
        }
        NetworkMessage::GetCFHeaders(GetCFHeaders { start_height, stop_hash, .. }) => match position(c, stop_hash) {
            Some(stop) if stop >= *start_height as usize => vec![cfheaders(c, *start_height as usize, stop)],
            _ => vec![],
        },
        NetworkMessage::GetCFilters(GetCFilters { start_height, stop_hash, .. }) => match position(c, stop_hash) {
            Some(stop) => (*start_height as usize..=stop).map(|i| cfilter(&c[i])).collect(),
            _ => vec![],
        },
        NetworkMessage::GetData(v) => v
            .iter()
            .filter_map(|i| match i {
                Inventory::Block(h) | Inventory::WitnessBlock(h) => position(c, h).map(|i| NetworkMessage::Block(c[i].clone())),
                _ => None,
            })
            .collect(),
        NetworkMessage::Ping(n) => vec![NetworkMessage::Pong(*n)],
        _ => vec![],
    }
}
/// The messages to a peer, to be answered.
pub fn sent(out: &[Io], to: &SocketAddr) -> Vec<NetworkMessage> {
    writes(out, to).into_iter().cloned().collect()
}
/// The blocks whose filters were asked for.
pub fn asked_filters(c: &[Block], out: &[Io]) -> Vec<u64> {
    let mut v = vec![];
    for o in out {
        if let Io::Write(_, m) = o {
            if let NetworkMessage::GetCFilters(g) = &m.payload {
                check(g.filter_type == 0, 900);
                let stop = position(c, &g.stop_hash);
                check(stop.is_some(), 901);
                let start = concrete(g.start_height as u64);
                check(start <= stop.unwrap() as u64, 902);
                v.extend(start..=stop.unwrap() as u64);
            }
        }
    }
    v
}
/// The blocks that were asked for.
pub fn asked_blocks(out: &[Io]) -> Vec<(SocketAddr, BlockHash)> {
    let mut v = vec![];
    for o in out {
        if let Io::Write(a, m) = o {
            if let NetworkMessage::GetData(l) = &m.payload {
                for i in l {
                    if let Inventory::Block(h) | Inventory::WitnessBlock(h) = i {
                        v.push((*a, *h));
                    }
                }
            }
        }
    }
    v
}
