//! Whatever peers send.
use crate::nk::*;
use crate::node::*;
use crate::world::*;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::address::{AddrV2, AddrV2Message, Address};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetBlocksMessage, GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_compact_blocks::SendCmpct;
use nakamoto_common::bitcoin::network::message_filter::{CFCheckpt, CFHeaders, CFilter, GetCFCheckpt, GetCFHeaders, GetCFilters};
use nakamoto_common::bitcoin::{Block, Transaction, Txid, Wtxid};
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_common::block::BlockHash;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{output::chan, Command, DisconnectReason, Io};

const KINDS: u64 = 36;
fn any_message(k: u64, c: &[Block], t: &Transaction) -> NetworkMessage {
    let unknown = BlockHash::from_inner([0x66; 32]);
    let last = c[c.len() - 1].block_hash();
    match k {
        0 => {
            let mut v = version(u64s(), [i32::MAX, i32::MIN][choose(2) as usize]);
            v.version = u32s();
            v.timestamp = u64s() as i64;
            NetworkMessage::Version(v)
        }
        1 => NetworkMessage::Verack,
        2 => NetworkMessage::Addr(vec![(u32s(), Address::new(&peer(7), ServiceFlags::from(u64s())))]),
        3 => NetworkMessage::Addr(vec![]),
        4 => NetworkMessage::Inv(vec![Inventory::Block(unknown), Inventory::Transaction(t.txid()), Inventory::Unknown { inv_type: u32s(), hash: [1; 32] }]),
        5 => NetworkMessage::Inv(vec![]),
        6 => NetworkMessage::GetData(vec![
            Inventory::Transaction(t.txid()),
            Inventory::WTx(t.wtxid()),
            Inventory::WTx(Wtxid::from_inner([4; 32])),
            Inventory::Block(last),
            Inventory::WitnessTransaction(Txid::from_inner([3; 32])),
            Inventory::Error,
        ]),
        7 => NetworkMessage::NotFound(vec![Inventory::Block(last)]),
        8 => NetworkMessage::GetBlocks(GetBlocksMessage { version: u32s(), locator_hashes: vec![], stop_hash: last }),
        9 => NetworkMessage::GetHeaders(GetHeadersMessage { version: u32s(), locator_hashes: vec![], stop_hash: unknown }),
        10 => NetworkMessage::GetHeaders(GetHeadersMessage { version: u32s(), locator_hashes: vec![unknown, last], stop_hash: BlockHash::all_zeros() }),
        11 => NetworkMessage::MemPool,
        12 => NetworkMessage::Tx(t.clone()),
        13 => NetworkMessage::Block(c[2].clone()),
        14 => {
            let mut b = c[2].clone();
            b.txdata.clear();
            NetworkMessage::Block(b)
        }
        15 => NetworkMessage::Headers(vec![]),
        16 => NetworkMessage::Headers(vec![c[1].header, c[2].header]),
        17 => {
            let mut h = c[2].header;
            h.prev_blockhash = unknown;
            NetworkMessage::Headers(vec![h])
        }
        18 => NetworkMessage::SendHeaders,
        19 => NetworkMessage::GetAddr,
        20 => NetworkMessage::Ping(u64s()),
        21 => NetworkMessage::Pong(u64s()),
        22 => NetworkMessage::GetCFilters(GetCFilters { filter_type: u8s(), start_height: u32s(), stop_hash: last }),
        23 => NetworkMessage::CFilter(CFilter { filter_type: u8s(), block_hash: c[1].block_hash(), filter: vec![] }),
        24 => NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: unknown, filter: vec![0xff; 3] }),
        25 => NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: u8s(), start_height: u32s(), stop_hash: if choose(2) == 0 { last } else { unknown } }),
        26 => NetworkMessage::CFHeaders(CFHeaders { filter_type: u8s(), stop_hash: last, previous_filter_header: FilterHeader::all_zeros(), filter_hashes: vec![FilterHash::all_zeros()] }),
        27 => NetworkMessage::CFHeaders(CFHeaders { filter_type: 0, stop_hash: unknown, previous_filter_header: FilterHeader::all_zeros(), filter_hashes: vec![] }),
        28 => NetworkMessage::GetCFCheckpt(GetCFCheckpt { filter_type: u8s(), stop_hash: last }),
        29 => NetworkMessage::CFCheckpt(CFCheckpt { filter_type: u8s(), stop_hash: last, filter_headers: vec![] }),
        30 => NetworkMessage::SendCmpct(SendCmpct { send_compact: bools(), version: u64s() }),
        31 => NetworkMessage::FeeFilter(u64s() as i64),
        32 => NetworkMessage::WtxidRelay,
        33 => NetworkMessage::AddrV2(vec![AddrV2Message { time: u32s(), services: ServiceFlags::from(u64s()), addr: AddrV2::Unknown(9, vec![1]), port: u16s() }]),
        34 => NetworkMessage::SendAddrV2,
        _ => NetworkMessage::Unknown { command: CommandString::try_from_static("zzz").unwrap(), payload: vec![1, 2] },
    }
}

/// Two messages of any kind from a peer in any state: the node goes on, and nobody else suffers.
fn any(node: impl Fn(&[Block]) -> (Node, Transaction), states: u64) {
    let c = blocks(3, 2, 1);
    let (mut n, t) = node(&c);
    let (a, b) = (peer(1), peer(2));
    let state = choose(states);
    match state {
        0 => n.connected(a, Link::Inbound),
        1 => {
            n.command(Command::Connect(a));
            n.sm.attempted(&a);
            n.connected(a, Link::Outbound);
        }
        2 => n.accept(a, FULL, 3),
        3 => n.dial(a, FULL, 9),
        _ => {
            n.dial(a, FULL, 9);
            n.disconnected(&a, Disconnect::ConnectionError(std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset))));
        }
    }
    n.take();
    let mut gone = state == 4;
    let mut told = !gone;
    for _ in 0..2 {
        n.recv(&a, any_message(choose(KINDS), &c, &t));
        let out = n.take();
        // Only the sender, and those still connected, have to do with it.
        let d = disconnects(&out);
        check(d.iter().all(|(x, _)| *x == a), 1);
        if gone {
            check(writes(&out, &a).is_empty() && d.is_empty() && events(&out).is_empty(), 2);
        }
        if !d.is_empty() && !gone {
            check(told, 3);
            let r: DisconnectReason = d[0].1.clone();
            n.disconnected(&a, r.into());
            gone = true;
            told = false;
            let out = n.take();
            check(disconnects(&out).is_empty() && writes(&out, &a).is_empty(), 4);
            cover(1);
        }
    }
    // The others are served as before.
    n.recv(&b, NetworkMessage::Ping(5));
    let out = n.take();
    check(writes(&out, &b).iter().filter(|m| matches!(m, NetworkMessage::Pong(5))).count() == 1, 5);
    check(disconnects(&out).is_empty(), 6);
    let (h, x) = n.tip();
    check(h == 3 && hash_of(&x) == c[3].block_hash(), 7);
    n.take();
    n.elapse_ms([4_000, 65_000][(state % 2) as usize]);
    n.wake();
    let out = n.take();
    check(!gone || !out.iter().any(|o| matches!(o, Io::Write(x, _) | Io::Disconnect(x, _) if *x == a)), 8);
    check(!gone || n.peers().iter().all(|p| p.addr != a), 9);
    cover(2);
}
fn idle(c: &[Block]) -> (Node, Transaction) {
    let mut n = node_with(c, 3);
    n.dial(peer(2), FULL, 3);
    (n, tx(vec![unknown_outpoint(1)], vec![(5, mine(1))], 9))
}
/// In the middle of everything: filter headers, filters, a block and a transaction under way.
fn busy(c: &[Block]) -> (Node, Transaction) {
    let mut n = node_with(c, 2);
    n.dial(peer(2), FULL, 3);
    let t = tx(vec![unknown_outpoint(1)], vec![(5, mine(1))], 9);
    let (tx1, _rx) = chan::unbounded();
    n.command(Command::SubmitTransaction(t.clone(), tx1));
    n.command(Command::Rescan { from: std::ops::Bound::Included(1), to: std::ops::Bound::Unbounded, watch: vec![mine(1)] });
    n.command(Command::RequestBlock(c[2].block_hash()));
    (n, t)
}
pub fn h_any_idle() {
    any(idle, 5)
}
pub fn h_any_busy() {
    any(busy, 4)
}
