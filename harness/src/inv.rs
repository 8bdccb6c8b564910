//! Blocks and transactions: download, announcement, confirmation.
use crate::nk::*;
use crate::node::*;
use crate::world::*;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::{Block, Script, Transaction, Txid, Wtxid};
use nakamoto_common::block::BlockHash;
use nakamoto_net::{Disconnect, Link};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::{Command, CommandError, DisconnectReason, Event, Io};
use std::net::SocketAddr;
use std::ops::Bound;

fn processed(out: &[Io]) -> Vec<(u64, Block)> {
    events(out)
        .iter()
        .filter_map(|e| match e {
            Event::BlockProcessed { block, height, .. } => Some((*height, block.clone())),
            _ => None,
        })
        .collect()
}
fn full(c: &[Block], hs: &[u64]) -> Vec<(u64, Block)> {
    hs.iter().map(|h| (*h, c[*h as usize].clone())).collect()
}

/// Blocks that were asked for are requested from peers that have blocks, again after 15 seconds,
/// accepted from anyone but only as committed to by their header, and handed on in order.
pub fn h_blocks() {
    let len = 3;
    let c = blocks(len, 1, 1);
    let mut n = node_with(&c, len);
    n.take();
    let (a, b) = (peer(1), peer(2));
    let online = choose(2) == 1;
    n.accept(b, 8, 0);
    if online {
        n.dial(a, FULL, len as i32);
    }
    n.take();
    // Which, in which order, some twice.
    let wanted: Vec<u64> = match choose(4) {
        0 => vec![2],
        1 => vec![1, 3],
        2 => vec![3, 1, 3],
        _ => vec![2, 3, 1],
    };
    for h in &wanted {
        n.command(Command::RequestBlock(c[*h as usize].block_hash()));
    }
    let mut left: Vec<u64> = wanted;
    left.sort();
    left.dedup();
    let all = left.clone();
    check(asked_blocks(&n.take()).is_empty(), 9);
    n.elapse_ms(1_000);
    n.wake();
    let asks = |out: &[Io], left: &[u64]| {
        let mut v = asked_blocks(out);
        v.sort_by_key(|x| position(&c, &x.1));
        let want: Vec<_> = left.iter().map(|h| (a, c[*h as usize].block_hash())).collect();
        v == want
    };
    let out = n.take();
    if !online {
        check(asked_blocks(&out).is_empty(), 10);
        n.dial(a, FULL, len as i32);
        n.elapse_ms(1_000);
        n.wake();
        let out = n.take();
        check(asks(&out, &left), 11);
        cover(1);
    } else {
        check(asks(&out, &left), 12);
    }
    // Something that wasn't asked for, isn't what was asked for, or nothing.
    let junk = choose(5);
    let h = left[0] as usize;
    let mut x = c[h].clone();
    match junk {
        0 => {}
        1 => x.txdata.push(tx(vec![unknown_outpoint(1)], vec![(1, mine(1))], 77)),
        2 => x.txdata.clear(),
        3 => x.txdata[0].output[0].value += 1,
        _ => x = fork(&c, h - 1, 1, 0, 90)[h].clone(),
    }
    if junk > 0 {
        n.recv(&[a, b][junk as usize % 2], NetworkMessage::Block(x));
        let out = n.take();
        check(processed(&out).is_empty(), 13);
        cover(2);
    }
    // Time passes: asked again at the right time.
    let mut waited = 0;
    for _ in 0..2 {
        let dt = within(15, 0, 20_000);
        n.elapse_ms(dt);
        n.wake();
        waited += dt;
        let out = n.take();
        if waited >= 15_000 {
            check(asks(&out, &left), 14);
            waited = 0;
            cover(3);
        } else {
            check(asked_blocks(&out).is_empty(), 15);
        }
    }
    // They come in any order, from anyone.
    let other = choose(2) as usize;
    while !left.is_empty() {
        let h = left.remove(choose(left.len() as u64) as usize) as usize;
        n.recv(&[a, b][(left.len() + other) % 2], NetworkMessage::Block(c[h].clone()));
        let out = n.take();
        if left.is_empty() {
            check(processed(&out) == full(&c, &all), 16);
            cover(4);
        } else {
            check(processed(&out).is_empty(), 17);
        }
        // Once.
        n.recv(&a, NetworkMessage::Block(c[h].clone()));
        check(processed(&n.take()).is_empty(), 18);
    }
    n.elapse_ms(16_000);
    n.wake();
    check(asked_blocks(&n.take()).is_empty(), 19);
}
/// Blocks that are replaced while they are on their way.
pub fn h_blocks_reorg() {
    let len = 3;
    let c = blocks(len, 0, 1);
    let mut n = node_with(&c, len);
    n.take();
    let a = peer(1);
    n.dial(a, FULL, len as i32);
    let wanted = choose(7) + 1;
    for h in 1..=3u64 {
        if wanted >> (h - 1) & 1 == 1 {
            n.command(Command::RequestBlock(c[h as usize].block_hash()));
        }
    }
    n.elapse_ms(1_000);
    n.wake();
    n.take();
    // Some have come.
    let come = choose(8);
    let mut done = vec![];
    for h in (1..=3u64).rev() {
        if wanted >> (h - 1) & 1 == 1 && come >> (h - 1) & 1 == 1 {
            n.recv(&a, NetworkMessage::Block(c[h as usize].clone()));
            done.extend(processed(&n.take()).into_iter().map(|x| x.0));
        }
    }
    let all: Vec<u64> = (1..=3).filter(|h| wanted >> (h - 1) & 1 == 1).collect();
    check(done == if wanted & !come == 0 { all.clone() } else { vec![] }, 10);
    // The last ones are replaced.
    let keep = choose(3) as usize;
    let d = fork(&c, keep, 4 - keep, 0, 20);
    n.recv(&a, NetworkMessage::Headers(hdrs(&d[keep + 1..])));
    let mut out = n.take();
    check(n.tip().0 == 4, 11);
    // The others are handed on once they are all there.
    for h in 1..=keep as u64 {
        if wanted >> (h - 1) & 1 == 1 && come >> (h - 1) & 1 == 0 {
            check(processed(&out).is_empty(), 12);
            n.recv(&a, NetworkMessage::Block(c[h as usize].clone()));
            out = n.take();
        }
    }
    let kept: Vec<u64> = if done.is_empty() { all.into_iter().filter(|h| *h as usize <= keep).collect() } else { vec![] };
    check(processed(&out) == full(&c, &kept), 13);
    if kept.is_empty() {
        cover(1);
    } else {
        cover(2);
    }
    // The old ones aren't asked for or taken any more, at any time.
    n.elapse_ms(within(15, 0, 20_000));
    n.wake();
    check(asked_blocks(&n.take()).is_empty(), 14);
    for h in keep + 1..=3 {
        n.recv(&a, NetworkMessage::Block(c[h].clone()));
    }
    check(processed(&n.take()).is_empty(), 15);
    // New ones are.
    n.command(Command::RequestBlock(d[4].block_hash()));
    n.elapse_ms(1_000);
    n.wake();
    check(asked_blocks(&n.take()) == vec![(a, d[4].block_hash())], 16);
    n.recv(&a, NetworkMessage::Block(d[4].clone()));
    check(processed(&n.take()) == vec![(4, d[4].clone())], 17);
}

/// Complete the handshake with a peer.
fn meet(n: &mut Node, a: SocketAddr, link: Link, relay: bool, wtxid: bool) {
    if link == Link::Outbound {
        n.command(Command::Connect(a));
        nakamoto_net::StateMachine::attempted(&mut n.sm, &a);
    }
    n.connected(a, link);
    let mut v = version(FULL, 0);
    v.nonce = nonce_of(&a);
    v.relay = relay;
    n.recv(&a, NetworkMessage::Version(v));
    if wtxid {
        n.recv(&a, NetworkMessage::WtxidRelay);
    }
    n.recv(&a, NetworkMessage::Verack);
    // The first ping is answered.
    let pings: Vec<_> = sent(&n.out, &a).into_iter().filter(|m| matches!(m, NetworkMessage::Ping(_))).collect();
    for m in pings {
        if let NetworkMessage::Ping(x) = m {
            n.recv(&a, NetworkMessage::Pong(x));
        }
    }
}
fn announced(out: &[Io]) -> Vec<(SocketAddr, Inventory)> {
    let mut v = vec![];
    for o in out {
        if let Io::Write(a, m) = o {
            if let NetworkMessage::Inv(l) = &m.payload {
                v.extend(l.iter().map(|i| (*a, *i)));
            }
        }
    }
    v
}
fn same_invs(mut a: Vec<(SocketAddr, Inventory)>, mut b: Vec<(SocketAddr, Inventory)>) -> bool {
    a.sort();
    b.sort();
    a == b
}
fn served(out: &[Io]) -> Vec<(SocketAddr, Transaction)> {
    out.iter()
        .filter_map(|o| match o {
            Io::Write(a, m) => match &m.payload {
                NetworkMessage::Tx(t) => Some((*a, t.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
fn statuses(out: &[Io]) -> Vec<(Txid, TxStatus)> {
    events(out)
        .iter()
        .filter_map(|e| match e {
            Event::TxStatusChanged { txid, status } => Some((*txid, status.clone())),
            _ => None,
        })
        .collect()
}
fn submit(n: &mut Node, t: &Transaction) -> Option<Vec<SocketAddr>> {
    let (tx, rx) = nakamoto_p2p::fsm::output::chan::unbounded();
    n.command(Command::SubmitTransaction(t.clone(), tx));
    match rx.try_recv().unwrap() {
        Ok(v) => {
            let mut v: Vec<_> = v.into_iter().collect();
            v.sort();
            Some(v)
        }
        Err(CommandError::NotConnected) => None,
        Err(_) => {
            check(false, 90);
            None
        }
    }
}
fn submitted(n: &mut Node, t: &Transaction) -> bool {
    let (tx, rx) = nakamoto_p2p::fsm::output::chan::unbounded();
    n.command(Command::GetSubmittedTransaction(t.txid(), tx));
    match rx.try_recv().unwrap() {
        Some(x) => {
            check(x == *t, 91);
            true
        }
        None => false,
    }
}
fn inv(t: &Transaction, wtxid: bool) -> Inventory {
    if wtxid {
        Inventory::WTx(t.wtxid())
    } else {
        Inventory::Transaction(t.txid())
    }
}
fn payment(n: u8) -> Transaction {
    tx(vec![unknown_outpoint(n)], vec![(1000, other(200 + n)), (2000, mine(5))], n as u32)
}

/// A submitted transaction is announced to the peers that relay, present and future, the way
/// they want it.
pub fn h_tx_announce() {
    let c = blocks(1, 0, 1);
    let mut n = node_with(&c, 1);
    let t = payment(1);
    let u = payment(2);
    let all = [peer(1), peer(2), peer(3)];
    let relay = choose(8);
    let wtxid = choose(4);
    let links = [Link::Inbound, Link::Outbound, Link::Outbound];
    let has = |x: u64, i: usize| x >> i & 1 == 1;
    // Two of the peers are there, one comes later.
    for i in 0..2 {
        meet(&mut n, all[i], links[i], has(relay, i), has(wtxid, i));
    }
    n.elapse_ms(1_000);
    n.wake();
    let out = n.take();
    check(announced(&out).is_empty(), 10);
    let want: Vec<SocketAddr> = (0..2).filter(|i| has(relay, *i)).map(|i| all[i]).collect();
    let got = submit(&mut n, &t);
    check(got == if want.is_empty() { None } else { Some(want.clone()) }, 11);
    check(submitted(&mut n, &t) && !submitted(&mut n, &u), 12);
    let second = choose(2) == 1;
    if second {
        submit(&mut n, &u);
    }
    n.elapse_ms(within(15, 0, 25_000));
    n.wake();
    let out = n.take();
    let mut invs = vec![];
    for i in 0..2 {
        if has(relay, i) {
            invs.push((all[i], inv(&t, has(wtxid, i))));
            if second {
                invs.push((all[i], inv(&u, has(wtxid, i))));
            }
        }
    }
    check(same_invs(announced(&out), invs), 13);
    cover(1);
    meet(&mut n, all[2], links[2], has(relay, 2), false);
    n.elapse_ms(1_000);
    n.wake();
    let out = n.take();
    let mut invs = vec![];
    if has(relay, 2) {
        invs.push((all[2], inv(&t, false)));
        if second {
            invs.push((all[2], inv(&u, false)));
        }
        cover(2);
    }
    check(same_invs(announced(&out), invs), 14);
    check(disconnects(&out).is_empty(), 15);
}
/// An announcement is repeated every minute until the peer asks for the transaction, three times
/// at most; then the peer is dropped.
pub fn h_tx_retry() {
    let c = blocks(1, 0, 1);
    let mut n = node_with(&c, 1);
    let t = payment(1);
    let a = peer(1);
    let wtxid = choose(2) == 1;
    meet(&mut n, a, Link::Outbound, true, wtxid);
    submit(&mut n, &t);
    n.elapse_ms(1_000);
    n.wake();
    let out = n.take();
    answer(&mut n, &a, &out);
    check(announced(&out) == vec![(a, inv(&t, wtxid))], 10);
    let mut attempts = 1;
    let mut waited = 0;
    let any = choose(4);
    for step in 0..4 {
        if step == 1 && choose(2) == 1 {
            // It is asked for: that's it.
            n.recv(&a, NetworkMessage::GetData(vec![inv(&t, wtxid)]));
            let out = n.take();
            check(served(&out) == vec![(a, t.clone())], 11);
            check(statuses(&out) == vec![(t.txid(), TxStatus::Acknowledged { peer: a })], 12);
            n.elapse_ms(61_000);
            n.wake();
            let out = n.take();
            answer(&mut n, &a, &out);
            check(announced(&out).is_empty() && disconnects(&out).is_empty(), 13);
            // The next one starts afresh.
            let u = payment(2);
            submit(&mut n, &u);
            for _ in 0..3 {
                n.elapse_ms(60_000);
                n.wake();
                let out = n.take();
                answer(&mut n, &a, &out);
                check(announced(&out) == vec![(a, inv(&u, wtxid))] && disconnects(&out).is_empty(), 14);
            }
            cover(1);
            return;
        }
        // The times around which something happens, and any at one of the steps.
        let dt = if step == any { within(17, 0, 70_000) } else { 59_999 + choose(2) };
        n.elapse_ms(dt);
        n.wake();
        waited += dt;
        let out = n.take();
        // Pings are answered, so that the connection stays.
        answer(&mut n, &a, &out);
        let d = disconnects(&out);
        if waited >= 60_000 {
            if attempts == 3 {
                check(d.len() == 1 && d[0].0 == a && announced(&out).is_empty(), 15);
                cover(2);
                return;
            }
            check(announced(&out) == vec![(a, inv(&t, wtxid))] && d.is_empty(), 16);
            attempts += 1;
            waited = 0;
        } else {
            check(announced(&out).is_empty() && d.is_empty(), 17);
            cover(3);
        }
    }
}
fn answer(n: &mut Node, a: &SocketAddr, out: &[Io]) {
    for m in sent(out, a) {
        if let NetworkMessage::Ping(x) = m {
            n.recv(a, NetworkMessage::Pong(x));
        }
    }
}
/// Peers get the transactions that were submitted, and nothing else.
pub fn h_tx_getdata() {
    let c = blocks(1, 0, 1);
    let mut n = node_with(&c, 1);
    let (t, u) = (payment(1), payment(2));
    let (a, b) = (peer(1), peer(2));
    meet(&mut n, a, Link::Outbound, true, choose(2) == 1);
    meet(&mut n, b, Link::Inbound, false, false);
    submit(&mut n, &t);
    n.elapse_ms(1_000);
    n.wake();
    n.take();
    let mut acked = false;
    for _ in 0..2 {
        let from = [a, b][choose(2) as usize];
        let (i, ours) = match choose(7) {
            0 => (Inventory::Transaction(t.txid()), true),
            1 => (Inventory::WitnessTransaction(t.txid()), true),
            2 => (Inventory::WTx(t.wtxid()), true),
            3 => (Inventory::Transaction(u.txid()), false),
            4 => (Inventory::WTx(u.wtxid()), false),
            5 => (Inventory::Block(c[1].block_hash()), false),
            _ => (Inventory::WTx(Wtxid::from_inner([1; 32])), false),
        };
        let extra = choose(2) == 1;
        let mut l = vec![i];
        if extra {
            l.insert(0, Inventory::Transaction(u.txid()));
        }
        n.recv(&from, NetworkMessage::GetData(l));
        let out = n.take();
        check(served(&out) == if ours { vec![(from, t.clone())] } else { vec![] }, 10);
        // Acknowledged when a peer that was told first asks.
        let first = ours && from == a && !acked;
        check(statuses(&out) == if first { vec![(t.txid(), TxStatus::Acknowledged { peer: a })] } else { vec![] }, 11);
        if first {
            acked = true;
            cover(1);
        }
        check(disconnects(&out).is_empty(), 12);
    }
    // Announced again only if it wasn't asked for.
    n.elapse_ms(within(17, 60_000, 100_000));
    n.wake();
    let out = n.take();
    check(announced(&out).is_empty() == acked, 13);
    cover(2);
}
/// Confirmation and reversal: found in filters, reported, no longer announced or served, and the
/// other way around.
pub fn h_tx_confirm() {
    confirm(choose(2))
}
pub fn h_tx_confirm_more() {
    confirm(choose(4))
}
fn confirm(sort: u64) {
    let c = blocks(2, 0, 1);
    let mut n = node_with(&c, 2);
    let (a, b) = (peer(1), peer(2));
    meet(&mut n, a, Link::Outbound, true, true);
    n.command(Command::Rescan { from: Bound::Unbounded, to: Bound::Unbounded, watch: vec![mine(9)] });
    let mut t = payment(1);
    match sort {
        0 => {}
        // Data is not part of filters.
        1 => t.output.push(nakamoto_common::bitcoin::TxOut { value: 0, script_pubkey: Script::new_op_return(&[1, 2, 3]) }),
        2 => t.output.truncate(1),
        _ => t.output[0] = t.output[1].clone(),
    }
    // Another one, that always goes along.
    let u = payment(3);
    submit(&mut n, &t);
    submit(&mut n, &u);
    n.elapse_ms(1_000);
    n.wake();
    n.take();
    // A block that pays only one of the outputs, then (or not) the one with the transaction.
    let p = c[2].header;
    let near = block_on(&p, 30, vec![coinbase(30, vec![(50, other(240))]), tx(vec![unknown_outpoint(9)], vec![(5, t.output[0].script_pubkey.clone())], 31)]);
    let with = block_on(&near.header, 31, vec![coinbase(31, vec![(50, other(241))]), t.clone(), u.clone()]);
    let mut d = c.clone();
    d.push(near.clone());
    d.push(with.clone());
    let out = advance(&mut n, &d, 2, &a);
    let both = |s: TxStatus| vec![(t.txid(), s.clone()), (u.txid(), s)];
    check(statuses(&out) == both(TxStatus::Confirmed { height: 4, block: with.block_hash() }), 10);
    check(!submitted(&mut n, &t) && !submitted(&mut n, &u), 11);
    // No longer announced, to anyone, or served.
    n.elapse_ms(within(16, 0, 60_000));
    n.wake();
    let o = n.take();
    answer(&mut n, &a, &o);
    check(announced(&o).is_empty(), 12);
    meet(&mut n, b, Link::Inbound, true, false);
    n.recv(&b, NetworkMessage::GetData(vec![inv(&t, true), inv(&t, false)]));
    n.elapse_ms(1_000);
    n.wake();
    let o = n.take();
    answer(&mut n, &a, &o);
    check(announced(&o).is_empty() && served(&o).is_empty() && statuses(&o).is_empty(), 13);
    cover(1);
    // The block is replaced, right away or a few blocks later.
    let later = choose(2) as usize * 2;
    let mut d2 = d.clone();
    for i in 0..later {
        let p = d2[d2.len() - 1].header;
        d2.push(block_on(&p, 40 + i as u16, vec![coinbase(40 + i as u16, vec![(50, other(242))])]));
    }
    if later > 0 {
        advance(&mut n, &d2, 4, &a);
    }
    let keep = 2 + choose(2) as usize;
    let e = fork(&d2, keep, d2.len() - keep, 0, 50);
    let again = choose(3) as usize;
    let mut e2 = e.clone();
    if again > 0 {
        // The transaction is part of the new chain as well.
        let i = if again == 1 { keep + 1 } else { e.len() - 1 };
        for k in i..e.len() {
            let p = e2[k - 1].header;
            let mut txs = vec![coinbase(60 + k as u16, vec![(50, other(243))])];
            if k == i {
                txs.push(t.clone());
                txs.push(u.clone());
            }
            e2[k] = block_on(&p, 60 + k as u16, txs);
        }
    }
    let out = advance(&mut n, &e2, keep, &a);
    let s = statuses(&out);
    let reverted = |t: &Transaction| (t.txid(), TxStatus::Reverted { transaction: t.clone() });
    check(s.len() >= 2 && (s[..2] == [reverted(&t), reverted(&u)] || s[..2] == [reverted(&u), reverted(&t)]), 14);
    if again > 0 {
        let i = if again == 1 { keep + 1 } else { e.len() - 1 };
        check(s[2..] == both(TxStatus::Confirmed { height: i as u64, block: e2[i].block_hash() }), 15);
        check(!submitted(&mut n, &t) && !submitted(&mut n, &u), 16);
        cover(2);
    } else {
        check(s.len() == 2 && submitted(&mut n, &t) && submitted(&mut n, &u), 17);
        let mut v = announced(&out);
        n.elapse_ms(1_000);
        n.wake();
        v.extend(announced(&n.take()));
        check(same_invs(v, vec![(a, inv(&t, true)), (b, inv(&t, false)), (a, inv(&u, true)), (b, inv(&u, false))]), 18);
        n.recv(&b, NetworkMessage::GetData(vec![inv(&t, false), inv(&u, false)]));
        check(served(&n.take()) == vec![(b, t.clone()), (b, u.clone())], 19);
        cover(3);
    }
}
/// The node gets new blocks from an honest peer, and everything about them.
fn advance(n: &mut Node, c: &[Block], known: usize, a: &SocketAddr) -> Vec<Io> {
    n.recv(a, NetworkMessage::Headers(hdrs(&c[known + 1..])));
    let mut all: Vec<Io> = vec![];
    for _ in 0..3 {
        for _ in 0..8 {
            let out = n.take();
            // Blocks may be asked from either.
            let mut rs: Vec<(SocketAddr, NetworkMessage)> = vec![];
            for p in [*a, peer(2)] {
                rs.extend(sent(&out, &p).iter().flat_map(|m| answers(c, m)).map(|r| (p, r)));
            }
            all.extend(out);
            if rs.is_empty() {
                break;
            }
            for (p, r) in rs {
                n.recv(&p, r);
            }
        }
        n.elapse_ms(1_000);
        n.wake();
    }
    all.extend(n.take());
    check(disconnects(&all).is_empty(), 95);
    all
}
/// Attempts for a transaction that got confirmed don't count for the next.
pub fn h_tx_afresh() {
    let c = blocks(2, 0, 1);
    let mut n = node_with(&c, 2);
    let a = peer(1);
    meet(&mut n, a, Link::Outbound, true, true);
    n.command(Command::Rescan { from: Bound::Unbounded, to: Bound::Unbounded, watch: vec![mine(9)] });
    let t = payment(1);
    submit(&mut n, &t);
    let tries = choose(3) + 1;
    for _ in 0..tries {
        n.elapse_ms(60_000);
        n.wake();
        let out = n.take();
        answer(&mut n, &a, &out);
        check(announced(&out) == vec![(a, inv(&t, true))], 10);
    }
    let with = block_on(&c[2].header, 31, vec![coinbase(31, vec![(50, other(241))]), t.clone()]);
    let mut d = c.clone();
    d.push(with);
    let out = advance(&mut n, &d, 2, &a);
    check(statuses(&out).len() == 1, 11);
    let u = payment(2);
    submit(&mut n, &u);
    for i in 0..3 {
        n.elapse_ms(if i == 0 { within(16, 0, 60_000) } else { 60_000 });
        n.wake();
        let out = n.take();
        answer(&mut n, &a, &out);
        check(announced(&out) == vec![(a, inv(&u, true))] && disconnects(&out).is_empty(), 12);
    }
    cover(1);
    let _ = (Disconnect::<DisconnectReason>::DialError(std::sync::Arc::new(std::io::ErrorKind::Other.into())), BlockHash::all_zeros());
}
