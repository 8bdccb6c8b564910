//! Header synchronisation with peers.
use crate::nk::*;
use crate::node::*;
use crate::util::*;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::BlockHeader;
use nakamoto_common::block::BlockHash;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::{Command, DisconnectReason, Event, Io};
use std::net::SocketAddr;

/// The reference: all headers known, and the active chain among them.
struct Model {
    known: Vec<BlockHeader>,
    active: Vec<BlockHeader>,
}
impl Model {
    fn new(active: Vec<BlockHeader>) -> Self {
        Model { known: active.clone(), active }
    }
    fn chain_to(&self, h: &BlockHeader) -> Option<Vec<BlockHeader>> {
        let mut v = vec![*h];
        loop {
            let p = v.last().unwrap().prev_blockhash;
            if p == BlockHash::all_zeros() {
                v.reverse();
                return Some(v);
            }
            match self.known.iter().find(|x| hash_of(x) == p) {
                Some(x) => v.push(*x),
                None => return None,
            }
        }
    }
    /// Add headers one by one; gives what left and what joined the active chain.
    fn add(&mut self, hs: &[BlockHeader]) -> (Vec<(u64, BlockHeader)>, Vec<(u64, BlockHeader)>) {
        let old = self.active.clone();
        for h in hs {
            if !self.known.iter().any(|x| hash_of(x) == hash_of(h)) {
                self.known.push(*h);
            }
            for x in self.known.clone() {
                if let Some(c) = self.chain_to(&x) {
                    if c.len() > self.active.len() {
                        self.active = c;
                    }
                }
            }
        }
        let new = &self.active;
        let k = old.iter().zip(new.iter()).take_while(|(a, b)| hash_of(a) == hash_of(b)).count();
        (
            (k..old.len()).rev().map(|i| (i as u64, old[i])).collect(),
            (k..new.len()).map(|i| (i as u64, new[i])).collect(),
        )
    }
    fn height(&self) -> u64 {
        self.active.len() as u64 - 1
    }
}
fn same(a: &[(u64, BlockHeader)], b: &[(u64, BlockHeader)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && hash_of(&x.1) == hash_of(&y.1))
}
/// The events of an import are those of the change.
fn reported(out: &[Io], rev: &[(u64, BlockHeader)], con: &[(u64, BlockHeader)], base: u64) {
    let mut r = vec![];
    let mut c = vec![];
    let mut imported = 0;
    for e in events(out) {
        match e {
            Event::BlockDisconnected { height, header } => {
                check(c.is_empty() && imported == 0, base);
                r.push((*height, *header));
            }
            Event::BlockConnected { height, header } => {
                check(imported == 0, base + 1);
                c.push((*height, *header));
            }
            Event::BlockHeadersImported { hash, height, connected, reverted, reorg } => {
                imported += 1;
                check(same(&connected.clone().into_iter().collect::<Vec<_>>(), con), base + 2);
                check(same(reverted, rev), base + 3);
                check(*reorg == !rev.is_empty(), base + 4);
                let (h, x) = con[con.len() - 1];
                check(*height == h && *hash == hash_of(&x), base + 5);
            }
            _ => {}
        }
    }
    check(same(&r, rev) && same(&c, con), base + 6);
    check(imported == !con.is_empty() as usize, base + 7);
}
fn getheaders<'a>(out: &'a [Io], to: &'a SocketAddr) -> Vec<&'a GetHeadersMessage> {
    writes(out, to)
        .into_iter()
        .filter_map(|m| match m {
            NetworkMessage::GetHeaders(g) => Some(g),
            _ => None,
        })
        .collect()
}
/// Locators of a short chain: all of it, from the tip.
fn locators(active: &[BlockHeader]) -> Vec<BlockHash> {
    active.iter().rev().map(hash_of).collect()
}
fn asks(g: &GetHeadersMessage, active: &[BlockHeader], stop: BlockHash) -> bool {
    g.locator_hashes == locators(active) && g.stop_hash == stop && g.version == 70016
}
fn misbehaved(out: &[Io], a: &SocketAddr) -> bool {
    let e = events(out).iter().any(|e| matches!(e, Event::PeerMisbehaved { addr, .. } if addr == a));
    let d = disconnects(out).iter().any(|(x, r)| x == a && matches!(r, DisconnectReason::PeerMisbehaving(_)));
    check(e == d, 9);
    e
}

/// Asks for headers exactly when a peer claims to have more, or the tip is old.
pub fn h_sync_start() {
    let len = choose(3) as usize + 1;
    let c = chain(len, 600, 1);
    let mut n = Node::new(config(), c.clone(), book(vec![]));
    n.take();
    let a = peer(1);
    // With or without filters.
    let services = [FULL, 1, 9][choose(3) as usize];
    let link = [Link::Outbound, Link::Inbound][choose(2) as usize];
    let h = u32s() as i32;
    if link == Link::Outbound {
        n.dial(a, services, h);
    } else {
        n.accept(a, services, h);
    }
    let out = n.take();
    let g = getheaders(&out, &a);
    let ahead = h > len as i32;
    if link == Link::Outbound {
        check(g.len() == ahead as usize, 10);
    } else {
        check(g.len() <= ahead as usize, 10);
    }
    for x in g {
        check(asks(x, &c, BlockHash::all_zeros()), 11);
        cover(1);
    }
    let synced = events(&out)
        .iter()
        .filter(|e| match e {
            Event::BlockHeadersSynced { height, hash } => {
                check(*height == len as u64 && *hash == hash_of(&c[len]), 12);
                true
            }
            _ => false,
        })
        .count();
    check((synced > 0) == !ahead, 13);
    // A better height is announced.
    let best: Vec<u64> = events(&out)
        .iter()
        .filter_map(|e| match e {
            Event::PeerHeightUpdated { height } => Some(*height),
            _ => None,
        })
        .collect();
    check(best.len() == ahead as usize && best.iter().all(|x| *x == h as u64), 14);
    if !ahead {
        cover(2);
    }
}

/// Headers of all sorts, from a peer that was or wasn't asked.
fn receive(steps: usize) {
    let main = chain(3, 1200, 1);
    let f = {
        // A branch off block 1, longer in the end.
        let mut v = vec![main[1]];
        for i in 0..4u16 {
            let p = v[i as usize];
            v.push(mk_header(p.block_hash(), p.time + 300, p.bits, 40 + i, 0xee, 0));
        }
        v.remove(0);
        v
    };
    let e = headers(&main[3], 3, 20);
    let mut n = Node::new(config(), main.clone(), book(vec![]));
    let a = peer(1);
    let b = peer(2);
    n.dial(a, FULL, 3);
    n.accept(b, 1, 2);
    // One that hasn't shaken hands.
    let c = peer(3);
    n.connected(c, Link::Inbound);
    n.take();
    let mut m = Model::new(main);
    let mut waiting = false; // for headers from `a`
    for _ in 0..steps {
        let sent: Vec<BlockHeader> = match choose(9) {
            0 => vec![e[0]],
            1 => e.clone(),
            2 => f[..2].to_vec(),
            3 => f.clone(),
            4 => vec![e[2]],
            5 => f[2..].to_vec(),
            6 => vec![],
            7 => vec![m.active[2]],
            _ => {
                // Something with any time on top of the active chain.
                let t = *m.active.last().unwrap();
                let x = mk_header(t.block_hash(), u32s(), t.bits, 60, 0x20, 0);
                let mut v: Vec<u32> = m.active.iter().map(|h| h.time).collect();
                v.sort_unstable();
                let median = v[v.len() / 2];
                let ok = x.time > median && x.time as u64 <= T0 + 7200;
                n.recv(&a, NetworkMessage::Headers(vec![x]));
                let out = n.take();
                if ok {
                    let (r, k) = m.add(&[x]);
                    reported(&out, &r, &k, 20);
                    check(n.tip().0 == m.height(), 29);
                } else {
                    check(misbehaved(&out, &a), 30);
                    reported(&out, &[], &[], 31);
                    cover(1);
                }
                check(n.tip().0 == m.height(), 39);
                return;
            }
        };
        if choose(2) == 0 {
            // ... from somebody who may not.
            n.recv(&c, NetworkMessage::Headers(sent.clone()));
            check(n.take().is_empty(), 40);
            continue;
        }
        n.recv(&a, NetworkMessage::Headers(sent.clone()));
        let out = n.take();
        check(!misbehaved(&out, &a), 41);
        waiting = false;
        let before = m.height();
        // Nothing new if the last one is on the active chain already.
        let done = sent.last().map_or(true, |l| m.active.iter().any(|x| hash_of(x) == hash_of(l)));
        let (r, k) = if done { (vec![], vec![]) } else { m.add(&sent) };
        reported(&out, &r, &k, 50);
        let (h, tip) = n.tip();
        check(h == m.height() && hash_of(&tip) == hash_of(m.active.last().unwrap()), 60);
        let g = getheaders(&out, &a);
        if !done && k.is_empty() {
            // Not connected to what we have: ask how to get there.
            check(g.len() == 1 && asks(g[0], &m.active, hash_of(&sent[0])), 61);
            cover(2);
        } else {
            check(g.is_empty(), 62);
        }
        // The new tip is announced to those who connected to us and are behind.
        let told: Vec<&Vec<BlockHeader>> = writes(&out, &b)
            .into_iter()
            .filter_map(|m| match m {
                NetworkMessage::Headers(v) => Some(v),
                _ => None,
            })
            .collect();
        check(told.is_empty() == k.is_empty(), 63);
        check(told.iter().all(|v| v.len() == 1 && hash_of(&v[0]) == hash_of(&tip)), 64);
        check(writes(&out, &c).is_empty(), 65);
        if !r.is_empty() {
            check(m.height() > before, 66);
            cover(3);
        }
    }
    let _ = waiting;
}
pub fn h_headers() {
    receive(2)
}
pub fn h_headers3() {
    receive(3)
}

/// Answer all pings.
fn pongs(n: &mut Node, a: &SocketAddr, out: &[Io]) {
    for m in writes(out, a) {
        if let NetworkMessage::Ping(x) = m {
            n.recv(a, NetworkMessage::Pong(*x));
        }
    }
}

/// Too many headers are refused, many unsolicited ones ignored, a full message followed up.
pub fn h_headers_many() {
    let all = long_chain(2002);
    let c = all[..2].to_vec();
    let a = peer(1);
    let solicited = choose(2) == 1;
    let mut n = Node::new(config(), c, book(vec![]));
    n.dial(a, FULL, if solicited { 5000 } else { 1 });
    let out = n.take();
    check(getheaders(&out, &a).len() == solicited as usize, 70);
    pongs(&mut n, &a, &out);
    let k = [1usize, 24, 25, 1999, 2000, 2001][choose(6) as usize];
    n.recv(&a, NetworkMessage::Headers(all[2..2 + k].to_vec()));
    let out = n.take();
    let bad = k > 2000;
    let ignored = !solicited && k > 24;
    check(misbehaved(&out, &a) == bad, 71);
    let h = n.tip().0;
    check(h == if bad || ignored { 1 } else { 1 + k as u64 }, 72);
    let g = getheaders(&out, &a);
    if k == 2000 && solicited {
        // There may be more.
        check(g.len() == 1 && g[0].locator_hashes[0] == hash_of(&all[2001]) && g[0].stop_hash == BlockHash::all_zeros(), 73);
        cover(1);
        // It has to answer within half a minute.
        pongs(&mut n, &a, &out);
        let ms = within(16, 0, 29_999);
        n.elapse_ms(ms);
        n.wake();
        let out = n.take();
        pongs(&mut n, &a, &out);
        check(!disconnects(&out).iter().any(|(_, r)| matches!(r, DisconnectReason::PeerTimeout(s) if *s == "getheaders")), 74);
        n.elapse_ms(30_000 - ms);
        n.wake();
        check(disconnects(&n.take()).iter().any(|(x, r)| *x == a && matches!(r, DisconnectReason::PeerTimeout(_))), 75);
    }
    if bad || ignored {
        reported(&out, &[], &[], 80);
        cover(2);
    }
}

/// Requests of peers are answered from the active chain.
pub fn h_getheaders() {
    let main = chain(4, 600, 1);
    let mut n = Node::new(config(), main.clone(), book(vec![]));
    let a = peer(1);
    n.accept(a, 1, 0);
    n.take();
    // Any first and last; symbolic first bytes make them anything else.
    let pick = |i: usize| if i < 5 { hash_of(&main[i]) } else { BlockHash::from_inner([0x77; 32]) };
    let (i, j) = (choose(6) as usize, choose(7) as usize);
    let stop = if j == 6 { BlockHash::all_zeros() } else { pick(j) };
    let v = u32s();
    let loc = if choose(2) == 0 { vec![pick(i)] } else { vec![pick(5), pick(i)] };
    n.recv(&a, NetworkMessage::GetHeaders(GetHeadersMessage { version: v, locator_hashes: loc, stop_hash: stop }));
    let out = n.take();
    let from = if i < 5 { i } else { 0 };
    let to = if j < 5 { j } else { 4 };
    let want: Vec<BlockHash> = (from + 1..=to).map(|k| hash_of(&main[k])).collect();
    let w = writes(&out, &a);
    if want.is_empty() {
        check(w.is_empty(), 90);
    } else {
        check(w.len() == 1, 91);
        match w[0] {
            NetworkMessage::Headers(x) => check(x.iter().map(hash_of).collect::<Vec<_>>() == want, 92),
            _ => check(false, 93),
        }
        cover(1);
    }
    check(disconnects(&out).is_empty() && n.tip().0 == 4, 94);
}

/// Blocks announced by inventory are looked for once.
pub fn h_inv_blocks() {
    let main = chain(3, 600, 1);
    let mut n = Node::new(config(), main.clone(), book(vec![]));
    let (a, b) = (peer(1), peer(2));
    n.dial(a, FULL, 3);
    n.dial(b, FULL, 3);
    n.take();
    let unknown = [BlockHash::from_inner([0x66; 32]), BlockHash::from_inner([0x67; 32])];
    let inv: Vec<Inventory> = match choose(6) {
        0 => vec![Inventory::Block(unknown[0])],
        1 => vec![Inventory::Block(unknown[0]), Inventory::Block(unknown[1])],
        2 => vec![Inventory::Block(unknown[1]), Inventory::Block(hash_of(&main[2]))],
        3 => vec![Inventory::Block(hash_of(&main[1])), Inventory::Block(hash_of(&main[3]))],
        4 => vec![],
        _ => vec![Inventory::Transaction(nakamoto_common::bitcoin::Txid::from_inner([3; 32]))],
    };
    let last = inv.iter().filter_map(|i| match i {
        Inventory::Block(h) if unknown.contains(h) => Some(*h),
        _ => None,
    });
    let last = last.last();
    n.recv(&a, NetworkMessage::Inv(inv.clone()));
    let out = n.take();
    let g = getheaders(&out, &a);
    check(g.len() == last.is_some() as usize, 100);
    check(getheaders(&out, &b).is_empty(), 101);
    if let Some(l) = last {
        check(asks(g[0], &main, l), 102);
        // Asked once only.
        n.recv(&a, NetworkMessage::Inv(inv));
        check(getheaders(&n.take(), &a).is_empty(), 103);
        // Without an answer, another peer is asked.
        n.recv(&a, NetworkMessage::Pong(0));
        let ms = within(15, 1, 29_999);
        n.elapse_ms(ms);
        n.wake();
        check(getheaders(&n.take(), &b).is_empty(), 104);
        n.elapse_ms(30_000 - ms);
        n.wake();
        let out = n.take();
        let g = getheaders(&out, &b);
        check(g.len() == 1 && asks(g[0], &main, l), 105);
        cover(1);
    } else {
        cover(2);
    }
}

/// Headers imported by the user.
pub fn h_import_command() {
    let main = chain(2, 1200, 1);
    let e = headers(&main[2], 2, 20);
    let mut n = Node::new(config(), main.clone(), book(vec![]));
    let a = peer(2);
    n.accept(a, 1, 0);
    n.take();
    let mut m = Model::new(main);
    let mut v = e.clone();
    v[1].time = u32s();
    v[1] = mk_header(hash_of(&v[0]), v[1].time, v[0].bits, 33, 0x20, 0);
    let mut t: Vec<u32> = m.active.iter().map(|h| h.time).collect();
    t.push(v[0].time);
    t.sort_unstable();
    let ok = v[1].time > t[t.len() / 2] && v[1].time as u64 <= T0 + 7200;
    let (tx, rx) = nakamoto_p2p::fsm::output::chan::unbounded();
    n.command(Command::ImportHeaders(v.clone(), tx));
    let out = n.take();
    let r = rx.try_recv().unwrap();
    check(r.is_ok() == ok, 110);
    if ok {
        let (r, k) = m.add(&v);
        reported(&out, &r, &k, 111);
        check(n.tip().0 == m.height(), 120);
        check(writes(&out, &a).iter().any(|w| matches!(w, NetworkMessage::Headers(x) if hash_of(&x[0]) == hash_of(&v[1]))), 121);
        cover(1);
    } else {
        cover(2);
    }
}

/// A message whose last header is invalid: what precedes it is imported, and reported.
pub fn h_headers_partial() {
    let main = chain(2, 1200, 1);
    let e = headers(&main[2], 1, 20);
    let mut n = Node::new(config(), main.clone(), book(vec![]));
    let a = peer(1);
    n.dial(a, FULL, 2);
    n.take();
    let t = u32s();
    let bad = mk_header(hash_of(&e[0]), t, e[0].bits, 33, 0x20, 0);
    // Too old or too new.
    assume(t <= main[2].time || t as u64 > T0 + 7200);
    n.recv(&a, NetworkMessage::Headers(vec![e[0], bad]));
    let out = n.take();
    check(misbehaved(&out, &a), 130);
    let (h, tip) = n.tip();
    check(h == 3 && hash_of(&tip) == hash_of(&e[0]), 131);
    check(events(&out).iter().any(|e| matches!(e, Event::BlockConnected { height: 3, .. })), 132);
}
