//! Compact filter headers and filters: synchronisation and scanning.
use crate::nk::*;
use crate::node::*;
use crate::world::*;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter, GetCFHeaders};
use nakamoto_common::bitcoin::Block;
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters as _};
use nakamoto_common::block::BlockHash;
use nakamoto_net::Disconnect;
use nakamoto_p2p::fsm::{Command, DisconnectReason, Event, GetFiltersError, Io};
use std::net::SocketAddr;
use std::ops::Bound;

fn misbehaved(out: &[Io], a: &SocketAddr) -> bool {
    let e = events(out).iter().any(|e| matches!(e, Event::PeerMisbehaved { addr, .. } if addr == a));
    let d = disconnects(out).iter().any(|(x, r)| x == a && matches!(r, DisconnectReason::PeerMisbehaving(_)));
    check(e == d, 9);
    check(disconnects(out).len() == d as usize, 8);
    e
}
fn getcfheaders(out: &[Io]) -> Vec<(SocketAddr, GetCFHeaders)> {
    out.iter()
        .filter_map(|o| match o {
            Io::Write(a, m) => match &m.payload {
                NetworkMessage::GetCFHeaders(g) => Some((*a, g.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
/// The stored filter headers are those of the first blocks of the chain, up to a height.
fn holds(n: &Node, f: &[(FilterHash, FilterHeader)], height: usize) -> bool {
    n.filters.height() == height as u64 && n.filters.get_headers(0..=height as u64) == f[..=height]
}
fn synced(out: &[Io]) -> Vec<u64> {
    events(out)
        .iter()
        .filter_map(|e| match e {
            Event::FilterHeadersSynced { height } => Some(*height),
            _ => None,
        })
        .collect()
}

/// One `cfheaders` message, of any sort, at a node that has some of the filter headers.
pub fn h_cfheaders() {
    let len = 3;
    let have = choose(3) as usize;
    let c = blocks(len, 1, 1);
    let f = fheaders(&c);
    let mut n = node_with(&c, have);
    n.take();
    let (a, b) = (peer(1), peer(2));
    n.dial(a, FULL, len as i32);
    let out = n.take();
    // It asks for the missing ones.
    let g = getcfheaders(&out);
    check(g.len() == 1 && g[0].0 == a, 10);
    check(g[0].1.filter_type == 0 && g[0].1.start_height as usize == have + 1 && g[0].1.stop_hash == c[len].block_hash(), 11);
    n.accept(b, 1, 0);
    n.take();
    // The message.
    let from = [a, b][choose(2) as usize];
    let filter_type = u8s();
    let stop = choose(len as u64 + 2) as usize;
    let prev = choose(len as u64 + 2) as usize;
    let count = choose(5) as usize;
    let m = CFHeaders {
        filter_type,
        stop_hash: if stop > len { BlockHash::from_inner([7; 32]) } else { c[stop].block_hash() },
        previous_filter_header: if prev > len { FilterHeader::from_inner([9; 32]) } else { f[prev].1 },
        filter_hashes: (0..count).map(|i| f.get(have + 1 + i).map_or(FilterHash::from_inner([i as u8; 32]), |x| x.0)).collect(),
    };
    n.recv(&from, NetworkMessage::CFHeaders(m));
    let out = n.take();
    let solicited = stop == len;
    let good = solicited && filter_type == 0 && prev == have && count == len - have;
    if good {
        cover(1);
        check(holds(&n, &f, len), 12);
        check(synced(&out) == vec![len as u64], 13);
        check(!misbehaved(&out, &from), 14);
        check(getcfheaders(&out).is_empty(), 15);
    } else {
        check(holds(&n, &f, have), 16);
        check(synced(&out).is_empty(), 17);
        let bad = misbehaved(&out, &from);
        // Nobody is blamed for what wasn't asked, or may have crossed with a change of ours.
        if !solicited || (filter_type == 0 && prev != have) {
            cover(2);
            check(!bad, 18);
        } else {
            cover(3);
            check(bad, 19);
        }
    }
    // In any case the filter headers are eventually there, given an honest peer.
    if !good {
        let d = peer(3);
        if misbehaved(&out, &from) {
            n.disconnected(&from, Disconnect::StateMachine(DisconnectReason::PeerMisbehaving("x")));
        }
        n.dial(d, FULL, len as i32);
        serve(&mut n, &c, &[a, b, d], out, 40);
        check(holds(&n, &f, len), 20);
        cover(4);
    }
}
/// Honest peers answer until nothing is left to answer, for a while.
fn serve(n: &mut Node, c: &[Block], peers: &[SocketAddr], first: Vec<Io>, seconds: u64) {
    let mut first = Some(first);
    for _ in 0..seconds / 10 + 1 {
        let mut out = first.take().unwrap_or_default();
        out.extend(n.take());
        settle(n, c, peers, out);
        n.elapse_ms(10_000);
        n.wake();
    }
    let out = n.take();
    settle(n, c, peers, out);
}
fn settle(n: &mut Node, c: &[Block], peers: &[SocketAddr], mut out: Vec<Io>) {
    for _ in 0..12 {
        let mut any = false;
        for p in peers {
            for m in sent(&out, p) {
                for r in answers(c, &m) {
                    any = true;
                    n.recv(p, r);
                }
            }
        }
        if !any {
            return;
        }
        out = n.take();
    }
    check(false, 99);
}

/// Filter headers of a long chain come in batches of at most 2000.
pub fn h_cfheaders_many() {
    let over = choose(3) as usize;
    let len = 1999 + over;
    let v = long_chain(len);
    let mut n = Node::new(config(), v.clone(), book(vec![]));
    n.take();
    let a = peer(1);
    n.dial(a, FULL, len as i32);
    let g = getcfheaders(&n.take());
    let stop = len.min(2000);
    check(g.len() == 1 && g[0].1.start_height == 1 && g[0].1.stop_hash == v[stop].block_hash(), 10);
    let hash = FilterHash::from_inner([3; 32]);
    let genesis = n.filters.get_header(0).unwrap().1;
    let extra = choose(2) as usize;
    n.recv(
        &a,
        NetworkMessage::CFHeaders(CFHeaders { filter_type: 0, stop_hash: v[stop].block_hash(), previous_filter_header: genesis, filter_hashes: vec![hash; stop + extra] }),
    );
    let out = n.take();
    if extra > 0 {
        check(misbehaved(&out, &a) && n.filters.height() == 0, 11);
        cover(1);
        return;
    }
    check(n.filters.height() == stop as u64, 12);
    let g = getcfheaders(&out);
    if len > stop {
        check(g.len() == 1 && g[0].1.start_height == 2001 && g[0].1.stop_hash == v[len].block_hash(), 13);
        check(synced(&out).is_empty(), 14);
        cover(2);
    } else {
        check(g.is_empty() && synced(&out) == vec![len as u64], 15);
        cover(3);
    }
}

/// A request that isn't answered is made again, and only then; the peer is dropped if there is
/// another one to ask, unless it is one the user wants to stay connected to.
pub fn h_cfheaders_timeout() {
    let len = 2;
    let c = blocks(len, 0, 1);
    let f = fheaders(&c);
    let two = choose(2) == 1;
    let persistent = choose(if two { 4 } else { 2 });
    let peers = [peer(1), peer(2)];
    let mut cfg = config();
    for i in 0..2 {
        if persistent >> i & 1 == 1 {
            cfg.connect.push(peers[i]);
        }
    }
    let mut n = Node::with_filters(cfg, hdrs(&c), book(vec![]), stored(&f[..1]));
    n.take();
    n.dial(peers[0], FULL, len as i32);
    if two {
        n.dial(peers[1], FULL, len as i32);
    }
    let g = getcfheaders(&n.take());
    check(g.len() == 1, 10);
    let mut asked = g[0].0;
    let mut waited = 0;
    let mut gone: Vec<SocketAddr> = vec![];
    for _ in 0..3 {
        let dt = within(14, 0, 8_000);
        n.elapse_ms(dt);
        n.wake();
        waited += dt;
        let out = n.take();
        let g = getcfheaders(&out);
        let d = disconnects(&out);
        if waited >= 6_000 {
            cover(1);
            check(g.len() == 1, 11);
            check(g[0].1.start_height == 1 && g[0].1.stop_hash == c[len].block_hash(), 12);
            let to = g[0].0;
            check((to == peers[0] || two && to == peers[1]) && !gone.contains(&to), 13);
            let i = (asked == peers[1]) as usize;
            let keeps = persistent >> i & 1 == 1;
            if to != asked && !keeps {
                cover(2);
                check(d.len() == 1 && d[0].0 == asked && matches!(d[0].1, DisconnectReason::PeerTimeout(_)), 14);
                gone.push(asked);
                n.disconnected(&asked, Disconnect::StateMachine(DisconnectReason::PeerTimeout("getcfheaders")));
                n.take();
            } else {
                check(d.is_empty(), 15);
                if to != asked {
                    cover(3);
                }
            }
            asked = to;
            waited = 0;
        } else {
            check(g.is_empty() && d.is_empty(), 16);
        }
    }
    // A late answer is as good.
    let from = if two && choose(2) == 1 && !gone.contains(&peers[1]) { peers[1] } else { asked };
    n.recv(&from, cfheaders(&c, 1, len));
    check(holds(&n, &f, len), 17);
}

/// Requests and answers that cross with a change of the chain: nobody is blamed or dropped for
/// it, and the filter headers end up being those of the chain.
pub fn h_cfheaders_reorg() {
    let len = 2;
    let have = choose(3) as usize;
    let c = blocks(len, 1, 1);
    let mut n = node_with(&c, have);
    n.take();
    let peers = [peer(1), peer(2)];
    n.dial(peers[0], FULL, len as i32);
    n.dial(peers[1], FULL, len as i32);
    let asked = n.take();
    // The chain is extended, or replaced from anywhere.
    let keep = choose(3) as usize;
    let d = fork(&c, keep, len - keep + 1, 1, 20);
    let fd = fheaders(&d);
    n.recv(&peers[0], NetworkMessage::Headers(hdrs(&d[keep + 1..])));
    let out = n.take();
    check(!misbehaved(&out, &peers[0]), 10);
    check(n.tip().0 == 3, 11);
    // Nothing of blocks that are gone is left.
    check(n.filters.height() as usize == have.min(keep) && holds(&n, &fd, have.min(keep)), 12);
    let g = getcfheaders(&out);
    check(g.len() == 1 && g[0].1.start_height as usize == have.min(keep) + 1 && g[0].1.stop_hash == d[3].block_hash(), 13);
    // Answers to the old requests, sent before the peer saw the change, may still come.
    if choose(2) == 1 {
        for p in &peers {
            for m in sent(&asked, p) {
                if let NetworkMessage::GetCFHeaders(_) = m {
                    for r in answers(&c, &m) {
                        cover(1);
                        n.recv(p, r);
                    }
                }
            }
        }
        let o = n.take();
        check(disconnects(&o).is_empty(), 14);
    }
    // Time passes without an answer to the old request.
    let mut all = out;
    for _ in 0..4 {
        settle_quietly(&mut n, &d, &peers, std::mem::take(&mut all));
        n.elapse_ms(within(13, 5_900, 6_100));
        n.wake();
        all = n.take();
        check(disconnects(&all).is_empty(), 15);
    }
    check(holds(&n, &fd, 3), 16);
    cover(2);
}
fn settle_quietly(n: &mut Node, c: &[Block], peers: &[SocketAddr], mut out: Vec<Io>) {
    for _ in 0..12 {
        check(disconnects(&out).is_empty(), 98);
        let mut any = false;
        for p in peers {
            for m in sent(&out, p) {
                for r in answers(c, &m) {
                    any = true;
                    n.recv(p, r);
                }
            }
        }
        if !any {
            return;
        }
        out = n.take();
    }
    check(false, 97);
}

/// Serving filter headers to peers.
pub fn h_getcfheaders() {
    let len = 3;
    let have = choose(4) as usize;
    let c = blocks(len, 1, 1);
    let f = fheaders(&c);
    let mut n = node_with(&c, have);
    n.take();
    let b = peer(2);
    n.accept(b, 1, 0);
    n.take();
    let filter_type = u8s();
    let start = u32s();
    let stop = choose(len as u64 + 2) as usize;
    let stop_hash = if stop > len { BlockHash::from_inner([7; 32]) } else { c[stop].block_hash() };
    n.recv(&b, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type, start_height: start, stop_hash }));
    let out = n.take();
    let r: Vec<CFHeaders> = writes(&out, &b)
        .into_iter()
        .filter_map(|m| match m {
            NetworkMessage::CFHeaders(m) => Some(m.clone()),
            _ => None,
        })
        .collect();
    check(holds(&n, &f, have), 10);
    check(misbehaved(&out, &b) == (filter_type != 0), 11);
    if filter_type == 0 && stop <= len && start as usize <= stop && stop <= have {
        cover(1);
        let s = concrete(start as u64) as usize;
        check(r.len() == 1, 12);
        let prev = if s == 0 { FilterHeader::all_zeros() } else { f[s - 1].1 };
        check(r[0].filter_type == 0 && r[0].stop_hash == stop_hash && r[0].previous_filter_header == prev, 13);
        check(r[0].filter_hashes == f[s..=stop].iter().map(|x| x.0).collect::<Vec<_>>(), 14);
    } else {
        cover(2);
        check(r.is_empty(), 15);
    }
}

/// What is expected of a scan, event by event.
struct Scan {
    chain: Vec<Block>,
    start: u64,
    end: Option<u64>,
    /// Next height to be scanned.
    next: u64,
    stopped: bool,
    /// Blocks were replaced after the end was reached, which is not looked at again.
    stale: bool,
    /// Matches found and not yet reported.
    pending: Vec<u64>,
    /// Matches reported, with their block.
    reported: Vec<(u64, BlockHash)>,
}
impl Scan {
    fn new(chain: &[Block], start: u64, end: Option<u64>) -> Self {
        Scan { chain: chain.to_vec(), start, end, next: start, stopped: false, stale: false, pending: vec![], reported: vec![] }
    }
    fn inside(&self, h: u64) -> bool {
        h >= self.start && self.end.map_or(true, |e| h <= e)
    }
    fn see(&mut self, out: &[Io]) {
        for e in events(out) {
            match e {
                Event::FilterProcessed { block, height, matched, valid, .. } => {
                    check(!self.stopped && *height == self.next && self.inside(*height), 100);
                    let h = concrete(*height);
                    check((h as usize) < self.chain.len(), 101);
                    let b = &self.chain[h as usize];
                    check(*block == b.block_hash() && *valid, 102);
                    check(*matched == pays_us(b), 103);
                    if *matched {
                        self.pending.push(h);
                    }
                    self.next = h + 1;
                }
                Event::BlockMatched { block, height } => {
                    let h = concrete(*height);
                    check(self.pending.first() == Some(&h), 104);
                    self.pending.remove(0);
                    check(*block == self.chain[h as usize], 105);
                    self.reported.push((h, block.block_hash()));
                }
                // It is said to be scanned up to a height only if nothing below is missing.
                Event::Scanned { height } => {
                    check(*height <= self.next && self.pending.iter().all(|h| h >= height), 106);
                    cover(50);
                }
                Event::FilterRescanStopped { height } => {
                    check(!self.stopped && self.end == Some(*height) && self.next > *height, 107);
                    self.stopped = true;
                }
                Event::BlockDisconnected { height, .. } => {
                    let h = concrete(*height);
                    if !self.stopped && self.next > h {
                        self.next = h.max(self.start);
                    }
                    if self.stopped && self.inside(h) {
                        self.stale = true;
                    }
                    self.pending.retain(|p| *p < h);
                    self.reported.retain(|p| p.0 < h);
                }
                Event::FilterRescanStarted { .. } => check(false, 108),
                _ => {}
            }
        }
    }
    /// All there is to scan was scanned and reported.
    fn done(&self) {
        check(self.pending.is_empty(), 113);
        if self.stale {
            return;
        }
        let tip = self.chain.len() as u64 - 1;
        let last = self.end.map_or(tip, |e| e.min(tip));
        if last >= self.start {
            check(self.next == last + 1, 110);
        } else {
            check(self.next == self.start, 111);
        }
        check(self.stopped == self.end.map_or(false, |e| e < self.next), 112);
        let mut want = vec![];
        for (i, b) in self.chain.iter().enumerate() {
            if pays_us(b) && self.inside(i as u64) {
                want.push((i as u64, b.block_hash()));
            }
        }
        check(self.reported == want, 114);
    }
}
fn started(out: &[Io]) -> Vec<(u64, Option<u64>)> {
    events(out)
        .iter()
        .filter_map(|e| match e {
            Event::FilterRescanStarted { start, stop } => Some((*start, *stop)),
            _ => None,
        })
        .collect()
}
/// Deliver filters in any order, then the blocks that matched, in any order.
fn deliver(n: &mut Node, scan: &mut Scan, c: &[Block], a: &SocketAddr, mut asked: Vec<u64>, any_order: bool) {
    while !asked.is_empty() {
        let i = if any_order { choose(asked.len() as u64) as usize } else { asked.len() - 1 };
        let h = asked.remove(i);
        n.recv(a, cfilter(&c[h as usize]));
        let out = n.take();
        check(disconnects(&out).is_empty() && asked_filters(c, &out).is_empty(), 120);
        scan.see(&out);
    }
    n.elapse_ms(1_000);
    n.wake();
    let out = n.take();
    scan.see(&out);
    let mut want: Vec<_> = asked_blocks(&out).into_iter().map(|x| x.1).collect();
    let mut due: Vec<_> = scan.pending.iter().map(|h| c[*h as usize].block_hash()).collect();
    due.sort();
    let mut w = want.clone();
    w.sort();
    check(w == due, 121);
    want.sort_by_key(|h| position(c, h));
    while !want.is_empty() {
        let i = if any_order { choose(want.len() as u64) as usize } else { want.len() - 1 };
        let h = want.remove(i);
        n.recv(a, NetworkMessage::Block(c[position(c, &h).unwrap()].clone()));
        scan.see(&n.take());
    }
}
/// Any bounds.
pub fn h_rescan_bounds() {
    let len = 2usize;
    let c = blocks(len, choose(2) + 2, 1);
    let mut n = node_with(&c, len);
    n.take();
    let a = peer(1);
    n.dial(a, FULL, len as i32);
    n.take();
    let (from, to) = (u64s(), u64s());
    let from = if from <= len as u64 + 2 { concrete(from) } else { from };
    let to = if to <= len as u64 + 2 { concrete(to) } else { to };
    let (bf, start) = match choose(3) {
        0 => (Bound::Included(from), from),
        1 => (Bound::Excluded(from), from.saturating_add(1)),
        _ => (Bound::Unbounded, len as u64 + 1),
    };
    // One past the last height.
    let (bt, past) = match choose(3) {
        0 => (Bound::Included(to), if to == u64::MAX { None } else { Some(to + 1) }),
        1 => (Bound::Excluded(to), Some(to)),
        _ => (Bound::Unbounded, None),
    };
    n.command(Command::Rescan { from: bf, to: bt, watch: vec![mine(1)] });
    let out = n.take();
    let s = started(&out);
    check(s.len() == 1, 10);
    let empty = past.map_or(false, |p| p <= start);
    if !empty {
        check(s[0].0 == start, 11);
        check(s[0].1 == if matches!(bt, Bound::Unbounded) { None } else { Some(past.map_or(u64::MAX, |p| p - 1)) }, 12);
    }
    let asked = asked_filters(&c, &out);
    let want: Vec<u64> = (0..=len as u64).filter(|h| *h >= start && past.map_or(true, |p| *h < p)).collect();
    check(asked == want, 13);
    let out: Vec<Io> = out.into_iter().filter(|o| !matches!(o, Io::Event(Event::FilterRescanStarted { .. }))).collect();
    if empty {
        // Nothing to do, which is also said.
        cover(1);
        check(events(&out).iter().filter(|e| matches!(e, Event::FilterRescanStopped { .. })).count() == 1, 14);
        check(!events(&out).iter().any(|e| matches!(e, Event::FilterProcessed { .. })), 15);
        n.elapse_ms(7_000);
        n.wake();
        check(asked_filters(&c, &n.take()).is_empty(), 16);
        return;
    }
    let mut scan = Scan::new(&c, start, s[0].1);
    scan.see(&out);
    deliver(&mut n, &mut scan, &c, &a, asked, false);
    scan.done();
    if scan.stopped {
        cover(2);
    } else {
        cover(3);
    }
    // The chain goes on: scanned as far as the bounds go.
    let d = fork(&c, len, 2, 1, 20);
    scan.chain = d.clone();
    n.recv(&a, NetworkMessage::Headers(hdrs(&d[len + 1..])));
    let out = n.take();
    let reqs = sent(&out, &a);
    for m in reqs {
        if matches!(m, NetworkMessage::GetCFHeaders(_)) {
            for r in answers(&d, &m) {
                n.recv(&a, r);
            }
        }
    }
    let out = n.take();
    let asked = asked_filters(&d, &out);
    let want: Vec<u64> = (len as u64 + 1..=len as u64 + 2).filter(|h| *h >= start && past.map_or(true, |p| *h < p)).collect();
    check(asked == want, 17);
    deliver(&mut n, &mut scan, &d, &a, asked, false);
    scan.done();
}
/// All orders of arrival, all matches.
pub fn h_rescan_orders() {
    orders(3)
}
pub fn h_rescan_orders4() {
    orders(4)
}
fn orders(len: usize) {
    let c = blocks(len, choose(1 << len), 1);
    let mut n = node_with(&c, len);
    n.take();
    let a = peer(1);
    n.dial(a, FULL, len as i32);
    n.take();
    let end = within(3, len as u64 - 1, len as u64 + 1);
    n.command(Command::Rescan { from: Bound::Included(1), to: Bound::Included(end), watch: vec![mine(1)] });
    let out: Vec<Io> = n.take();
    let asked = asked_filters(&c, &out);
    let mut scan = Scan::new(&c, 1, Some(end));
    deliver(&mut n, &mut scan, &c, &a, asked, true);
    scan.done();
    cover(1);
}
/// Filters that don't belong there.
pub fn h_cfilter_bad() {
    let len = 2;
    let c = blocks(len, 3, 1);
    let mut n = node_with(&c, 1);
    n.take();
    let (a, b) = (peer(1), peer(2));
    n.dial(a, FULL, len as i32);
    n.accept(b, 1, 0);
    n.take();
    if choose(2) == 1 {
        n.command(Command::Rescan { from: Bound::Included(0), to: Bound::Unbounded, watch: vec![mine(1)] });
        n.take();
    }
    let scanned = events(&n.take()).len();
    check(scanned == 0, 10);
    let filter_type = u8s();
    // A block that has a filter header, one that has none yet, or an unknown one.
    let which = choose(3) as usize + 1;
    let sort = choose(4);
    let right = filter_of(&c[which.min(2)]).content;
    let mut filter = right.clone();
    match sort {
        0 => {}
        1 => {
            let i = choose(filter.len() as u64) as usize;
            filter[i] ^= 1 << choose(8);
        }
        2 => {
            filter.pop();
        }
        _ => filter.clear(),
    }
    let block_hash = if which > 2 { BlockHash::from_inner([7; 32]) } else { c[which].block_hash() };
    n.recv(&b, NetworkMessage::CFilter(CFilter { filter_type, block_hash, filter }));
    let out = n.take();
    let bad = misbehaved(&out, &b);
    check(bad == (filter_type == 0 && which == 1 && sort > 0), 11);
    let got = events(&out).iter().filter(|e| matches!(e, Event::FilterReceived { .. })).count();
    check(got == (filter_type == 0 && which == 1 && sort == 0) as usize, 12);
    if bad {
        cover(1);
    } else if got > 0 {
        cover(2);
    } else {
        cover(3);
    }
    // Nothing was scanned out of line.
    check(!events(&out).iter().any(|e| matches!(e, Event::FilterProcessed { height, .. } if *height != 0)), 13);
}
/// Filters asked for by the user.
pub fn h_request_filters() {
    let len = 3;
    let have = choose(4) as usize;
    let c = blocks(len, 1, 1);
    let mut n = node_with(&c, have);
    n.take();
    let a = peer(1);
    let online = choose(2) == 1;
    if online {
        n.dial(a, FULL, len as i32);
        n.take();
    }
    let (from, to) = (u64s(), u64s());
    let (tx, rx) = nakamoto_p2p::fsm::output::chan::unbounded();
    n.command(Command::RequestFilters(from..=to, tx));
    let out = n.take();
    let asked = asked_filters(&c, &out);
    let r = rx.try_recv().unwrap();
    if !online {
        check(matches!(r, Err(GetFiltersError::NotConnected)) && asked.is_empty(), 10);
        cover(1);
    } else if from > to || to > have as u64 {
        check(matches!(r, Err(GetFiltersError::InvalidRange)) && asked.is_empty(), 11);
        cover(2);
    } else {
        check(r.is_ok() && asked == (concrete(from)..=concrete(to)).collect::<Vec<_>>(), 12);
        for h in asked {
            n.recv(&a, cfilter(&c[h as usize]));
            let out = n.take();
            check(
                events(&out).iter().any(|e| {
                    matches!(e, Event::FilterReceived { from, filter, height, block }
                    if *from == a && filter.content == filter_of(&c[h as usize]).content && *height == h && *block == c[h as usize].block_hash())
                }),
                13,
            );
        }
        cover(3);
    }
}
/// A second scan, served from what is cached, with or without peers, and another watch list.
pub fn h_rescan_again() {
    let len = 3;
    let c = blocks(len, choose(8), 1);
    let mut n = node_with(&c, len);
    n.take();
    let a = peer(1);
    n.dial(a, FULL, len as i32);
    n.take();
    // The first scan is of another script.
    let first = choose(3);
    n.command(Command::Rescan { from: Bound::Included(1), to: Bound::Unbounded, watch: vec![mine(9)] });
    let out = n.take();
    for h in asked_filters(&c, &out) {
        // Some of the filters never came.
        if h != first {
            n.recv(&a, cfilter(&c[h as usize]));
        }
    }
    n.take();
    let lost = choose(2) == 1;
    if lost {
        n.disconnected(&a, Disconnect::ConnectionError(std::sync::Arc::new(std::io::ErrorKind::Other.into())));
        n.take();
    }
    let from = concrete(within(2, 1, 3));
    n.command(Command::Rescan { from: Bound::Included(from), to: Bound::Unbounded, watch: vec![mine(1)] });
    let out: Vec<Io> = n.take().into_iter().filter(|o| !matches!(o, Io::Event(Event::FilterRescanStarted { .. }))).collect();
    let mut scan = Scan::new(&c, from, None);
    scan.see(&out);
    let mut asked = asked_filters(&c, &out);
    if lost {
        check(asked.is_empty(), 10);
        n.dial(a, FULL, len as i32);
        let out = n.take();
        scan.see(&out);
        asked = asked_filters(&c, &out);
        cover(1);
    }
    check(asked == if first >= from { vec![first] } else { vec![] }, 11);
    deliver(&mut n, &mut scan, &c, &a, asked, false);
    scan.done();
    cover(2);
}
/// Anything that may happen while scanning, and in the end all of it is scanned.
pub fn h_rescan_history() {
    history(2, 2, [1, 2][choose(2) as usize])
}
pub fn h_rescan_history3() {
    history(2, 3, choose(4))
}
fn history(len: usize, steps: usize, marks: u64) {
    let mut c = blocks(len, marks, 1);
    let mut n = node_with(&c, len);
    n.take();
    let a = peer(1);
    n.dial(a, FULL, len as i32);
    n.take();
    let start = concrete(within(2, 0, 2));
    let end = if choose(2) == 1 { Some(concrete(within(3, 2, 4))) } else { None };
    let to = end.map_or(Bound::Unbounded, Bound::Included);
    n.command(Command::Rescan { from: Bound::Included(start), to, watch: vec![mine(1)] });
    let mut scan = Scan::new(&c, start, end);
    let mut out: Vec<Io> = n.take().into_iter().filter(|o| !matches!(o, Io::Event(Event::FilterRescanStarted { .. }))).collect();
    scan.see(&out);
    let mut id = 20;
    for step in 0..steps {
        match choose(5) {
            // What was asked is answered, up to the last answer or only the last one.
            k @ 0..=1 => {
                let rs: Vec<_> = sent(&out, &a).iter().flat_map(|m| answers(&c, m)).collect();
                let skip = if k == 0 { 0 } else { rs.len().saturating_sub(1) };
                out = vec![];
                for r in rs.into_iter().skip(skip) {
                    n.recv(&a, r);
                    let o = n.take();
                    scan.see(&o);
                    out.extend(o);
                }
            }
            // The chain is extended, or replaced.
            k @ 2..=3 => {
                let tip = c.len() - 1;
                let keep = if k == 2 { tip } else { tip - 1 - choose(2) as usize % tip };
                let d = fork(&c, keep, tip - keep + 1, choose(2) * 3, id);
                id += 10;
                c = d.clone();
                scan.chain = d;
                n.recv(&a, NetworkMessage::Headers(hdrs(&c[keep + 1..])));
                let o = n.take();
                scan.see(&o);
                out.extend(o);
            }
            // Nothing for a while.
            _ => {
                n.elapse_ms(if step + 1 == steps { within(14, 1, 16_000) } else { [1, 6_001, 16_000][choose(3) as usize] });
                n.wake();
                let o = n.take();
                scan.see(&o);
                out.extend(o);
            }
        }
    }
    // From now on the peer is prompt.
    for round in 0..5 {
        for _ in 0..12 {
            let rs: Vec<_> = sent(&out, &a).iter().flat_map(|m| answers(&c, m)).collect();
            out = vec![];
            if rs.is_empty() {
                break;
            }
            for r in rs {
                n.recv(&a, r);
                let o = n.take();
                scan.see(&o);
                out.extend(o);
            }
        }
        if round < 4 {
            n.elapse_ms(16_000);
            n.wake();
            let o = n.take();
            scan.see(&o);
            out.extend(o);
        }
    }
    scan.done();
    cover(1);
}
