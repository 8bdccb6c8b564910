//! Peers: handshake, connections, pings.
use crate::nk::*;
use crate::node::*;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::block::time::{Clock, LocalTime};
use nakamoto_common::p2p::peer::Source;
use nakamoto_net::{Disconnect, Link};
use nakamoto_p2p::fsm::{Command, DisconnectReason, Event, Io};
use std::net::SocketAddr;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Inbound,
    /// Out of the address book.
    Outbound,
    /// Asked for by the user.
    Trusted,
}
fn kind() -> Kind {
    [Kind::Inbound, Kind::Outbound, Kind::Trusted][choose(3) as usize]
}
/// A node with one connection that was just established.
fn begin(kind: Kind, height: usize) -> (Node, SocketAddr) {
    let a = peer(1);
    let b = if kind == Kind::Outbound { book(vec![known(a, FULL, Source::Dns)]) } else { book(vec![]) };
    let mut n = Node::new(config(), chain(height, 600, 1), b);
    match kind {
        Kind::Inbound => n.connected(a, Link::Inbound),
        Kind::Outbound => {
            check(connects(&n.out) == [a], 1);
            n.connected(a, Link::Outbound)
        }
        Kind::Trusted => {
            n.command(Command::Connect(a));
            check(connects(&n.out) == [a], 2);
            n.connected(a, Link::Outbound)
        }
    }
    (n, a)
}
fn handshake_only(m: &NetworkMessage) -> bool {
    matches!(m, NetworkMessage::Version(_) | NetworkMessage::Verack | NetworkMessage::WtxidRelay | NetworkMessage::SendHeaders)
}
fn is_our_version(m: &NetworkMessage, a: &SocketAddr, height: i32, time: LocalTime) {
    if let NetworkMessage::Version(v) = m {
        check(v.version == 70016, 10);
        check(v.services == ServiceFlags::NONE, 11);
        check(v.start_height == height, 12);
        check(v.timestamp == time.block_time() as i64, 13);
        check(v.receiver == Address::new(a, ServiceFlags::NONE), 14);
        check(!v.relay && v.user_agent == "/nakamoto:0.3.0/", 15);
    } else {
        check(false, 16)
    }
}
/// Nothing is sent to a peer but the handshake before the handshake is reported complete.
fn before_negotiated(out: &[Io], a: &SocketAddr, id: u64) {
    for o in out {
        match o {
            Io::Event(Event::PeerNegotiated { addr, .. }) if addr == a => return,
            Io::Write(to, m) if to == a => check(handshake_only(&m.payload), id),
            _ => {}
        }
    }
}
/// The messages answering a valid `version`.
fn replies(out: &[Io], a: &SocketAddr, kind: Kind, height: i32, now: LocalTime) {
    let w = writes(out, a);
    let k = (kind == Kind::Inbound) as usize;
    check(w.len() == 3 + k, 20);
    if kind == Kind::Inbound {
        is_our_version(w[0], a, height, now);
    }
    check(matches!(w[k], NetworkMessage::WtxidRelay), 21);
    check(matches!(w[k + 1], NetworkMessage::Verack), 22);
    check(matches!(w[k + 2], NetworkMessage::SendHeaders), 23);
}

/// One `version` message with anything in it.
pub fn h_version() {
    let k = kind();
    let h = choose(2) as usize * 3;
    let (mut n, a) = begin(k, h);
    let now = n.now;
    let first = n.take();
    let w = writes(&first, &a);
    if k == Kind::Inbound {
        check(w.is_empty(), 30);
    } else {
        check(w.len() == 1, 31);
        is_our_version(w[0], &a, h as i32, now);
    }
    check(disconnects(&first).is_empty() && negotiations(&first) == 0, 32);
    let services = u64s();
    let mut v = version(services, u32s() as i32);
    v.version = u32s();
    v.timestamp = u64s() as i64;
    v.nonce = u64s();
    v.relay = bools();
    n.recv(&a, NetworkMessage::Version(v.clone()));
    let out = n.take();
    let old = v.version < 70012;
    let lacking = k == Kind::Outbound && services & 1 == 0;
    let d = disconnects(&out);
    if old || lacking {
        check(d.len() == 1 && d[0].0 == a, 33);
        check(writes(&out, &a).is_empty(), 34);
        check(
            if old { matches!(d[0].1, DisconnectReason::PeerProtocolVersion(x) if *x == v.version) } else { matches!(d[0].1, DisconnectReason::PeerServices(_)) },
            35,
        );
        n.recv(&a, NetworkMessage::Verack);
        check(writes(&n.out, &a).is_empty() && negotiations(&n.out) == 0, 36);
        cover(1);
        return;
    }
    check(d.is_empty(), 37);
    replies(&out, &a, k, h as i32, now);
    check(negotiations(&out) == 0 && n.peers().is_empty(), 38);
    let wt = choose(2) == 1;
    if wt {
        n.recv(&a, NetworkMessage::WtxidRelay);
    }
    check(writes(&n.out, &a).is_empty(), 39);
    n.recv(&a, NetworkMessage::Verack);
    let out = n.take();
    before_negotiated(&out, &a, 40);
    check(negotiations(&out) == 1 && disconnects(&out).is_empty(), 41);
    for e in events(&out) {
        if let Event::PeerNegotiated { addr, link, services: s, persistent, height, version, relay, wtxid_relay, .. } = e {
            check(*addr == a && *link == if k == Kind::Inbound { Link::Inbound } else { Link::Outbound }, 42);
            check(*s == ServiceFlags::from(services) && !persistent, 43);
            let want = if v.start_height < 0 { 0 } else { v.start_height as u64 };
            check(*height == want, 44);
            check(*version == if v.version < 70016 { v.version } else { 70016 }, 45);
            check(*relay == v.relay && *wtxid_relay == wt, 46);
        }
    }
    let p = n.peers();
    check(p.len() == 1 && p[0].addr == a && p[0].services == ServiceFlags::from(services), 47);
    // The peer's clock counts from now on, as one sample (see C10): too few to matter.
    check(n.clock.block_time() == n.now.block_time(), 48);
    cover(2);
}

/// Any sequence of handshake messages and delays.
fn handshake(steps: usize, versioned: bool) {
    let k = kind();
    let (mut n, a) = begin(k, 1);
    n.take();
    #[derive(PartialEq, Clone, Copy)]
    enum S {
        Connected,
        Version(bool),
        Negotiated,
        Closing,
    }
    let mut s = S::Connected;
    let mut since = 0u64; // connected, or version received
    let mut pinged = 0u64;
    let mut now = 0u64;
    if versioned {
        n.recv(&a, NetworkMessage::Version(version(FULL, 5)));
        n.take();
        s = S::Version(false);
    }
    for _ in 0..steps {
        let before = s;
        let mut woke = false;
        match choose(6) {
            0 => {
                n.recv(&a, NetworkMessage::Version(version(FULL, 5)));
                s = match s {
                    S::Connected => {
                        since = now;
                        S::Version(false)
                    }
                    _ => S::Closing,
                };
            }
            1 => {
                n.recv(&a, NetworkMessage::Verack);
                s = match s {
                    S::Version(_) => {
                        pinged = now;
                        S::Negotiated
                    }
                    S::Connected => S::Connected,
                    _ => S::Closing,
                };
            }
            2 => {
                n.recv(&a, NetworkMessage::WtxidRelay);
                s = match s {
                    S::Version(_) => S::Version(true),
                    S::Connected => S::Connected,
                    _ => S::Closing,
                };
            }
            3 => {
                let m = u32s();
                n.recv_magic(&a, m, NetworkMessage::Ping(3));
                if m != NET.magic() {
                    s = S::Closing;
                }
            }
            4 => {
                // Some other connection's messages.
                n.recv(&peer(5), [NetworkMessage::Verack, NetworkMessage::Version(version(FULL, 7))][choose(2) as usize].clone());
            }
            _ => {
                // Outputs are acted upon before time passes.
                assume(s != S::Closing);
                let ms = within(15, 0, 30_000);
                n.elapse_ms(ms);
                now += ms;
                n.wake();
                woke = true;
                let late = match s {
                    S::Connected | S::Version(_) => now - since >= 12_000,
                    S::Negotiated => now - pinged >= 30_000,
                    S::Closing => false,
                };
                if late {
                    s = S::Closing;
                }
            }
        }
        let out = n.take();
        if before == S::Connected || matches!(before, S::Version(_)) {
            before_negotiated(&out, &a, 60);
        }
        let d = disconnects(&out).iter().filter(|(x, _)| *x == a).count();
        let negotiated = events(&out)
            .iter()
            .filter(|e| match e {
                Event::PeerNegotiated { wtxid_relay, version, addr, .. } => {
                    check(*addr == a && *version == 70016 && S::Version(*wtxid_relay) == before, 61);
                    true
                }
                _ => false,
            })
            .count();
        check(negotiated == (s == S::Negotiated && before != S::Negotiated) as usize, 62);
        let on = n.peers().len();
        if s == S::Closing {
            // Told to disconnect exactly once, whatever comes after.
            check(d == (before != S::Closing) as usize, 63);
            if before == S::Closing {
                check(writes(&out, &a).is_empty(), 64);
            }
            cover(1);
            if woke || choose(2) == 0 {
                // The connection is gone now.
                n.disconnected(&a, Disconnect::StateMachine(DisconnectReason::Other("done")));
                let out = n.take();
                check(events(&out).iter().filter(|e| matches!(e, Event::PeerDisconnected { addr, .. } if *addr == a)).count() == 1, 65);
                check(n.peers().is_empty(), 66);
                return;
            }
        } else {
            check(d == 0, 67);
            check(on == (s == S::Negotiated) as usize, 68);
            let w = writes(&out, &a);
            match (before, s) {
                (S::Connected, S::Version(_)) => replies(&out, &a, k, 1, n.now),
                (S::Version(_), S::Negotiated) => {
                    check(w.iter().filter(|m| matches!(m, NetworkMessage::Ping(_))).count() == 1, 69);
                    cover(2)
                }
                (S::Connected, _) | (S::Version(_), _) => check(w.is_empty(), 70),
                _ => {}
            }
        }
    }
}
pub fn h_handshake() {
    let v = choose(2) == 1;
    handshake(3, v)
}
pub fn h_handshake4() {
    handshake(4, false)
}

/// A peer that is far behind is of no use, unless trusted or inbound.
pub fn h_version_height() {
    let tall = long_chain(2020);
    let a = peer(1);
    let b = peer(2);
    let mut n = Node::new(config(), tall, book(vec![known(a, FULL, Source::Dns)]));
    n.command(Command::Connect(b));
    n.connected(a, Link::Outbound);
    n.connected(b, Link::Outbound);
    n.connected(peer(3), Link::Inbound);
    n.take();
    let p = peer(1 + choose(3) as u8);
    let h = u32s() as i32;
    n.recv(&p, NetworkMessage::Version(version(FULL, h)));
    let out = n.take();
    let d = disconnects(&out);
    let behind = h < 4 && p == a; // 2020 - 2016
    check(d.len() == behind as usize, 80);
    if behind {
        check(d[0].0 == a && matches!(d[0].1, DisconnectReason::PeerHeight(_)), 81);
        check(writes(&out, &p).is_empty(), 82);
        cover(1);
    } else {
        check(writes(&out, &p).iter().any(|m| matches!(m, NetworkMessage::Verack)), 83);
        cover(2);
    }
}

/// Connections to ourselves are detected: our own nonce comes back.
pub fn h_self_connection() {
    let a = peer(1);
    let inbound: SocketAddr = ([88, 77, 66, 55], 50001).into();
    let mut n = Node::new(config(), chain(1, 600, 1), book(vec![]));
    // Other peers around, with other nonces.
    n.accept(peer(7), FULL, 1);
    n.command(Command::Connect(a));
    n.connected(a, Link::Outbound);
    let out = n.take();
    let ours = match writes(&out, &a)[0] {
        NetworkMessage::Version(v) => v.clone(),
        _ => end(),
    };
    n.connected(inbound, Link::Inbound);
    if choose(2) == 0 {
        // It is us: everything written to one end arrives at the other.
        n.recv(&inbound, NetworkMessage::Version(ours));
        let mut found = false;
        for _ in 0..4 {
            let out = n.take();
            found |= disconnects(&out).iter().any(|(x, r)| (*x == a || *x == inbound) && matches!(r, DisconnectReason::SelfConnection));
            check(negotiations(&out) == 0 || !events(&out).iter().any(|e| matches!(e, Event::PeerNegotiated { addr, .. } if *addr == a)), 85);
            for o in out {
                if let Io::Write(to, m) = o {
                    if to == a {
                        n.recv(&inbound, m.payload);
                    } else if to == inbound {
                        n.recv(&a, m.payload);
                    }
                }
            }
        }
        check(found, 86);
        cover(1);
    } else {
        // They are two others: neither is refused, whatever their nonces, if distinct.
        let (x, y) = (u64s(), u64s());
        assume(x != y);
        let mut v = version(FULL, 1);
        v.nonce = x;
        n.recv(&inbound, NetworkMessage::Version(v.clone()));
        v.nonce = y;
        assume(y != nonce_of(&peer(7)));
        assume(x != nonce_of(&peer(7)));
        n.recv(&a, NetworkMessage::Version(v));
        check(disconnects(&n.take()).is_empty(), 87);
        cover(2);
    }
}

/// Limits and slots: any sequence of connections made, refused and lost.
fn slots(steps: usize, target: usize) {
    const MAX_IN: usize = 2;
    let mut cfg = config();
    cfg.limits.max_outbound_peers = target;
    cfg.limits.max_inbound_peers = MAX_IN;
    // Some only with the required services.
    let all = FULL;
    let some = 1u64;
    let addrs: Vec<(SocketAddr, u64)> = (1..=5u8).map(|i| (peer(i), if i <= 3 { all } else { some })).collect();
    let b = book(addrs.iter().map(|(a, s)| known(*a, *s, Source::Dns)).collect());
    let mut n = Node::new(cfg, chain(0, 0, 0), b);
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum P {
        Dialing,
        Open,
        Full,
        Lesser,
    }
    let mut out: Vec<(SocketAddr, P)> = vec![];
    let mut ins: Vec<SocketAddr> = vec![];
    let mut used: Vec<SocketAddr> = vec![];
    let mut idles = 0;
    for step in 0..=steps {
        // What was decided.
        let o = n.take();
        let primary = |v: &[(SocketAddr, P)]| v.iter().filter(|(_, p)| *p != P::Lesser).count();
        for c in connects(&o) {
            check(!used.contains(&c), 90); // dialled once, not again within these minutes
            check(addrs.iter().any(|(a, _)| *a == c), 91);
            used.push(c);
            out.push((c, P::Dialing));
            check(primary(&out) <= target && out.len() <= target + target / 2, 92);
        }
        for (a, r) in disconnects(&o) {
            if ins.contains(&a) {
                check(matches!(r, DisconnectReason::ConnectionLimit), 93);
            } else {
                // A lesser peer, above the target.
                check(matches!(r, DisconnectReason::ConnectionLimit), 94);
                check(out.iter().any(|(x, p)| *x == a && *p == P::Open), 95);
            }
        }
        if step == 0 {
            check(out.len() == target, 96);
        }
        if step == steps {
            break;
        }
        let mut replenish = false;
        match choose(5) {
            // A dial succeeds and the peer turns out to be this or that.
            0 => {
                let v: Vec<usize> = (0..out.len()).filter(|i| out[*i].1 == P::Dialing).collect();
                assume(!v.is_empty());
                let i = v[choose(v.len() as u64) as usize];
                let a = out[i].0;
                n.connected(a, Link::Outbound);
                out[i].1 = P::Open;
                let services = u64s() | some;
                let lesser = services & (all & !8) != all & !8;
                let others = out.iter().filter(|(_, p)| matches!(p, P::Full | P::Lesser)).count();
                let mut v = version(services, 0);
                v.nonce = 77 + step as u64;
                n.recv(&a, NetworkMessage::Version(v));
                if lesser && others >= target {
                    check(disconnects(&n.out).iter().any(|(x, r)| *x == a && matches!(r, DisconnectReason::ConnectionLimit)), 97);
                    n.disconnected(&a, Disconnect::StateMachine(DisconnectReason::ConnectionLimit));
                    out.remove(i);
                    n.out.retain(|o| !matches!(o, Io::Disconnect(x, _) if *x == a));
                    replenish = true;
                    cover(1);
                } else {
                    check(disconnects(&n.out).is_empty(), 98);
                    n.recv(&a, NetworkMessage::Verack);
                    out[i].1 = if lesser { P::Lesser } else { P::Full };
                }
            }
            // A dial fails or a connection is lost.
            1 => {
                assume(!out.is_empty());
                let i = choose(out.len() as u64) as usize;
                let a = out[i].0;
                let e = std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
                let dialing = out[i].1 == P::Dialing;
                let r = if dialing && choose(2) == 0 { Disconnect::DialError(e) } else { Disconnect::ConnectionError(e) };
                n.disconnected(&a, r);
                out.remove(i);
                let ev = events(&n.out);
                let failed = ev.iter().filter(|e| matches!(e, Event::PeerConnectionFailed { addr, .. } if *addr == a)).count();
                let lost = ev.iter().filter(|e| matches!(e, Event::PeerDisconnected { addr, .. } if *addr == a)).count();
                check((failed, lost) == if dialing { (1, 0) } else { (0, 1) }, 99);
                replenish = true;
            }
            // Somebody connects.
            2 => {
                assume(ins.len() <= MAX_IN);
                let a = peer(20 + ins.len() as u8);
                ins.push(a);
                n.connected(a, Link::Inbound);
                let refused = disconnects(&n.out).iter().any(|(x, _)| *x == a);
                check(refused == (ins.len() > MAX_IN), 100);
                if refused {
                    n.disconnected(&a, Disconnect::StateMachine(DisconnectReason::ConnectionLimit));
                    ins.pop();
                    n.out.retain(|o| !matches!(o, Io::Disconnect(x, _) if *x == a));
                    replenish = true;
                    cover(2);
                }
            }
            // An inbound one leaves.
            3 => {
                assume(!ins.is_empty());
                let a = ins.pop().unwrap();
                n.disconnected(&a, Disconnect::ConnectionError(std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset))));
                replenish = true;
            }
            // A minute passes without a dial being answered: it is given up.
            _ => {
                assume(idles == 0);
                idles += 1;
                let ms = within(13, 1, 5_999);
                n.elapse_ms(ms);
                n.wake();
                check(disconnects(&n.out).is_empty(), 101);
                n.elapse_ms(6_000 - ms);
                n.wake();
                let gone: Vec<SocketAddr> = disconnects(&n.out).iter().map(|(a, _)| *a).collect();
                let dialing: Vec<SocketAddr> = out.iter().filter(|(_, p)| *p == P::Dialing).map(|(a, _)| *a).collect();
                check(gone.len() == dialing.len() && dialing.iter().all(|a| gone.contains(a)), 102);
                out.retain(|(_, p)| *p != P::Dialing);
                for a in gone {
                    n.disconnected(&a, Disconnect::StateMachine(DisconnectReason::PeerTimeout("connection")));
                }
                n.out.retain(|o| !matches!(o, Io::Disconnect(..)));
                replenish = !dialing.is_empty();
                // Inbound peers that never said anything time out later than this.
            }
        }
        if replenish {
            // As many dials as there are free slots and fresh addresses for them.
            let dials = connects(&n.out).len();
            let negotiated = out.iter().filter(|(_, p)| matches!(p, P::Full | P::Lesser)).count();
            let free = (target - primary(&out).min(target)).min((target + target / 2) - out.len().min(target + target / 2));
            let fresh = addrs.iter().filter(|(a, s)| !used.contains(a) && (*s == all || negotiated < target)).count();
            check(dials == free.min(fresh), 103);
            if dials > 0 {
                cover(3);
            }
        }
    }
}
pub fn h_slots() {
    slots(3, 2)
}
pub fn h_slots4() {
    let t = 1 + choose(2) as usize;
    slots(4, t)
}

/// A peer the user asked for permanently is dialled again, each time waiting twice as long.
pub fn h_persistent() {
    let a = peer(1);
    let mut n = Node::new(nakamoto_p2p::fsm::Config::from(NET, vec![a]), chain(1, 600, 1), book(vec![known(peer(2), FULL, Source::Dns)]));
    check(connects(&n.take()) == [a], 110);
    let mut tries = 0u32;
    for _ in 0..3 {
        // The attempt fails, or succeeds and the connection is lost later.
        match choose(3) {
            0 => {}
            1 => {
                n.connected(a, Link::Outbound);
                tries = 0;
            }
            _ => {
                n.connected(a, Link::Outbound);
                n.shake(a, FULL, 1);
                tries = 0;
            }
        }
        n.disconnected(&a, Disconnect::ConnectionError(std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset))));
        check(connects(&n.take()).is_empty(), 111);
        let wait = 1000u64 << tries;
        tries += 1;
        // Woken up at any time: dialled when the wait is over, and not before.
        let ms = within(14, 0, 16_000);
        n.elapse_ms(ms);
        n.wake();
        let c = connects(&n.take());
        if ms < wait {
            check(c.is_empty(), 112);
            n.elapse_ms(wait - ms);
            n.wake();
            check(connects(&n.take()) == [a], 113);
            cover(1);
        } else {
            check(c == [a], 114);
        }
    }
    cover(2);
}
/// ... but never more than an hour.
pub fn h_persistent_long() {
    let a = peer(1);
    let mut n = Node::new(nakamoto_p2p::fsm::Config::from(NET, vec![a]), chain(1, 600, 1), book(vec![]));
    n.take();
    for i in 0..80u32 {
        n.disconnected(&a, Disconnect::ConnectionError(std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset))));
        let wait = if i < 12 { 1000u64 << i } else { 3_600_000 };
        let wait = wait.min(3_600_000);
        if i < 15 || i > 60 {
            n.elapse_ms(wait - 1);
            n.wake();
            check(connects(&n.take()).is_empty(), 115);
            n.elapse_ms(1);
        } else {
            n.elapse_ms(wait);
        }
        n.wake();
        check(connects(&n.take()) == [a], 116);
    }
    cover(1);
}

/// Dead peers are found by pings; pings are answered.
fn pings(steps: usize) {
    let a = peer(1);
    let b = peer(2);
    let mut n = Node::new(config(), chain(0, 0, 0), book(vec![]));
    if choose(2) == 0 {
        n.accept(a, FULL, 0);
    } else {
        n.dial(a, FULL, 0);
    }
    // Another one that has only connected.
    n.connected(b, Link::Inbound);
    let mut now = 0u64;
    let mut awaiting: Option<u64> = None;
    let mut since = 0u64;
    let out = n.take();
    for m in writes(&out, &a) {
        if let NetworkMessage::Ping(x) = m {
            check(awaiting.is_none(), 120);
            awaiting = Some(*x);
        }
    }
    check(awaiting.is_some(), 121);
    for _ in 0..steps {
        match choose(4) {
            // A ping is answered with its nonce, to the one who sent it.
            0 => {
                let x = u64s();
                n.recv(&a, NetworkMessage::Ping(x));
                let out = n.take();
                let w = writes(&out, &a);
                check(w.len() == 1 && matches!(w[0], NetworkMessage::Pong(y) if *y == x), 122);
                check(out.len() == 1, 123);
            }
            // ... but not before the handshake.
            1 => {
                n.recv(&b, NetworkMessage::Ping(u64s()));
                n.recv(&b, NetworkMessage::Pong(u64s()));
                check(n.take().is_empty(), 124);
            }
            // Any pong: only the right one counts.
            2 => {
                let x = u64s();
                n.recv(&a, NetworkMessage::Pong(x));
                check(n.take().is_empty(), 125);
                if let Some(y) = awaiting {
                    if x == y {
                        awaiting = None;
                        since = now;
                        cover(1);
                    }
                }
            }
            _ => {
                // Just below or above what matters; anything within.
                let ms = within(18, 1, 150_000);
                n.elapse_ms(ms);
                now += ms;
                n.wake();
                let out = n.take();
                let gone = disconnects(&out).iter().any(|(x, _)| *x == a);
                let sent = writes(&out, &a).iter().filter(|m| matches!(m, NetworkMessage::Ping(_))).count();
                if awaiting.is_some() {
                    check(gone == (now - since >= 30_000), 126);
                    check(sent == 0, 127);
                    if gone {
                        check(disconnects(&out).iter().all(|(x, r)| *x != a || matches!(r, DisconnectReason::PeerTimeout(_))), 128);
                        cover(2);
                        return;
                    }
                } else {
                    check(!gone, 129);
                    check(sent == (now - since >= 120_000) as usize, 130);
                    if sent == 1 {
                        for m in writes(&out, &a) {
                            if let NetworkMessage::Ping(x) = m {
                                awaiting = Some(*x);
                            }
                        }
                        since = now;
                        // The reactor is told to come back in time.
                        check(out.iter().any(|o| matches!(o, Io::SetTimer(d) if d.as_millis() <= 30_000)), 131);
                        cover(3);
                    }
                }
            }
        }
    }
}
pub fn h_ping() {
    pings(3)
}
pub fn h_ping4() {
    pings(4)
}
