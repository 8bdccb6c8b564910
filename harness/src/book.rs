//! The address book.
use crate::nk::*;
use crate::node::*;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::block::time::{Clock, LocalTime};
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_net::{Disconnect, Link};
use nakamoto_p2p::fsm::{Command, DisconnectReason, Io};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};

fn lost() -> Disconnect<DisconnectReason> {
    Disconnect::ConnectionError(std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset)))
}
/// (address, is it of the public internet)
fn addresses() -> Vec<(IpAddr, bool)> {
    let v4 = |a: u8, b: u8, c: u8, d: u8| IpAddr::V4(Ipv4Addr::new(a, b, c, d));
    vec![
        (v4(44, 1, 2, 3), true),
        (v4(9, 255, 255, 255), true),
        (v4(10, 0, 0, 1), false),
        (v4(10, 255, 255, 255), false),
        (v4(11, 0, 0, 1), true),
        (v4(0, 1, 2, 3), false),
        (v4(1, 0, 0, 0), true),
        (v4(126, 255, 1, 1), true),
        (v4(127, 0, 0, 1), false),
        (v4(127, 255, 0, 9), false),
        (v4(169, 253, 1, 1), true),
        (v4(169, 254, 1, 1), false),
        (v4(172, 15, 255, 1), true),
        (v4(172, 16, 0, 1), false),
        (v4(172, 31, 255, 1), false),
        (v4(172, 32, 0, 1), true),
        (v4(192, 167, 1, 1), true),
        (v4(192, 168, 1, 1), false),
        (v4(192, 169, 1, 1), true),
        (v4(192, 0, 2, 1), false),
        (v4(198, 51, 100, 7), false),
        (v4(203, 0, 113, 7), false),
        (v4(255, 255, 255, 255), false),
        ("2604:a880:4:1d0::27:d000".parse().unwrap(), true),
    ]
}

/// One address, announced by a peer or imported.
pub fn h_addr_taken() {
    let mut cfg = config();
    cfg.domains = match choose(3) {
        0 => Domain::all(),
        1 => vec![Domain::IPV4],
        _ => vec![Domain::IPV6],
    };
    let required = [0u64, 1, 65][choose(3) as usize];
    cfg.required_services = ServiceFlags::from(required);
    cfg.limits.max_outbound_peers = 0;
    let domains = cfg.domains.clone();
    let b = book(vec![]);
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    let from = peer(1);
    n.accept(from, FULL, 0);
    n.take();
    let all = addresses();
    let (ip, public) = all[choose(all.len() as u64) as usize];
    let a: SocketAddr = (ip, 18444).into();
    let services = u64s();
    let time = u32s();
    let addr = Address::new(&a, ServiceFlags::from(services));
    let imported = choose(2) == 1;
    if imported {
        n.command(Command::ImportAddresses(vec![addr.clone()]));
    } else {
        n.recv(&from, NetworkMessage::Addr(vec![(time, addr.clone())]));
    }
    check(disconnects(&n.out).is_empty(), 1);
    let domain = if a.is_ipv4() { Domain::IPV4 } else { Domain::IPV6 };
    let place = public && domains.contains(&domain);
    let timely = imported || (time != 0 && time as u64 <= T0 + 3600);
    let serves = services & required == required && services & 6 == 0;
    match b.map().get(&ip) {
        Some(ka) => {
            check(place && timely && serves, 2);
            check(ka.addr == addr, 3);
            check(ka.source == if imported { Source::Imported } else { Source::Peer(from) }, 4);
            check(ka.last_active == if imported { None } else { Some(LocalTime::from_secs(time as u64)) }, 5);
            check(ka.last_attempt.is_none() && ka.last_success.is_none() && ka.last_sampled.is_none(), 6);
            check(b.map().len() == 1, 7);
            cover(1);
        }
        None => {
            check(!(place && timely && serves), 8);
            check(b.map().is_empty(), 9);
            cover(2);
        }
    }
}

/// Own, known and banned addresses, whoever announces them.
pub fn h_addr_refused() {
    let mut cfg = config();
    cfg.limits.max_outbound_peers = 0;
    let old = peer(3);
    let in_book = choose(2) == 1;
    let mut v = vec![known(old, 9, Source::Dns)];
    // One that is going to be connected to us and leave.
    let other = peer(4);
    if in_book {
        v.push(known(other, 9, Source::Dns));
    }
    let b = book(v);
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    let from = peer(1);
    n.accept(from, FULL, 0);
    n.accept(other, FULL, 0);
    let bad = match choose(6) {
        0 => {
            // Talks about another network.
            n.recv_magic(&other, 0x1234_5678, NetworkMessage::Ping(1));
            let out = n.take();
            check(disconnects(&out).iter().any(|(x, r)| *x == other && matches!(r, DisconnectReason::PeerMagic(_))), 11);
            n.disconnected(&other, Disconnect::StateMachine(DisconnectReason::PeerMagic(0x1234_5678)));
            true
        }
        1 => {
            n.disconnected(&other, Disconnect::StateMachine(DisconnectReason::PeerMisbehaving("...")));
            true
        }
        2 => {
            n.disconnected(&other, Disconnect::StateMachine(DisconnectReason::PeerTimeout("...")));
            false
        }
        3 => {
            n.disconnected(&other, lost());
            false
        }
        4 => {
            n.disconnected(&other, Disconnect::StateMachine(DisconnectReason::SelfConnection));
            true
        }
        _ => {
            n.disconnected(&other, Disconnect::StateMachine(DisconnectReason::ConnectionLimit));
            false
        }
    };
    n.take();
    check(b.map().contains_key(&other.ip()) == (in_book && !bad), 12);
    let services = u64s();
    assume(services & 1 == 1 && services & 6 == 0);
    let time = u32s();
    assume(time > 0 && time as u64 <= T0);
    let fresh = peer(5);
    // The port may differ.
    let port = [18444u16, 1000][choose(2) as usize];
    let mut list: Vec<SocketAddr> = vec![local(), old, other, fresh];
    if choose(2) == 1 {
        list.reverse();
    }
    for a in list.iter_mut() {
        if *a != local() {
            a.set_port(port);
        }
    }
    let list: Vec<(u32, Address)> = list.iter().map(|a| (time, Address::new(a, ServiceFlags::from(services)))).collect();
    let before = b.map().get(&old.ip()).cloned();
    match choose(2) {
        0 => n.recv(&from, NetworkMessage::Addr(list)),
        _ => n.command(Command::ImportAddresses(list.into_iter().map(|(_, a)| a).collect())),
    }
    check(!b.map().contains_key(&local().ip()), 13);
    check(b.map().get(&old.ip()) == before.as_ref(), 14);
    check(b.map().contains_key(&other.ip()) != bad, 15);
    check(b.map().contains_key(&fresh.ip()), 16);
    check(b.map().len() == 3 - bad as usize, 17);
    if bad {
        cover(1);
    } else {
        cover(2);
    }
}

/// Messages with many addresses; one range does not crowd out the others.
pub fn h_addr_many() {
    let mut cfg = config();
    cfg.limits.max_outbound_peers = 0;
    let others = [peer(3), peer(4)];
    let b = book(others.iter().map(|a| known(*a, FULL, Source::Dns)).collect());
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    let from = peer(1);
    n.accept(from, FULL, 0);
    n.take();
    let k = [0usize, 1, 255, 256, 257, 300, 1000, 1001][choose(8) as usize];
    let spread = choose(2) == 1;
    let time = u32s();
    assume(time > 0 && time as u64 <= T0);
    let list: Vec<(u32, Address)> = (0..k)
        .map(|i| {
            let ip = if spread { Ipv4Addr::new(44, (i / 100) as u8, 1, (i % 100) as u8) } else { Ipv4Addr::new(44, 1, (i / 250) as u8, (i % 250) as u8) };
            (time, Address::new(&(ip, 18444).into(), ServiceFlags::from(FULL)))
        })
        .collect();
    n.recv(&from, NetworkMessage::Addr(list));
    let new = b.map().len() - 2;
    let want = match k {
        0 | 1001 => 0,
        _ if spread => k,
        _ => k.min(256),
    };
    check(new == want, 21);
    check(others.iter().all(|a| b.map().contains_key(&a.ip())), 22);
    // Everything goes on working with it.
    n.take();
    n.recv(&from, NetworkMessage::GetAddr);
    let out = n.take();
    shared(&out, &from, &b);
    cover(1);
}
/// What is shared: one per range, all out of the book.
fn shared(out: &[Io], to: &SocketAddr, b: &Book) -> usize {
    let w = writes(out, to);
    check(w.len() == 1 && out.len() == 1, 30);
    match w[0] {
        NetworkMessage::Addr(v) => {
            let mut keys = vec![];
            for (t, a) in v {
                let s = a.socket_addr().unwrap();
                let ka = b.map().get(&s.ip());
                check(ka.is_some(), 31);
                let ka = ka.unwrap();
                check(ka.addr == *a, 32);
                check(ka.last_active.map_or(0, |x| x.block_time()) == *t, 33);
                if let IpAddr::V4(x) = s.ip() {
                    let key = (x.octets()[0], x.octets()[1]);
                    check(!keys.contains(&key), 34);
                    keys.push(key);
                }
            }
            // Every range is there (unless two fall together).
            let mut ranges: Vec<u16> = vec![];
            for ip in b.map().keys() {
                if let IpAddr::V4(x) = ip {
                    let k = (x.octets()[0] as u16 * 256 + x.octets()[1] as u16) % 255;
                    if !ranges.contains(&k) {
                        ranges.push(k);
                    }
                }
            }
            check(v.len() == ranges.len(), 35);
            check(v.len() <= 1000, 36);
            v.len()
        }
        _ => {
            check(false, 37);
            0
        }
    }
}

/// Requests for addresses.
pub fn h_getaddr() {
    let mut cfg = config();
    cfg.limits.max_outbound_peers = 0;
    let k = choose(4) as u8;
    let mut v = vec![];
    for i in 0..k {
        let a: SocketAddr = ([44, 1 + i / 2, 3, i], 18444).into();
        let (ip, mut ka) = known(a, u64s(), Source::Dns);
        ka.last_active = match choose(2) {
            0 => None,
            _ => Some(LocalTime::from_secs(u32s() as u64)),
        };
        v.push((ip, ka));
    }
    let b = book(v);
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    let from = peer(1);
    if choose(2) == 0 {
        n.accept(from, FULL, 0);
    } else {
        n.dial(from, FULL, 0);
    }
    n.take();
    n.recv(&from, NetworkMessage::GetAddr);
    let out = n.take();
    if shared(&out, &from, &b) > 0 {
        cover(1);
    }
}

/// Which addresses are dialled.
pub fn h_dialled() {
    let mut cfg = config();
    let target = 1 + choose(2) as usize;
    cfg.limits.max_outbound_peers = target;
    let k = 3u8;
    let mut v: Vec<(SocketAddr, KnownAddress)> = vec![];
    for i in 0..k {
        let a: SocketAddr = ([44 + i, 7, 3, 1], 18444).into();
        let (_, mut ka) = known(a, u64s(), [Source::Dns, Source::Imported, Source::Peer(peer(9))][i as usize % 3]);
        match choose(3) {
            0 => {}
            1 => ka.last_attempt = Some(LocalTime::from_secs(T0 - 86_400)),
            _ => {
                ka.last_attempt = Some(LocalTime::from_secs(T0 - 86_400));
                ka.last_success = Some(LocalTime::from_secs(T0 - 86_400));
            }
        }
        if i == 0 {
            ka.last_sampled = Some(LocalTime::from_secs(u32s() as u64));
        }
        v.push((a, ka));
    }
    let eligible = |ka: &KnownAddress| {
        !(ka.last_attempt.is_some() && ka.last_success.is_none()) && ka.last_sampled.map_or(true, |t| t.as_secs() + 180 <= T0)
    };
    let pref = |ka: &KnownAddress| ka.addr.services.to_u64() & 65 == 65;
    let req = |ka: &KnownAddress| ka.addr.services.to_u64() & 1 == 1;
    let b = book(v.iter().map(|(a, k)| (a.ip(), k.clone())).collect());
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    let out = n.take();
    let c = connects(&out);
    let count = v.iter().filter(|(_, k)| eligible(k)).count();
    check(c.len() == count.min(target), 41);
    for (i, a) in c.iter().enumerate() {
        check(!c[..i].contains(a), 42);
        let found = v.iter().find(|(x, _)| x == a);
        check(found.is_some(), 43);
        let ka = &found.unwrap().1;
        check(eligible(ka), 44);
        // Never in place of a better one.
        for (x, k) in v.iter() {
            if !c.contains(x) && eligible(k) {
                check(pref(ka) || !pref(k), 45);
                check(req(ka) || !req(k), 46);
            }
        }
        // Recorded as tried.
        let now = &b.map()[&a.ip()];
        check(now.last_attempt == Some(LocalTime::from_secs(T0)) && now.last_sampled == Some(LocalTime::from_secs(T0)), 47);
        cover(1);
    }
    if c.len() < target {
        cover(2);
    }
}

/// The same address again: not while connected, not within three minutes.
pub fn h_redialled() {
    let mut cfg = config();
    cfg.limits.max_outbound_peers = 1;
    let a = peer(1);
    let (ip, mut ka) = known(a, FULL, Source::Peer(peer(9)));
    ka.last_success = Some(LocalTime::from_secs(T0 - 3600));
    ka.last_attempt = ka.last_success;
    let b = book(vec![(ip, ka)]);
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    check(connects(&n.take()) == [a], 51);
    let ok = choose(2) == 1;
    if ok {
        n.connected(a, Link::Outbound);
        n.shake(a, FULL, 0);
        check(b.map()[&ip].last_success == Some(n.now) && b.map()[&ip].last_active == Some(n.now), 52);
        n.take();
    }
    n.disconnected(&a, lost());
    check(connects(&n.take()).is_empty(), 53);
    // Woken up at any times.
    let mut t = 0u64;
    for _ in 0..3 {
        let ms = within(18, 1, 250_000);
        n.elapse_ms(ms);
        t += ms;
        n.wake();
        let c = connects(&n.take());
        if t < 180_000 {
            check(c.is_empty(), 54);
        } else {
            check(c.len() <= 1 && c.iter().all(|x| *x == a), 55);
            if !c.is_empty() {
                cover(1);
                return;
            }
        }
    }
    // ... and at last, once the reactor's timers have run.
    let mut done = false;
    for _ in 0..6 {
        n.elapse_ms(60_000);
        n.wake();
        done |= !connects(&n.take()).is_empty();
    }
    check(done, 56);
}

fn answer(n: &mut Node, to: &SocketAddr, out: &[Io]) {
    for m in writes(out, to) {
        if let NetworkMessage::Ping(x) = m {
            n.recv(to, NetworkMessage::Pong(*x));
        }
    }
}
/// An address that fails is not tried again; one connected to already is not dialled.
pub fn h_not_dialled() {
    let mut cfg = config();
    cfg.limits.max_outbound_peers = 1;
    let (a, c) = (peer(1), peer(2));
    let b = book(vec![known(a, FULL, Source::Dns), known(c, 9, Source::Dns)]);
    let mut n = Node::new(cfg, chain(0, 0, 0), b.clone());
    // The better one first.
    check(connects(&n.take()) == [a], 61);
    let which = choose(2);
    let inbound: SocketAddr = (c.ip(), 40_000 + (choose(2) * 11) as u16).into();
    if which == 0 {
        // The other one connects to us.
        n.accept(inbound, FULL, 0);
        let out = n.take();
        answer(&mut n, &inbound, &out);
    }
    n.disconnected(&a, lost());
    let mut seen = connects(&n.take());
    for _ in 0..3 {
        let ms = within(18, 59_000, 200_000);
        n.elapse_ms(ms);
        n.wake();
        // The inbound peer stays alive.
        if which == 0 {
            let out = n.take();
            answer(&mut n, &inbound, &out);
            n.out.splice(0..0, out);
        }
        for x in disconnects(&n.out).iter().map(|x| x.0).collect::<Vec<_>>() {
            if x != inbound {
                n.disconnected(&x, Disconnect::StateMachine(DisconnectReason::PeerTimeout("connection")));
            } else {
                check(false, 62);
            }
        }
        seen.extend(connects(&n.take()));
    }
    check(!seen.contains(&a), 63);
    if which == 0 {
        check(seen.is_empty(), 64);
        cover(1);
    } else {
        check(seen == [c], 65);
        cover(2);
    }
}

/// Out of addresses: peers we chose are asked for more, at most once a minute.
pub fn h_exhausted() {
    let mut cfg = config();
    cfg.limits.max_outbound_peers = 2;
    let a = peer(1);
    let known_before = choose(2) == 1;
    let (ip, mut ka) = known(a, FULL, Source::Dns);
    if known_before {
        ka.last_success = Some(LocalTime::from_secs(T0 - 3600));
        ka.last_attempt = ka.last_success;
    }
    let mut n = Node::new(cfg, chain(0, 0, 0), book(vec![(ip, ka)]));
    n.connected(a, Link::Outbound);
    n.shake(a, FULL, 0);
    let inbound = peer(5);
    n.accept(inbound, FULL, 0);
    let out = n.take();
    let asked = |out: &[Io], a: &SocketAddr| writes(out, a).iter().filter(|m| matches!(m, NetworkMessage::GetAddr)).count();
    check(asked(&out, &a) == !known_before as usize && asked(&out, &inbound) == 0, 71);
    answer(&mut n, &a, &out);
    answer(&mut n, &inbound, &out);
    let mut last: Option<u64> = None;
    let mut t = 0u64;
    for _ in 0..2 {
        let ms = within(17, 1, 100_000);
        n.elapse_ms(ms);
        t += ms;
        n.wake();
        let out = n.take();
        answer(&mut n, &a, &out);
        answer(&mut n, &inbound, &out);
        check(asked(&out, &inbound) == 0, 72);
        let due = last.map_or(true, |l| t - l >= 60_000);
        check(asked(&out, &a) == due as usize, 73);
        if due {
            last = Some(t);
            cover(1);
        } else {
            cover(2);
        }
    }
    // Nor are peers that are gone.
    let io = || std::sync::Arc::new(std::io::ErrorKind::Other.into());
    let reason = match choose(3) {
        0 => Disconnect::ConnectionError(io()),
        1 => Disconnect::DialError(io()),
        _ => Disconnect::StateMachine(DisconnectReason::PeerTimeout("x")),
    };
    n.disconnected(&a, reason);
    n.take();
    n.elapse_ms(60_000);
    n.wake();
    check(asked(&n.take(), &a) == 0, 74);
}
