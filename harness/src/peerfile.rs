//! The file of known peer addresses.
use crate::nk::*;
use crate::util::*;
use nakamoto_client::peer::{Cache, KnownAddress, Source, Store};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::block::time::LocalTime;
use std::net::SocketAddr;

fn addr(i: u64) -> SocketAddr {
    match i {
        0 => ([44, 1, 2, 3], 8333).into(),
        1 => ([255, 255, 255, 255], 65535).into(),
        2 => "[2604:a880:4:1d0::27:d000]:18333".parse().unwrap(),
        _ => "[::1]:1".parse().unwrap(),
    }
}
/// Some numbers around powers of ten, and at the ends of the range.
fn number() -> u64 {
    let v = sym(3);
    [0u64, 96, 1_599_999_996, u32::MAX as u64 - 7][choose(4) as usize] + v
}
fn entry(i: u64) -> KnownAddress {
    let mut ka = plain(i);
    let t = match choose(2) {
        0 => None,
        _ => Some(LocalTime::from_secs(number())),
    };
    match choose(4) {
        0 => ka.last_success = t,
        1 => ka.last_sampled = t,
        2 => ka.last_attempt = t,
        _ => ka.last_active = t,
    }
    ka
}
fn plain(i: u64) -> KnownAddress {
    KnownAddress {
        addr: Address::new(&addr(i), ServiceFlags::from([1, u64::MAX - 3][i as usize % 2])),
        source: [Source::Dns, Source::Imported, Source::Peer(addr(1)), Source::Peer(addr(2))][i as usize],
        last_success: Some(LocalTime::from_secs(100 + i)),
        last_sampled: Some(LocalTime::from_secs(2000 + i)),
        last_attempt: None,
        last_active: Some(LocalTime::from_secs(30000 + i)),
    }
}
/// What was flushed is read back.
pub fn h_peer_file() {
    let path = scratch("peers.json");
    let i = choose(4);
    let mut ka = entry(i);
    if choose(2) == 1 {
        ka.addr.services = ServiceFlags::from(sym(4));
    }
    let mut c = Cache::create(&path).unwrap();
    check(c.insert(addr(i).ip(), ka.clone()), 1);
    c.flush().unwrap();
    drop(c);
    let c = Cache::open(&path).unwrap();
    check(c.len() == 1, 2);
    check(c.get(&addr(i).ip()) == Some(&ka), 3);
    cover(1);
}
/// Any sequence of changes, flushes and restarts.
pub fn h_peer_file_ops() {
    let path = scratch("peers.json");
    let mut c = Cache::create(&path).unwrap();
    let mut m: Vec<(u64, KnownAddress)> = vec![];
    let mut disk: Vec<(u64, KnownAddress)> = vec![];
    for _ in 0..4 {
        match choose(5) {
            0 => {
                let i = choose(3);
                let mut ka = plain(i);
                ka.last_attempt = Some(LocalTime::from_secs(990 + sym(4)));
                let new = !m.iter().any(|(j, _)| *j == i);
                check(c.insert(addr(i).ip(), ka.clone()) == new, 11);
                if new {
                    m.push((i, ka));
                }
            }
            1 => {
                assume(!m.is_empty());
                let (i, ka) = m.remove(choose(m.len() as u64) as usize);
                check(c.remove(&addr(i).ip()) == Some(ka), 12);
                check(c.remove(&addr(i).ip()).is_none(), 13);
            }
            2 => {
                assume(!m.is_empty());
                let k = choose(m.len() as u64) as usize;
                let t = Some(LocalTime::from_secs(1_600_000_000 + sym(2)));
                m[k].1.last_active = t;
                c.get_mut(&addr(m[k].0).ip()).unwrap().last_active = t;
            }
            3 => {
                c.flush().unwrap();
                disk = m.clone();
            }
            _ => {
                drop(c);
                c = Cache::open(&path).unwrap();
                m = disk.clone();
                cover(1);
            }
        }
        check(c.len() == m.len() && c.iter().count() == m.len(), 14);
        for (i, ka) in &m {
            check(c.get(&addr(*i).ip()) == Some(ka), 15);
        }
    }
}
/// Files with any byte replaced, or cut anywhere, never make it fail but with an error.
pub fn h_peer_file_damaged() {
    damaged(6)
}
pub fn h_peer_file_damaged_all() {
    damaged(1)
}
fn damaged(every: usize) {
    let path = scratch("peers.json");
    let mut c = Cache::create(&path).unwrap();
    let mut ka = plain(2);
    ka.source = Source::Imported;
    c.insert(addr(2).ip(), ka);
    c.flush().unwrap();
    drop(c);
    let mut b = std::fs::read(&path).unwrap();
    let p = choose(((b.len() + every - 1) / every) as u64) as usize * every;
    if choose(2) == 0 {
        // Not into a fraction or exponent: floating point stays concrete.
        let x = u8s();
        assume(x != b'.' && x != b'e' && x != b'E');
        b[p] = x;
    } else {
        b.truncate(p);
    }
    std::fs::write(&path, &b).unwrap();
    match Cache::open(&path) {
        Ok(c) => {
            check(c.len() <= 1, 21);
            cover(1)
        }
        Err(_) => cover(2),
    }
}
