//! Persistent header storage.
use crate::nk::*;
use crate::util::*;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_chain::store::{Genesis, Store};
use nakamoto_common::bitcoin::consensus::{Decodable, Encodable};
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::{BlockHash, BlockHeader, TxMerkleNode};
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters};
use nakamoto_common::network::Network;
use std::path::Path;

type File<H> = nakamoto_chain::store::File<H>;

/// Things that can be stored: distinct ones with symbolic contents.
trait Item: 'static + Copy + Encodable + Decodable {
    const SIZE: u64;
    fn first() -> Self;
    fn fresh(id: u8) -> Self;
    fn same(&self, o: &Self) -> bool;
}
impl Item for BlockHeader {
    const SIZE: u64 = 80;
    fn first() -> Self {
        Network::Regtest.genesis()
    }
    fn fresh(id: u8) -> Self {
        BlockHeader {
            version: u32s() as i32,
            prev_blockhash: BlockHash::from_inner([id; 32]),
            merkle_root: TxMerkleNode::from_inner([id ^ 0x55; 32]),
            time: u32s(),
            bits: u32s(),
            nonce: u32s(),
        }
    }
    fn same(&self, o: &Self) -> bool {
        (self.version == o.version)
            & (self.prev_blockhash == o.prev_blockhash)
            & (self.merkle_root == o.merkle_root)
            & (self.time == o.time)
            & (self.bits == o.bits)
            & (self.nonce == o.nonce)
    }
}
fn hash32(id: u8) -> [u8; 32] {
    let mut h = [id; 32];
    h[0] = u8s();
    h[31] = u8s();
    h
}
impl Item for StoredHeader {
    const SIZE: u64 = 64;
    fn first() -> Self {
        StoredHeader::genesis(Network::Regtest)
    }
    fn fresh(id: u8) -> Self {
        StoredHeader { hash: FilterHash::from_inner(hash32(id)), header: FilterHeader::from_inner(hash32(id ^ 0x55)) }
    }
    fn same(&self, o: &Self) -> bool {
        (self.hash == o.hash) & (self.header == o.header)
    }
}

/// Everything the store shows is the model.
fn agrees<H: Item>(s: &File<H>, model: &[H], base: u64) {
    check(s.len().ok() == Some(model.len()), base + 1);
    check(s.height().ok() == Some(model.len() as u64 - 1), base + 2);
    check(s.check().is_ok(), base + 3);
    for (i, h) in model.iter().enumerate() {
        match s.get(i as u64) {
            Ok(x) => check(x.same(h), base + 4),
            Err(_) => check(false, base + 5),
        }
    }
    check(s.get(model.len() as u64).is_err(), base + 6);
    let mut n = 0;
    for r in s.iter() {
        match r {
            Ok((h, x)) => {
                check(h == n as u64 && n < model.len(), base + 7);
                check(x.same(&model[n]), base + 8);
            }
            Err(_) => check(false, base + 9),
        }
        n += 1;
    }
    check(n == model.len(), base + 10);
    check(s.genesis().same(&H::first()), base + 11);
}

fn put<H: Item>(s: &mut File<H>, model: &mut Vec<H>, n: usize, base: u64) {
    let from = model.len();
    for _ in 0..n {
        model.push(H::fresh(model.len() as u8));
    }
    let r = s.put(model[from..].iter().copied());
    check(r.ok() == Some(model.len() as u64 - 1), base + 12);
}

/// Any sequence of operations, then a crash in the middle of one, then recovery.
fn ops<H: Item>(path: &Path, steps: usize) {
    let mut s = File::open(path, H::first()).unwrap();
    let mut model = vec![H::first()];
    agrees(&s, &model, 0);
    for _ in 0..steps {
        match choose(4) {
            0 => put(&mut s, &mut model, 1, 0),
            1 => put(&mut s, &mut model, 2, 0),
            2 => {
                let h = choose(model.len() as u64);
                check(s.rollback(h).is_ok(), 13);
                model.truncate(h as usize + 1);
                cover(1);
            }
            _ => {
                check(s.sync().is_ok(), 14);
                drop(s);
                s = File::open(path, H::first()).unwrap();
            }
        }
        agrees(&s, &model, 0);
    }
}
fn crash<H: Item>(path: &Path) {
    let mut s = File::open(path, H::first()).unwrap();
    let mut model = vec![H::first()];
    put(&mut s, &mut model, choose(3) as usize, 20);
    s.sync().unwrap();
    // Possibly a re-organisation, then more headers; the crash hits while they are written.
    let keep = choose(model.len() as u64);
    s.rollback(keep).unwrap();
    model.truncate(keep as usize + 1);
    put(&mut s, &mut model, 2, 20);
    drop(s);
    // Any byte of what was being written.
    let len = concrete(within(16, keep * H::SIZE, (keep + 2) * H::SIZE));
    cut(path, len);
    let mut s = File::open(path, H::first()).unwrap();
    let whole = len / H::SIZE;
    check(s.check().is_ok() == (len % H::SIZE == 0), 33);
    if s.check().is_err() {
        cover(2);
        // Reading must not make up headers, even before healing.
        let n = s.iter().filter(|r| r.is_ok()).count();
        check(n as u64 <= whole + 1, 34);
    }
    check(s.heal().is_ok(), 35);
    model.truncate(whole as usize + 1);
    agrees(&s, &model, 40);
    put(&mut s, &mut model, 1, 40);
    agrees(&s, &model, 40);
    cover(3);
}
/// Iteration reads in batches; chains around the batch size.
fn long<H: Item>(path: &Path) {
    let n = [1, 15, 16, 17, 31, 32, 33, 48][choose(8) as usize];
    let mut s = File::open(path, H::first()).unwrap();
    let mut model = vec![H::first()];
    put(&mut s, &mut model, n, 60);
    agrees(&s, &model, 60);
    let h = [0, 14, 15, 16, 30][choose(5) as usize];
    assume(h < n);
    s.rollback(h as u64).unwrap();
    model.truncate(h + 1);
    agrees(&s, &model, 60);
    put(&mut s, &mut model, 2, 60);
    agrees(&s, &model, 60);
    cover(1);
}
pub fn h_store_ops() {
    ops::<BlockHeader>(&scratch("headers.db"), 3)
}
pub fn h_store_ops4() {
    ops::<BlockHeader>(&scratch("headers.db"), 4)
}
pub fn h_store_crash() {
    crash::<BlockHeader>(&scratch("headers.db"))
}
pub fn h_store_long() {
    long::<BlockHeader>(&scratch("headers.db"))
}
pub fn h_fstore_ops() {
    ops::<StoredHeader>(&scratch("filters.db"), 3)
}
pub fn h_fstore_crash() {
    crash::<StoredHeader>(&scratch("filters.db"))
}
pub fn h_fstore_long() {
    long::<StoredHeader>(&scratch("filters.db"))
}

/// A filter header chain; the contents of the filters are arbitrary but concrete (they are hashed).
fn filters(n: usize, seed: u8) -> Vec<(FilterHash, FilterHeader)> {
    let mut prev = FilterHeader::genesis(Network::Regtest);
    (0..n)
        .map(|i| {
            let hash = FilterHash::from_inner([seed + i as u8; 32]);
            prev = hash.filter_header(&prev);
            (hash, prev)
        })
        .collect()
}
fn shows<S: Store<Header = StoredHeader>>(c: &FilterCache<S>, model: &[(FilterHash, FilterHeader)], base: u64) {
    let n = model.len() as u64;
    check(c.height() == n - 1, base);
    let (a, b) = c.tip();
    check((*a, *b) == model[n as usize - 1], base + 1);
    // Any height, any range.
    let h = u64s();
    match c.get_header(h) {
        Some(x) => {
            check(h < n, base + 2);
            let h = concrete(h);
            check(x == model[h as usize], base + 3);
        }
        None => check(h >= n, base + 4),
    }
    let (lo, hi) = (choose(n + 2), choose(n + 2));
    let got = c.get_headers(lo..=hi);
    let want: Vec<_> = model.iter().enumerate().filter(|(i, _)| *i as u64 >= lo && *i as u64 <= hi).map(|(_, x)| *x).collect();
    check(got == want, base + 5);
}
/// Import, roll back, import another branch, restart.
pub fn h_filter_headers() {
    let net = Network::Regtest;
    let first = StoredHeader::genesis(net);
    let path = scratch("filters.db");
    let mut c = FilterCache::load(File::open(&path, first).unwrap()).unwrap();
    let mut model = vec![(first.hash, first.header)];
    let a = filters(3, 1);
    let k = choose(4) as usize;
    check(c.import_headers(a[..k].to_vec()).ok() == Some(k as u64), 80);
    model.extend_from_slice(&a[..k]);
    check(c.import_headers(a[k..].to_vec()).ok() == Some(3), 81);
    model.extend_from_slice(&a[k..]);
    check(c.verify(net).is_ok(), 82);
    let h = choose(4);
    if h == 0 && choose(2) == 1 {
        check(c.clear().is_ok(), 83);
    } else {
        check(c.rollback(h).is_ok(), 84);
    }
    model.truncate(h as usize + 1);
    check(c.verify(net).is_ok() && c.height() == h, 85);
    let mut prev = model[h as usize].1;
    let b: Vec<_> = (0..2u8)
        .map(|i| {
            let hash = FilterHash::from_inner([0x70 + i; 32]);
            prev = hash.filter_header(&prev);
            (hash, prev)
        })
        .collect();
    check(c.import_headers(b.clone()).ok() == Some(h + 2), 86);
    model.extend(b);
    check(c.verify(net).is_ok(), 87);
    if choose(2) == 0 {
        shows(&c, &model, 90);
    } else {
        drop(c);
        let c = FilterCache::load(File::open(&path, first).unwrap()).unwrap();
        check(c.verify(net).is_ok(), 88);
        shows(&c, &model, 100);
        cover(1);
    }
}
/// A stored filter header chain in which anything was changed does not verify.
pub fn h_filter_verify() {
    let net = Network::Regtest;
    let first = StoredHeader::genesis(net);
    let path = scratch("filters.db");
    let mut s = File::open(&path, first).unwrap();
    let mut model: Vec<StoredHeader> = filters(3, 1).into_iter().map(|(hash, header)| StoredHeader { hash, header }).collect();
    let i = choose(3) as usize;
    let mut changed = true;
    match choose(7) {
        0 => {
            // any change to one byte of one header
            let j = choose(32) as usize;
            let mut x = model[i].header.into_inner();
            x[j] ^= within(8, 1, 255) as u8;
            model[i].header = FilterHeader::from_inner(x);
        }
        1 => {
            // a header that is another value altogether
            let mut x = [0u8; 32];
            for b in x.iter_mut() {
                *b = u8s();
            }
            assume(x != model[i].header.into_inner());
            model[i].header = FilterHeader::from_inner(x);
        }
        2 => {
            let mut x = model[i].hash.into_inner();
            x[choose(32) as usize] ^= 1 << choose(8);
            model[i].hash = FilterHash::from_inner(x);
        }
        3 => model.swap(i, (i + 1) % 3),
        4 => {
            // missing: the rest does not follow any more
            model.remove(i);
            changed = i != 2;
        }
        5 => model.insert(i, model[2 - i]),
        _ => changed = false,
    }
    s.put(model.iter().copied()).unwrap();
    let c = FilterCache::load(s).unwrap();
    check(c.height() == model.len() as u64, 110);
    let ok = c.verify(net).is_ok();
    check(ok != changed, 111);
    if ok {
        cover(1);
    } else {
        cover(2);
    }
}
/// ... and neither does one of another network.
pub fn h_filter_network() {
    let nets = [Network::Regtest, Network::Testnet, Network::Mainnet, Network::Signet];
    let i = choose(4) as usize;
    let j = choose(4) as usize;
    let c = FilterCache::load(File::open(scratch("filters.db"), StoredHeader::genesis(nets[i])).unwrap()).unwrap();
    let same = FilterHeader::genesis(nets[i]) == FilterHeader::genesis(nets[j]);
    check(same == (i == j), 120);
    check(c.verify(nets[j]).is_ok() == same, 121);
    cover(1);
}
