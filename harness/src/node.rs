//! A node: the real protocol state machine, driven the way a reactor drives it.
#![allow(dead_code)]
use crate::nk::*;
use crate::util::*;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::BlockHeader;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::filter::{self, FilterHash, FilterHeader, Filters as _};
use nakamoto_common::block::BlockHash;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source, Store};
use std::cell::UnsafeCell;
use std::rc::Rc;
use nakamoto_net::{Disconnect, Link, StateMachine as _};
use nakamoto_p2p::fsm::{Command, Config, DisconnectReason, Event, Io, PeerId, StateMachine};
use std::borrow::Cow;
use std::ops::RangeInclusive;
use std::collections::HashMap;
use std::net::{IpAddr, SocketAddr};

pub type Tree = BlockCache<Memory<BlockHeader>>;
pub type StoredFilters = FilterCache<Memory<StoredHeader>>;
/// The filter headers, shared so that they can be looked at.
#[derive(Clone)]
pub struct Filters(Rc<UnsafeCell<StoredFilters>>);
impl Filters {
    pub fn all(&self) -> &mut StoredFilters {
        unsafe { &mut *self.0.get() }
    }
}
impl filter::Filters for Filters {
    fn get_headers(&self, range: RangeInclusive<u64>) -> Vec<(FilterHash, FilterHeader)> {
        self.all().get_headers(range)
    }
    fn get_header(&self, height: u64) -> Option<(FilterHash, FilterHeader)> {
        self.all().get_header(height)
    }
    fn import_headers(&mut self, headers: Vec<(FilterHash, FilterHeader)>) -> Result<u64, filter::Error> {
        self.all().import_headers(headers)
    }
    fn tip(&self) -> (&FilterHash, &FilterHeader) {
        filter::Filters::tip(self.all())
    }
    fn height(&self) -> u64 {
        filter::Filters::height(self.all())
    }
    fn rollback(&mut self, height: u64) -> Result<(), filter::Error> {
        filter::Filters::rollback(self.all(), height)
    }
    fn clear(&mut self) -> Result<(), filter::Error> {
        filter::Filters::clear(self.all())
    }
}
/// The address book, shared so that it can be looked at.
#[derive(Clone)]
pub struct Book(Rc<UnsafeCell<HashMap<IpAddr, KnownAddress>>>);
impl Book {
    pub fn map(&self) -> &mut HashMap<IpAddr, KnownAddress> {
        unsafe { &mut *self.0.get() }
    }
}
impl Store for Book {
    fn get(&self, ip: &IpAddr) -> Option<&KnownAddress> {
        Store::get(self.map(), ip)
    }
    fn get_mut(&mut self, ip: &IpAddr) -> Option<&mut KnownAddress> {
        Store::get_mut(self.map(), ip)
    }
    fn insert(&mut self, ip: IpAddr, ka: KnownAddress) -> bool {
        Store::insert(self.map(), ip, ka)
    }
    fn remove(&mut self, ip: &IpAddr) -> Option<KnownAddress> {
        Store::remove(self.map(), ip)
    }
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&IpAddr, &KnownAddress)> + 'a> {
        Store::iter(self.map())
    }
    fn len(&self) -> usize {
        self.map().len()
    }
    fn clear(&mut self) {
        self.map().clear()
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub type Clk = RefClock<AdjustedTime<PeerId>>;
pub type Sm = StateMachine<Tree, Filters, Book, Clk>;

pub const NET: Network = Network::Regtest;
/// When everything starts: a while after the genesis block.
pub const T0: u64 = 1_600_000_000;
pub const FULL: u64 = 1 | 8 | 64; // NETWORK, WITNESS, COMPACT_FILTERS

pub fn peer(n: u8) -> SocketAddr {
    ([99 + n, 10 + n, 3, 4], 18444).into()
}
pub fn local() -> SocketAddr {
    ([88, 77, 66, 55], 18444).into()
}

pub struct Node {
    pub sm: Sm,
    pub clock: Clk,
    pub now: LocalTime,
    pub filters: Filters,
    /// Everything put out since last looked at.
    pub out: Vec<Io>,
}

/// Headers on top of `prev`, ten minutes apart.
pub fn headers(prev: &BlockHeader, n: usize, id: u16) -> Vec<BlockHeader> {
    let mut v: Vec<BlockHeader> = vec![];
    for i in 0..n {
        let p = v.last().unwrap_or(prev);
        v.push(mk_header(p.block_hash(), p.time + 600, p.bits, id + i as u16, 0x11, 0));
    }
    v
}
/// A chain whose last block is dated `age` seconds before `T0`.
pub fn chain(n: usize, age: u32, id: u16) -> Vec<BlockHeader> {
    let g = NET.genesis();
    if n == 0 {
        return vec![g];
    }
    let mut v = vec![g];
    let mut t = T0 as u32 - age - 600 * (n as u32 - 1);
    for i in 0..n {
        let h = mk_header(v[i].block_hash(), t, g.bits, id + i as u16, 0x11, 0);
        v.push(h);
        t += 600;
    }
    v
}
/// Many headers; natively any valid ones will do.
pub fn long_chain(n: usize) -> Vec<BlockHeader> {
    let g = NET.genesis();
    let mut v = vec![g];
    for i in 0..n {
        let mut h = v[i];
        h.version = ORACLE_VERSION;
        h.prev_blockhash = v[i].block_hash();
        h.time = (T0 - 600 * (n - i) as u64) as u32;
        h.nonce = 0x0011_0000 | i as u32;
        if !symbolic() {
            while h.validate_pow(&h.target()).is_err() {
                h.nonce += 1;
            }
        }
        v.push(h);
    }
    v
}
pub fn params() -> Params {
    NET.params()
}

impl Node {
    pub fn new(config: Config, chain: Vec<BlockHeader>, book: Book) -> Self {
        Self::with_filters(config, chain, book, Memory::genesis(NET))
    }
    pub fn with_filters(config: Config, chain: Vec<BlockHeader>, book: Book, f: Memory<StoredHeader>) -> Self {
        let now = LocalTime::from_secs(T0);
        let clock: Clk = RefClock::from(AdjustedTime::new(now));
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(chain).unwrap()), NET.params(), &[]).unwrap();
        let filters = Filters(Rc::new(UnsafeCell::new(FilterCache::load(f).unwrap())));
        let sm = StateMachine::new(tree, filters.clone(), book, clock.clone(), fastrand::Rng::with_seed(7), config);
        let mut n = Node { sm, clock, now, filters, out: vec![] };
        n.sm.tick(n.now);
        n.sm.initialize(n.now);
        n.run();
        n
    }
    pub fn run(&mut self) {
        while let Some(io) = self.sm.next() {
            self.out.push(io);
        }
    }
    pub fn take(&mut self) -> Vec<Io> {
        std::mem::take(&mut self.out)
    }
    pub fn command(&mut self, c: Command) {
        self.sm.command(c);
        self.run();
    }
    pub fn recv(&mut self, from: &SocketAddr, msg: NetworkMessage) {
        self.recv_magic(from, NET.magic(), msg)
    }
    pub fn recv_magic(&mut self, from: &SocketAddr, magic: u32, payload: NetworkMessage) {
        self.sm.message_received(from, Cow::Owned(RawNetworkMessage { magic, payload }));
        self.run();
    }
    pub fn connected(&mut self, a: SocketAddr, link: Link) {
        self.sm.connected(a, &local(), link);
        self.run();
    }
    /// What the reactor does with a `Disconnect`, or on its own.
    pub fn disconnected(&mut self, a: &SocketAddr, reason: Disconnect<DisconnectReason>) {
        self.sm.disconnected(a, reason);
        self.run();
    }
    /// Time passes and the reactor wakes up.
    pub fn elapse_ms(&mut self, ms: u64) {
        self.now = self.now + LocalDuration::from_millis(ms as u128);
        self.sm.tick(self.now);
    }
    pub fn wake(&mut self) {
        self.sm.timer_expired();
        self.run();
    }
    /// An outbound connection asked for by the user, up to a completed handshake.
    pub fn dial(&mut self, a: SocketAddr, services: u64, height: i32) {
        self.command(Command::Connect(a));
        self.sm.attempted(&a);
        self.connected(a, Link::Outbound);
        self.shake(a, services, height);
    }
    pub fn accept(&mut self, a: SocketAddr, services: u64, height: i32) {
        self.connected(a, Link::Inbound);
        self.shake(a, services, height);
    }
    pub fn shake(&mut self, a: SocketAddr, services: u64, height: i32) {
        let mut v = version(services, height);
        v.nonce = nonce_of(&a);
        self.recv(&a, NetworkMessage::Version(v));
        self.recv(&a, NetworkMessage::Verack);
    }
    pub fn peers(&mut self) -> Vec<nakamoto_p2p::fsm::Peer> {
        let (tx, rx) = nakamoto_p2p::fsm::output::chan::unbounded();
        self.command(Command::GetPeers(ServiceFlags::NONE, tx));
        rx.try_recv().unwrap()
    }
    pub fn tip(&mut self) -> (u64, BlockHeader) {
        let (tx, rx) = nakamoto_p2p::fsm::output::chan::unbounded();
        self.command(Command::GetTip(tx));
        let (h, x, _) = rx.try_recv().unwrap();
        (h, x)
    }
}

pub fn nonce_of(a: &SocketAddr) -> u64 {
    match a.ip() {
        IpAddr::V4(ip) => (u32::from(ip) as u64) << 16 | a.port() as u64,
        IpAddr::V6(_) => a.port() as u64,
    }
}
pub fn version(services: u64, height: i32) -> VersionMessage {
    VersionMessage {
        version: 70016,
        services: ServiceFlags::from(services),
        timestamp: T0 as i64,
        receiver: Address::new(&local(), ServiceFlags::NONE),
        sender: Address::new(&peer(0), ServiceFlags::NONE),
        nonce: 42,
        user_agent: "/x:1/".to_owned(),
        start_height: height,
        relay: false,
    }
}
pub fn config() -> Config {
    Config::from(NET, vec![])
}
pub fn known(a: SocketAddr, services: u64, source: Source) -> (IpAddr, KnownAddress) {
    (a.ip(), KnownAddress::new(Address::new(&a, ServiceFlags::from(services)), source, Some(LocalTime::from_secs(T0 - 3600))))
}
pub fn book(v: Vec<(IpAddr, KnownAddress)>) -> Book {
    Book(Rc::new(UnsafeCell::new(v.into_iter().collect())))
}

/// Outputs, by kind.
pub fn writes<'a>(out: &'a [Io], to: &'a SocketAddr) -> Vec<&'a NetworkMessage> {
    out.iter()
        .filter_map(|o| match o {
            Io::Write(a, m) if a == to => Some(&m.payload),
            _ => None,
        })
        .collect()
}
pub fn disconnects(out: &[Io]) -> Vec<(SocketAddr, &DisconnectReason)> {
    out.iter()
        .filter_map(|o| match o {
            Io::Disconnect(a, r) => Some((*a, r)),
            _ => None,
        })
        .collect()
}
pub fn connects(out: &[Io]) -> Vec<SocketAddr> {
    out.iter()
        .filter_map(|o| match o {
            Io::Connect(a) => Some(*a),
            _ => None,
        })
        .collect()
}
pub fn events(out: &[Io]) -> Vec<&Event> {
    out.iter()
        .filter_map(|o| match o {
            Io::Event(e) => Some(e),
            _ => None,
        })
        .collect()
}
pub fn negotiations(out: &[Io]) -> usize {
    events(out).iter().filter(|e| matches!(e, Event::PeerNegotiated { .. })).count()
}
pub fn hash_of(h: &BlockHeader) -> BlockHash {
    h.block_hash()
}
pub fn _unused() {
    check(true, 0)
}
