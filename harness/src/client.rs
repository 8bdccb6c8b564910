//! The whole client, from its files to the bytes on the wire: everything but sockets.
use crate::nk::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use nakamoto_client::handle::Handle as _;
use nakamoto_client::{chan, Client, Command, Config, Event, Handle, LoadingHandler};
use nakamoto_common::bitcoin::consensus::{Decodable, Encodable};
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::network::message_filter::GetCFHeaders;
use nakamoto_common::bitcoin::{Block, BlockHeader};
use nakamoto_chain::block::store;
use nakamoto_chain::filter::cache::StoredHeader;
use nakamoto_common::block::filter::FilterHeader;
use nakamoto_common::block::store::{Genesis as _, Store as _};
use nakamoto_common::block::time::LocalTime;
use nakamoto_net::{error, Disconnect, Io, Link, Publisher, Reactor, Service};
use std::borrow::Cow;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::path::Path;

/// What came out of the service.
#[derive(Clone, Debug)]
pub enum Out {
    Write(SocketAddr, Vec<u8>),
    Connect(SocketAddr),
    Disconnect(SocketAddr),
}
/// The service, as the reactor sees it.
pub trait Driven {
    fn tick(&mut self, t: LocalTime);
    fn wake(&mut self);
    fn attempted(&mut self, a: &SocketAddr);
    fn connected(&mut self, a: SocketAddr, link: Link);
    fn recv(&mut self, a: &SocketAddr, bytes: &[u8]);
    fn lost(&mut self, a: &SocketAddr);
    fn commands(&mut self);
    fn take(&mut self) -> Vec<Out>;
}
struct Driver<S: Service, E> {
    service: S,
    publisher: E,
    rx: chan::Receiver<S::Command>,
    out: Vec<Out>,
}
impl<S: Service, E: Publisher<S::Event>> Driver<S, E> {
    fn run(&mut self) {
        while let Some(io) = self.service.next() {
            match io {
                Io::Write(a, b) => self.out.push(Out::Write(a, b)),
                Io::Connect(a) => self.out.push(Out::Connect(a)),
                Io::Disconnect(a, r) => {
                    self.out.push(Out::Disconnect(a));
                    self.service.disconnected(&a, r.into());
                }
                Io::SetTimer(_) => {}
                Io::Event(e) => self.publisher.publish(e),
            }
        }
    }
}
impl<S: Service, E: Publisher<S::Event>> Driven for Driver<S, E> {
    fn tick(&mut self, t: LocalTime) {
        self.service.tick(t)
    }
    fn wake(&mut self) {
        self.service.timer_expired();
        self.run()
    }
    fn attempted(&mut self, a: &SocketAddr) {
        self.service.attempted(a);
        self.run()
    }
    fn connected(&mut self, a: SocketAddr, link: Link) {
        self.service.connected(a, &local(), link);
        self.run()
    }
    fn recv(&mut self, a: &SocketAddr, bytes: &[u8]) {
        self.service.message_received(a, Cow::Borrowed(bytes));
        self.run()
    }
    fn lost(&mut self, a: &SocketAddr) {
        let e = std::io::Error::from(std::io::ErrorKind::ConnectionReset);
        self.service.disconnected(a, Disconnect::ConnectionError(std::sync::Arc::new(e)));
        self.run()
    }
    fn commands(&mut self) {
        while let Ok(c) = self.rx.try_recv() {
            self.service.command_received(c);
            self.run()
        }
    }
    fn take(&mut self) -> Vec<Out> {
        std::mem::take(&mut self.out)
    }
}
type Scenario = Box<dyn FnOnce(&mut dyn Driven)>;
thread_local! {
    static SCENARIO: RefCell<Option<Scenario>> = RefCell::new(None);
}
#[derive(Clone)]
pub struct NoWaker;
impl nakamoto_net::Waker for NoWaker {
    fn wake(&self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A reactor that plays a scenario.
pub struct Player(chan::Receiver<()>, chan::Sender<SocketAddr>);
impl Reactor for Player {
    type Waker = NoWaker;
    fn new(shutdown: chan::Receiver<()>, listening: chan::Sender<SocketAddr>) -> Result<Self, std::io::Error> {
        Ok(Player(shutdown, listening))
    }
    fn run<S, E>(&mut self, _listen: &[SocketAddr], service: S, publisher: E, commands: chan::Receiver<S::Command>) -> Result<(), error::Error>
    where
        S: Service,
        S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>,
        E: Publisher<S::Event>,
    {
        let mut d = Driver { service, publisher, rx: commands, out: vec![] };
        let t = LocalTime::from_secs(T0);
        d.service.tick(t);
        d.service.initialize(t);
        d.run();
        let f = SCENARIO.with(|s| s.borrow_mut().take()).unwrap();
        f(&mut d);
        Ok(())
    }
    fn waker(&self) -> NoWaker {
        NoWaker
    }
}

fn bytes(m: NetworkMessage) -> Vec<u8> {
    let mut v = vec![];
    RawNetworkMessage { magic: NET.magic(), payload: m }.consensus_encode(&mut v).unwrap();
    v
}
fn message(b: &[u8]) -> NetworkMessage {
    let m = RawNetworkMessage::consensus_decode(&mut &b[..]).unwrap();
    check(m.magic == NET.magic(), 990);
    m.payload
}
fn settings(root: &Path) -> Config {
    Config { network: NET, connect: vec![peer(1)], root: root.to_owned(), verify: true, ..Config::default() }
}
/// Start a client on the given directory and play the scenario with it; whether it started.
fn start(root: &Path, f: impl FnOnce(&mut dyn Driven, &Handle<NoWaker>) + 'static) -> bool {
    let c = Client::<Player>::new().unwrap();
    let h = c.handle();
    match c.load(settings(root), LoadingHandler::Ignore) {
        Ok(r) => {
            SCENARIO.with(|s| *s.borrow_mut() = Some(Box::new(move |d| f(d, &h))));
            r.run().is_ok()
        }
        Err(_) => false,
    }
}
/// A handshake of the configured peer.
fn join(d: &mut dyn Driven, height: i32) {
    let a = peer(1);
    d.attempted(&a);
    d.connected(a, Link::Outbound);
    let mut v = version(FULL, height);
    v.nonce = nonce_of(&a);
    d.recv(&a, &bytes(NetworkMessage::Version(v)));
    d.recv(&a, &bytes(NetworkMessage::Verack));
}
/// The peer answers honestly, out of the chain, whatever it is asked. Whether it was disconnected.
fn serve(d: &mut dyn Driven, c: &[Block]) -> bool {
    let a = peer(1);
    let mut gone = false;
    for _ in 0..40 {
        let out = d.take();
        if out.is_empty() {
            break;
        }
        for o in out {
            match o {
                Out::Write(to, b) if to == a && !gone => {
                    for m in answers(c, &message(&b)) {
                        d.recv(&a, &bytes(m));
                    }
                }
                Out::Disconnect(x) => gone |= x == a,
                _ => {}
            }
        }
    }
    gone
}
fn tip(d: &mut dyn Driven, h: &Handle<NoWaker>) -> (u64, BlockHeader) {
    let (tx, rx) = chan::unbounded();
    h.command(Command::GetTip(tx)).unwrap();
    d.commands();
    let (n, x, _) = rx.try_recv().unwrap();
    (n, x)
}
/// The filter headers the client tells others, for the whole chain.
fn told(d: &mut dyn Driven, c: &[Block]) -> Option<NetworkMessage> {
    d.take();
    d.recv(&peer(1), &bytes(NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: 1, stop_hash: c[c.len() - 1].block_hash() })));
    d.take().into_iter().find_map(|o| match o {
        Out::Write(_, b) => match message(&b) {
            m @ NetworkMessage::CFHeaders(_) => Some(m),
            _ => None,
        },
        _ => None,
    })
}
/// Whether the client is in line with the chain. Ids: `id` tip, `id + 1` filter headers.
fn in_line(d: &mut dyn Driven, h: &Handle<NoWaker>, c: &[Block], id: u64) {
    let (n, t) = tip(d, h);
    check(n == c.len() as u64 - 1 && hash_of(&t) == c[c.len() - 1].block_hash(), id);
    check(told(d, c) == Some(cfheaders(c, 1, c.len() - 1)), id + 1);
}

/// Killed at any change to its files, the client starts again and catches up.
fn crash(n: usize, reorg: bool, points: u64) {
    let root = scratch("client");
    let a = blocks(n, 0, 1);
    let keep = if reorg { choose(n as u64) as usize } else { n };
    let b = fork(&a, keep, n - keep + 1, 0, 100);
    let k = within(8, 0, points);
    let (a1, b1) = (a.clone(), b.clone());
    let busy = std::rc::Rc::new(RefCell::new(false));
    let within = busy.clone();
    // The first run.
    check(
        start(&root, move |d, h| {
            join(d, n as i32);
            check(!serve(d, &a1), 1);
            in_line(d, h, &a1, 2);
            // It is killed while it takes up what is new.
            fs_budget(k);
            let new = b1[keep + 1..].iter().map(|x| x.header).collect();
            d.recv(&peer(1), &bytes(NetworkMessage::Headers(new)));
            *within.borrow_mut() = fs_killed();
            serve(d, &b1);
            d.tick(LocalTime::from_secs(T0 + 61));
            d.wake();
            serve(d, &b1);
            cover(2);
        }),
        5,
    );
    fs_budget(u64::MAX);
    // What is left: headers of the new branch along with filter headers of the old one?
    let whole = |name: &str, size: u64| std::fs::File::open(root.join(".nakamoto/regtest").join(name)).map_or(0, |f| f.metadata().unwrap().len() / size) as usize;
    let (f, h) = (whole("filters.db", 64), whole("headers.db", 80));
    let busy = *busy.borrow();
    let stale = if busy && f > keep && h > keep && fheaders(&b)[f.min(h)].1 != filter_at(&root, f.min(h)) { 20 } else { 0 };
    again(&root, b, stale)
}
fn filter_at(root: &Path, i: usize) -> FilterHeader {
    let p = root.join(".nakamoto/regtest/filters.db");
    let f = store::File::open(p, StoredHeader::genesis(NET)).unwrap();
    f.get(i as u64).unwrap().header
}
fn again(root: &Path, b: Vec<Block>, id: u64) {
    check(
        start(root, move |d, h| {
            join(d, b.len() as i32 - 1);
            let gone = serve(d, &b);
            check(!gone, id + 10);
            // A new block gets it going in any case.
            let c = fork(&b, b.len() - 1, 1, 0, 120);
            d.recv(&peer(1), &bytes(NetworkMessage::Inv(vec![Inventory::Block(c[c.len() - 1].block_hash())])));
            check(!serve(d, &c), id + 11);
            in_line(d, h, &c, id + 12);
            cover(1);
        }),
        id + 14,
    );
}
pub fn h_crash_reorg() {
    crash(2, true, 60)
}
pub fn h_crash_extend() {
    crash(1, false, 40)
}
/// Killed again while it catches up.
fn second_kill(root: &Path, b: &[Block]) {
    fs_budget(within(8, 0, 40));
    let b1 = b.to_vec();
    start(root, move |d, _| {
        join(d, b1.len() as i32 - 1);
        serve(d, &b1);
    });
    fs_budget(u64::MAX);
}
pub fn h_crash_first() {
    crash_first(false)
}
pub fn h_crash_twice() {
    crash_first(true)
}
/// Killed during the first run ever.
fn crash_first(twice: bool) {
    let root = scratch("client");
    let a = blocks(2, 0, 1);
    let k = within(8, 0, 40);
    fs_budget(k);
    let a1 = a.clone();
    start(&root, move |d, _| {
        join(d, 2);
        serve(d, &a1);
    });
    fs_budget(u64::MAX);
    if twice {
        second_kill(&root, &a)
    }
    again(&root, a, 0)
}

/// Cut into two at a place, or not at all.
fn feed(d: &mut dyn Driven, a: &SocketAddr, b: &[u8], at: usize) {
    d.recv(a, &b[..at]);
    if at < b.len() {
        d.recv(a, &b[at..]);
    }
}
fn pongs(out: &[Out], a: &SocketAddr) -> Vec<u64> {
    let mut v = vec![];
    for o in out {
        if let Out::Write(to, b) = o {
            check(to == a, 60);
            if let NetworkMessage::Pong(x) = message(b) {
                v.push(x)
            }
        }
    }
    v
}
/// Bytes, however cut, become messages of the peer they came from; bad ones end the connection.
pub fn h_client_bytes() {
    let root = scratch("client");
    check(
        start(&root, move |d, h| {
            let (a, b) = (peer(1), peer(2));
            let events = h.events();
            join(d, 0);
            d.connected(b, Link::Inbound);
            d.take();
            let mut stream = bytes(NetworkMessage::Ping(77));
            let one = stream.len();
            let mut second = bytes(NetworkMessage::Ping(78));
            // The checksum is at bytes 20 to 23.
            let sum: Vec<u8> = second[20..24].to_vec();
            for i in 0..4 {
                second[20 + i] = u8s();
            }
            let ok = (0..4).all(|i| second[20 + i] == sum[i]);
            stream.extend(&second);
            let at = choose(stream.len() as u64 + 1) as usize;
            // Another connection in between has a stream of its own.
            d.recv(&a, &stream[..at]);
            if choose(2) == 1 {
                d.recv(&b, &bytes(NetworkMessage::Verack)[..9]);
            }
            d.recv(&a, &stream[at..]);
            let out = d.take();
            let gone = out.iter().any(|o| matches!(o, Out::Disconnect(x) if *x == a));
            check(!out.iter().any(|o| matches!(o, Out::Disconnect(x) if *x == b)), 61);
            check(gone != ok, 62);
            check(pongs(&out, &a) == if ok { vec![77, 78] } else { vec![77] }, 63);
            if ok {
                cover(1);
                // The beginning of a message, then the connection is lost.
                d.recv(&a, &stream[..at.min(one - 1)]);
                d.lost(&a);
            } else {
                cover(2);
                // Nothing more comes from a connection that was ended.
                d.recv(&a, &bytes(NetworkMessage::Ping(79)));
                check(pongs(&d.take(), &a).is_empty(), 64);
            }
            d.take();
            // A new connection starts afresh.
            d.connected(a, Link::Inbound);
            let mut v = version(FULL, 0);
            v.nonce = nonce_of(&a);
            let mut all = bytes(NetworkMessage::Version(v));
            all.extend(bytes(NetworkMessage::Verack));
            all.extend(bytes(NetworkMessage::Ping(80)));
            feed(d, &a, &all, all.len());
            check(pongs(&d.take(), &a) == vec![80], 65);
            // The user was told all along, in order.
            let told: Vec<u8> = events
                .try_iter()
                .filter_map(|e| match e {
                    Event::PeerConnected { addr, link, .. } if addr == a => Some(if link == Link::Outbound { 1 } else { 4 }),
                    Event::PeerNegotiated { addr, .. } if addr == a => Some(2),
                    Event::PeerDisconnected { addr, .. } if addr == a => Some(3),
                    _ => None,
                })
                .collect();
            check(told == vec![1, 2, 3, 4, 2], 66);
        }),
        67,
    );
}

/// Blocks and filters reach those who asked for them, and everybody hears of events.
pub fn h_client_streams() {
    let root = scratch("client");
    let marks = choose(8);
    let c = blocks(3, marks, 1);
    check(
        start(&root, move |d, h| {
            let (e1, e2, bs, fs) = (h.events(), h.clone().events(), h.blocks(), h.filters());
            join(d, 3);
            check(!serve(d, &c), 70);
            in_line(d, h, &c, 71);
            let from = choose(5);
            h.command(Command::Rescan {
                from: std::ops::Bound::Included(from),
                to: std::ops::Bound::Unbounded,
                watch: vec![mine(1)],
            })
            .unwrap();
            d.commands();
            check(!serve(d, &c), 73);
            // Timers go off.
            d.tick(LocalTime::from_secs(T0 + 1));
            d.wake();
            check(!serve(d, &c), 80);
            let from = from as usize;
            let heights: Vec<u64> = (from.max(1)..=3).filter(|i| marks >> (i - 1) & 1 == 1).map(|i| i as u64).collect();
            let got: Vec<_> = bs.try_iter().collect();
            check(got.iter().map(|x| x.1).collect::<Vec<_>>() == heights, 74);
            check(got.iter().all(|(b, i)| b.block_hash() == c[*i as usize].block_hash()), 75);
            let got: Vec<_> = fs.try_iter().collect();
            check(got.iter().map(|x| x.2).collect::<Vec<_>>() == (from as u64..=3).collect::<Vec<_>>(), 76);
            check(got.iter().all(|(f, b, i)| *b == c[*i as usize].block_hash() && f.content == filter_of(&c[*i as usize]).content), 77);
            let matched = |r: chan::Receiver<Event>| -> Vec<u64> {
                r.try_iter().filter_map(|e| match e { Event::BlockMatched { height, .. } => Some(height), _ => None }).collect()
            };
            check(matched(e1) == heights && matched(e2) == heights, 78);
            cover(1);
        }),
        79,
    );
}
