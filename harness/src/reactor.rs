//! The poll reactor on a made-up operating system: sockets whose fate the harness decides.
use crate::nk::*;
use crate::node::T0;
use nakamoto_client::chan;
use nakamoto_common::block::time::LocalTime;
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, Publisher, Reactor as _, Service, StateMachine};
use nakamoto_net_poll::Reactor;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream};

const EAGAIN: i32 = 11;
const EINTR: i32 = 4;
const RESET: i32 = 104;
const REFUSED: i32 = 111;
const IN: i16 = 1;
const OUT: i16 = 4;
const ERR: i16 = 8;
const HUP: i16 = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    New,
    Dialling,
    Up,
    Failed,
}
/// A socket, as the operating system sees it.
struct Sock {
    fd: i32,
    addr: SocketAddr,
    inbound: bool,
    state: State,
    was_up: bool,
    inbox: Vec<u8>,
    given: Vec<u8>,
    sent: Vec<u8>,
    room: usize,
    eof: bool,
    err: i32,
    /// What it is to transmit.
    expect: Vec<u8>,
    /// It has to be reported as lost.
    over: bool,
    told_err: bool,
}
#[derive(Clone, PartialEq, Debug)]
enum Call {
    Attempted(SocketAddr),
    Up(SocketAddr, Link),
    Got(SocketAddr, Vec<u8>),
    Down(SocketAddr, u8),
    Tick(u64),
    Timer,
    Cmd(u64),
    Event(u64),
}
#[derive(Default)]
struct World {
    socks: Vec<Sock>,
    fds: i32,
    pending: VecDeque<SocketAddr>,
    listener: Option<i32>,
    waker: i32,
    woken: u64,
    now: u64,
    calls: Vec<Call>,
    fail_dial: bool,
    commands: u64,
}
type Hook = Box<dyn FnMut() -> Then>;
enum Then {
    Go,
    Interrupted,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
}
fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}
fn sock<T>(fd: i32, f: impl FnOnce(&mut Sock) -> T) -> Option<T> {
    world(|w| w.socks.iter_mut().find(|s| s.fd == fd).map(f))
}
fn errno(e: i32) {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe { *__errno_location() = e }
}
fn new_fd() -> i32 {
    world(|w| {
        w.fds += 1;
        999 + w.fds
    })
}
fn new_sock(fd: i32, addr: SocketAddr, inbound: bool, state: State) -> Sock {
    Sock { fd, addr, inbound, state, was_up: inbound, inbox: vec![], given: vec![], sent: vec![], room: 0, eof: false, err: 0, expect: vec![], over: false, told_err: false }
}
fn nobody() -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), 0)
}
unsafe fn put_addr(a: &SocketAddr, p: *mut u8, len: *mut u32) {
    if let IpAddr::V4(ip) = a.ip() {
        *(p as *mut u16) = 2;
        *p.add(2) = (a.port() >> 8) as u8;
        *p.add(3) = a.port() as u8;
        for (i, b) in ip.octets().iter().enumerate() {
            *p.add(4 + i) = *b
        }
        *len = 16
    }
}
#[no_mangle]
pub extern "C" fn socket(_d: i32, _t: i32, _p: i32) -> i32 {
    let fd = new_fd();
    world(|w| w.socks.push(new_sock(fd, nobody(), false, State::New)));
    fd
}
#[no_mangle]
pub extern "C" fn socketpair(_d: i32, _t: i32, _p: i32, fds: *mut i32) -> i32 {
    let (a, b) = (new_fd(), new_fd());
    unsafe {
        *fds = a;
        *fds.add(1) = b
    }
    world(|w| w.waker = b);
    0
}
#[no_mangle]
pub extern "C" fn setsockopt(_fd: i32, _l: i32, _n: i32, _v: *const u8, _len: u32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, _l: i32, name: i32, v: *mut i32, len: *mut u32) -> i32 {
    *v = 0;
    *len = 4;
    if name == 4 {
        *v = sock(fd, |s| std::mem::take(&mut s.err)).unwrap_or(0)
    }
    0
}
#[no_mangle]
pub extern "C" fn ioctl(_fd: i32, _r: u64, _a: *mut i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const u8, _len: u32) -> i32 {
    let addr = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(*a.add(4), *a.add(5), *a.add(6), *a.add(7))), (*a.add(2) as u16) << 8 | *a.add(3) as u16);
    let fail = world(|w| w.fail_dial);
    sock(fd, |s| {
        s.addr = addr;
        s.state = if fail { State::Failed } else { State::Dialling };
        s.over = fail;
    });
    errno(if fail { 101 } else { 115 });
    -1
}
#[no_mangle]
pub extern "C" fn bind(fd: i32, _a: *const u8, _len: u32) -> i32 {
    world(|w| {
        w.listener = Some(fd);
        w.socks.retain(|s| s.fd != fd)
    });
    0
}
#[no_mangle]
pub extern "C" fn listen(_fd: i32, _n: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn accept4(_fd: i32, a: *mut u8, len: *mut u32, _f: i32) -> i32 {
    match world(|w| w.pending.pop_front()) {
        Some(addr) => {
            put_addr(&addr, a, len);
            let fd = new_fd();
            let mut s = new_sock(fd, addr, true, State::Up);
            s.room = usize::MAX;
            world(|w| w.socks.push(s));
            fd
        }
        None => {
            errno(EAGAIN);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(_fd: i32, a: *mut u8, len: *mut u32) -> i32 {
    put_addr(&SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 0, 0, 9)), 8333), a, len);
    0
}
#[no_mangle]
pub extern "C" fn shutdown(fd: i32, _how: i32) -> i32 {
    sock(fd, |s| s.over = true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const u8, n: usize, _flags: i32) -> isize {
    let r = sock(fd, |s| {
        if s.err != 0 {
            s.told_err = true;
            return Err(std::mem::take(&mut s.err));
        }
        if s.state != State::Up {
            return Err(32);
        }
        let n = n.min(s.room);
        if n == 0 {
            return Err(EAGAIN);
        }
        s.room -= n;
        for i in 0..n {
            s.sent.push(*buf.add(i))
        }
        Ok(n as isize)
    });
    match r {
        None => {
            errno(9);
            -1
        }
        Some(Ok(n)) => n,
        Some(Err(e)) => {
            errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, n: usize, _flags: i32) -> isize {
    let r = sock(fd, |s| {
        if s.err != 0 {
            s.told_err = true;
            return Err(std::mem::take(&mut s.err));
        }
        if !s.inbox.is_empty() {
            let n = n.min(s.inbox.len());
            for i in 0..n {
                *buf.add(i) = s.inbox[i]
            }
            let got: Vec<u8> = s.inbox.drain(..n).collect();
            s.given.extend(got);
            return Ok(n as isize);
        }
        if s.eof {
            return Ok(0);
        }
        Err(EAGAIN)
    });
    match r.unwrap_or(Err(9)) {
        Ok(n) => n,
        Err(e) => {
            errno(e);
            -1
        }
    }
}
#[repr(C)]
pub struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32 {
    if (0..n as usize).all(|i| (*fds.add(i)).fd < 1000) {
        return 0; // the language's runtime
    }
    let then = HOOK.with(|h| (h.borrow_mut().as_mut().unwrap())());
    let mut ready = 0;
    for i in 0..n as usize {
        let p = &mut *fds.add(i);
        // Closed sockets are not to be polled.
        check(closed(p.fd) == 0, 1);
        let r = if world(|w| w.waker == p.fd) {
            {
                let n = written();
                if world(|w| std::mem::replace(&mut w.woken, n)) != n { IN } else { 0 }
            }
        } else if world(|w| w.listener == Some(p.fd)) {
            if world(|w| w.pending.is_empty()) { 0 } else { IN }
        } else {
            sock(p.fd, |s| match s.state {
                State::Failed => IN | OUT | ERR | HUP,
                State::Up if s.err != 0 => IN | OUT | ERR | HUP,
                State::Up => (if s.inbox.is_empty() && !s.eof { 0 } else { IN }) | (if s.room > 0 { OUT } else { 0 }),
                _ => 0,
            })
            .unwrap_or(32)
        };
        p.revents = r & (p.events | ERR | HUP | 32);
        if p.revents != 0 {
            ready += 1
        }
    }
    if let Then::Interrupted = then {
        for i in 0..n as usize {
            (*fds.add(i)).revents = 0
        }
        errno(EINTR);
        return -1;
    }
    if ready == 0 {
        check(timeout >= 0, 2);
        pass(timeout as u64 / 1000);
    }
    ready
}
/// Time passes.
fn pass(secs: u64) {
    let now = world(|w| {
        w.now += secs;
        w.now
    });
    system_clock(now)
}

#[derive(Debug, Clone)]
pub struct Reason;
impl std::fmt::Display for Reason {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("reason")
    }
}
impl From<Reason> for Disconnect<Reason> {
    fn from(r: Reason) -> Self {
        Disconnect::StateMachine(r)
    }
}
type Output = Io<Vec<u8>, u64, Reason>;
struct Svc(VecDeque<Output>);
fn log(c: Call) {
    world(|w| w.calls.push(c))
}
impl Iterator for Svc {
    type Item = Output;
    fn next(&mut self) -> Option<Output> {
        self.0.pop_front()
    }
}
impl StateMachine for Svc {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Reason;
    fn initialize(&mut self, t: LocalTime) {
        log(Call::Tick(t.as_secs()))
    }
    fn message_received(&mut self, a: &SocketAddr, m: Cow<[u8]>) {
        log(Call::Got(*a, m.to_vec()))
    }
    fn attempted(&mut self, a: &SocketAddr) {
        log(Call::Attempted(*a))
    }
    fn connected(&mut self, a: SocketAddr, l: &SocketAddr, link: Link) {
        check(l.port() == 8333, 3);
        log(Call::Up(a, link))
    }
    fn disconnected(&mut self, a: &SocketAddr, r: Disconnect<Reason>) {
        log(Call::Down(
            *a,
            match r {
                Disconnect::DialError(_) => 0,
                Disconnect::ConnectionError(_) => 1,
                Disconnect::StateMachine(_) => 2,
            },
        ))
    }
    fn tick(&mut self, t: LocalTime) {
        log(Call::Tick(t.as_secs()))
    }
    fn timer_expired(&mut self) {
        log(Call::Timer)
    }
}
impl Service for Svc {
    type Command = (u64, Vec<Output>);
    fn command_received(&mut self, c: Self::Command) {
        log(Call::Cmd(c.0));
        self.0.extend(c.1)
    }
}
struct Pub;
impl Publisher<u64> for Pub {
    fn publish(&mut self, e: u64) {
        log(Call::Event(e))
    }
}

/// What the service heard is what happened, whenever the reactor waits.
fn consistent(quiet: bool) {
    world(|w| {
        for (at, s) in w.socks.iter().enumerate() {
            // Connections with an address follow each other.
            let mut before = w.socks[..at].iter().filter(|x| x.addr == s.addr).count();
            let mut calls: Vec<&Call> = vec![];
            for c in w.calls.iter().filter(|c| matches!(c, Call::Attempted(a) | Call::Up(a, _) | Call::Got(a, _) | Call::Down(a, _) if *a == s.addr)) {
                if before == 0 {
                    calls.push(c)
                }
                if matches!(c, Call::Down(_, _)) {
                    if before == 0 && w.socks[at + 1..].iter().any(|x| x.addr == s.addr) {
                        break;
                    }
                    before = before.saturating_sub(1);
                }
            }
            let mut i = 0;
            let mut next = |f: &dyn Fn(&Call) -> bool| {
                let r = i < calls.len() && f(calls[i]);
                i += r as usize;
                r
            };
            // Attempted, unless it failed at once or they came to us.
            let tried = next(&|c| matches!(c, Call::Attempted(_)));
            check(tried || s.inbound || s.over, 10);
            // Connected if and only if it was.
            let up = next(&|c| matches!(c, Call::Up(_, _)));
            check(up == s.was_up, 11);
            if up {
                check(matches!(calls[tried as usize], Call::Up(_, l) if (*l == Link::Inbound) == s.inbound), 12);
            }
            // All that was read.
            let mut got = vec![];
            while next(&|c| matches!(c, Call::Got(_, _))) {}
            for c in &calls {
                if let Call::Got(_, b) = c {
                    check(!b.is_empty(), 13);
                    got.extend(b.iter().copied());
                }
            }
            check(got == s.given, 14);
            // Lost at most once, last of all, if and only if it was; the socket is closed then.
            let down = next(&|c| matches!(c, Call::Down(_, _)));
            check(i == calls.len(), 15);
            check(down == s.over, 16);
            check(closed(s.fd) == s.over as u64, 17);
            if let Some(Call::Down(_, r)) = calls.last() {
                check((*r == 0) == (!s.was_up && *r != 2), 18);
            }
            // What was to be sent is on its way.
            let n = s.sent.len();
            check(n <= s.expect.len() && s.sent == s.expect[..n], 19);
            if quiet && !s.over && s.was_up {
                check(n == s.expect.len() && s.inbox.is_empty(), 20);
            }
        }
    })
}
fn p(i: u8) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(55, i, 1, 1)), 8333)
}
struct Machine {
    waker: nakamoto_net_poll::Waker,
    commands: chan::Sender<(u64, Vec<Output>)>,
    sent: u64,
}
impl Machine {
    fn command(&mut self, out: Vec<Output>) {
        for o in &out {
            match o {
                Io::Write(a, b) => world(|w| {
                    for s in w.socks.iter_mut().filter(|s| s.addr == *a && !s.over) {
                        s.expect.extend(b)
                    }
                }),
                _ => {}
            }
        }
        self.sent += 1;
        world(|w| w.commands = self.sent - 1);
        self.commands.send((self.sent, out)).unwrap();
        check(nakamoto_net::Waker::wake(&self.waker).is_ok(), 5);
    }
}
/// Runs the reactor; `step` is called each time it waits and says when it's over.
fn run(listening: bool, fail: bool, first: Vec<Output>, mut step: impl FnMut(&mut Machine, u64) -> Option<Then> + 'static) {
    world(|w| {
        *w = World::default();
        w.now = T0;
        w.woken = written();
        w.fail_dial = fail
    });
    system_clock(T0);
    let (stop, shutdown) = chan::unbounded();
    let (listen_tx, listen_rx) = chan::unbounded();
    let (tx, rx) = chan::unbounded();
    let mut r: Reactor<TcpStream> = Reactor::new(shutdown, listen_tx).unwrap();
    let mut m = Machine { commands: tx, sent: 0, waker: r.waker() };
    let mut polls = 0;
    HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move || {
            polls += 1;
            match step(&mut m, polls) {
                Some(t) => t,
                None => {
                    stop.send(()).unwrap();
                    m.command(vec![]);
                    Then::Go
                }
            }
        }))
    });
    let addrs: Vec<SocketAddr> = if listening { vec![SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 0, 0, 9)), 8333)] } else { vec![] };
    check(r.run(&addrs, Svc(first.into()), Pub, rx).is_ok(), 4);
    HOOK.with(|h| *h.borrow_mut() = None);
    check(listen_rx.try_iter().collect::<Vec<_>>() == addrs, 6);
    // Commands came through, each once and in order.
    let cmds: Vec<u64> = world(|w| w.calls.iter().filter_map(|c| if let Call::Cmd(i) = c { Some(*i) } else { None }).collect());
    check(cmds.iter().enumerate().all(|(i, c)| *c == i as u64 + 1) && cmds.len() as u64 >= world(|w| w.commands), 7);
}
/// The last tick shows the present.
fn ticked() {
    let (now, last) = world(|w| (w.now, w.calls.iter().rev().find_map(|c| if let Call::Tick(t) = c { Some(*t) } else { None })));
    check(last == Some(now), 21);
}
/// Something happens to the connection with `a`, or the user wants something of it.
fn happen(m: &mut Machine, a: SocketAddr) -> Then {
    let live = world(|w| w.socks.iter().rev().find(|s| s.addr == a && !s.over).map(|s| (s.fd, s.state)));
    let k = choose(10);
    match (k, live) {
        // The user's wishes.
        (0, _) => m.command(vec![Io::Write(a, vec![u8s(), 2, 3]), Io::Write(a, vec![4])]),
        (1, Some((fd, _))) => {
            m.command(vec![Io::Disconnect(a, Reason)]);
            sock(fd, |s| s.over = true);
        }
        (2, _) => return Then::Interrupted,
        // Dialling.
        (3, Some((fd, State::Dialling))) => {
            let room = within(8, 1, 6) as usize;
            sock(fd, |s| {
                s.state = State::Up;
                s.room = room;
                s.was_up = true
            });
        }
        (4, Some((fd, State::Dialling))) => {
            sock(fd, |s| {
                s.state = State::Failed;
                s.err = REFUSED;
                s.over = true
            });
        }
        // Connected.
        (5, Some((fd, State::Up))) => {
            sock(fd, |s| s.inbox.extend([u8s(), u8s()]));
        }
        (6, Some((fd, State::Up))) => {
            sock(fd, |s| {
                s.eof = true;
                s.over = true
            });
        }
        (7, Some((fd, State::Up))) => {
            sock(fd, |s| {
                s.inbox.clear();
                s.err = RESET;
                s.over = true
            });
        }
        (8, Some((fd, State::Up))) => {
            let room = within(8, 1, 6) as usize;
            sock(fd, |s| {
                s.room = room;
                s.was_up = true
            });
        }
        (9, None) => {
            let fail = choose(2) == 1;
            world(|w| w.fail_dial = fail);
            m.command(vec![Io::Connect(a)]);
        }
        _ => end(),
    }
    Then::Go
}
fn quiesce() -> Then {
    world(|w| {
        for s in w.socks.iter_mut().filter(|s| s.state == State::Up) {
            s.room = usize::MAX;
            s.was_up = true
        }
    });
    Then::Go
}
/// One connection that we make, and all that may become of it.
pub fn h_reactor_dial() {
    dial(4)
}
pub fn h_reactor_dial5() {
    dial(5)
}
fn dial(steps: u64) {
    let fail = choose(2) == 1;
    run(false, fail, vec![Io::Connect(p(1)), Io::Event(7)], move |m, n| {
        if n > 1 {
            ticked();
            consistent(n > steps + 2);
        }
        if fail {
            cover(3);
        }
        if n <= steps {
            Some(happen(m, p(1)))
        } else if n <= steps + 2 {
            Some(quiesce())
        } else {
            cover(1);
            None
        }
    });
    world(|w| check(w.calls.iter().filter(|c| **c == Call::Event(7)).count() == 1, 22));
    cover(2);
}

/// Two connections, one of them made to us, do not affect each other.
pub fn h_reactor_two() {
    two(3)
}
fn two(steps: u64) {
    run(true, false, vec![Io::Connect(p(1))], move |m, n| {
        if n > 1 {
            ticked();
            consistent(n > steps + 3);
        }
        if n == 1 {
            world(|w| {
                w.pending.push_back(p(2));
                let s = &mut w.socks[0];
                s.state = State::Up;
                s.room = 2;
                s.was_up = true
            });
            Some(Then::Go)
        } else if n <= steps + 1 {
            Some(happen(m, p(1 + choose(2) as u8)))
        } else if n <= steps + 3 {
            Some(quiesce())
        } else {
            cover(1);
            None
        }
    });
}
/// Timers go off when they are due, whatever else is going on.
pub fn h_reactor_timer() {
    timer(3)
}
pub fn h_reactor_timer4() {
    timer(4)
}
fn timer(steps: u64) {
    let mut due: Vec<u64> = vec![];
    let mut seen = 0;
    let mut idle = false;
    let mut before = T0;
    run(false, false, vec![Io::Connect(p(1))], move |m, n| {
        let (now, fired) = world(|w| {
            let f = w.calls[seen..].iter().filter(|c| **c == Call::Timer).count();
            seen = w.calls.len();
            (w.now, f)
        });
        if n > 1 {
            ticked();
            consistent(false);
            let any = due.iter().any(|d| *d <= now);
            check(fired == any as usize, 30);
            if idle {
                // Not woken too late, nor without need.
                check(any || (due.is_empty() && now > before), 31);
                check(due.iter().all(|d| *d >= now || *d < before), 32);
                cover(2);
            }
            if any {
                cover(1);
            }
            due.retain(|d| *d > now);
        }
        before = now;
        idle = false;
        if n == 1 {
            world(|w| {
                let s = &mut w.socks[0];
                s.state = State::Up;
                s.room = usize::MAX;
                s.was_up = true
            });
            return Some(Then::Go);
        }
        if n > steps + 1 {
            return None;
        }
        match choose(4) {
            0 => {
                let d = within(6, 1, 40);
                due.push(now + d);
                m.command(vec![Io::SetTimer(LocalDuration::from_secs(d))]);
            }
            1 => idle = true,
            k => {
                pass(within(6, 0, 50));
                if k == 3 {
                    return Some(Then::Interrupted);
                }
                world(|w| w.socks[0].inbox.push(1));
            }
        }
        Some(Then::Go)
    });
}
