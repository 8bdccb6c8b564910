//! Time, timers, iteration, stream decoding.
use crate::nk::*;
use nakamoto_common::bitcoin::consensus::encode;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::block::iter::Iter;
use nakamoto_common::block::time::{AdjustedTime, Clock, LocalDuration, LocalTime};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net_poll::time::TimeoutManager;
use nakamoto_p2p::stream::Decoder;

/// The rank of `x` in `v`, without branching: (how many are smaller, how many are equal).
fn rank(v: &[i64], x: i64) -> (usize, usize) {
    let mut a = 0;
    let mut b = 0;
    for y in v {
        a += (*y < x) as usize;
        b += (*y == x) as usize;
    }
    (a, b)
}
/// Is `x` the median of `v` (odd length)?
fn is_median(v: &[i64], x: i64) -> bool {
    let (a, b) = rank(v, x);
    let m = v.len() / 2;
    (b > 0) & (a <= m) & (a + b > m)
}

/// Network-adjusted time: n peers, any offsets, possibly one reporting twice.
fn adjusted(n: usize, fixed: &[i64]) {
    let local = within(32, 1_231_006_505, 4_000_000_000);
    let mut t = AdjustedTime::<u16>::new(LocalTime::from_secs(local));
    let mut all = vec![0i64];
    let mut last = 0i64;
    check(t.offset() == 0 && t.get() as u64 == local, 1);
    let again = choose(n as u64) as usize;
    for i in 0..n {
        let s = if i < fixed.len() { fixed[i] } else { u64s() as i64 };
        let before = t.offset();
        t.record_offset(i as u16, s);
        all.push(s);
        if all.len() < 5 || all.len() % 2 == 0 {
            check(t.offset() == before, 2);
        } else {
            let o = t.offset();
            // Either the median of all samples, if within 70 minutes, or nothing.
            let med = is_median(&all, o) & (o >= -4200) & (o <= 4200);
            check(med | (o == 0), 3);
            // Zero only if the median is zero or out of range: then no sample within the range
            // (but zero) is the median.
            if o == 0 {
                for x in all.iter() {
                    let m = is_median(&all, *x);
                    check(!m | (*x == 0) | (*x > 4200) | (*x < -4200), 4);
                }
                cover(1);
            } else {
                cover(2);
            }
        }
        last = t.offset();
        check(t.get() as i64 == local as i64 + last, 5);
        check(t.block_time() == t.get() && t.local_time() == LocalTime::from_secs(local), 6);
        // Further samples of the same peer don't count.
        if i == again {
            t.record_offset(i as u16 / 2, u64s() as i64);
            t.record_offset(i as u16, 17);
            check(t.offset() == last, 7);
        }
    }
    // The local clock moves: the offset stays.
    let later = within(32, 1_231_006_505, 4_000_000_000);
    t.set_local_time(LocalTime::from_secs(later));
    check(t.get() as i64 == later as i64 + last, 8);
}
pub fn h_adjusted_time() {
    match choose(3) {
        0 => adjusted(4, &[]),
        1 => adjusted(6, &[-30, 4200, 20, 5000]),
        _ => adjusted(8, &[-4300, 1, 1, 7, 9000, -2]),
    }
}
pub fn h_adjusted_time5() {
    adjusted(6, &[i64::MIN, 3])
}
/// At most 200 samples count.
pub fn h_adjusted_time_max() {
    let mut t = AdjustedTime::<u16>::new(LocalTime::from_secs(1_600_000_000));
    for i in 0..198u16 {
        t.record_offset(i, 10);
    }
    check(t.offset() == 10, 10);
    let a = u64s() as i64;
    t.record_offset(198, a);
    t.record_offset(199, 10);
    check(t.offset() == 10, 11);
    for i in 0..20u16 {
        t.record_offset(200 + i, 4000);
    }
    check(t.offset() == 10, 12);
    cover(1);
}

/// Timers: n registrations at any times, woken at any time.
fn timeouts(n: usize, rounds: usize) {
    let threshold = [0u64, 1, 500, 1000][choose(4) as usize];
    let mut tm = TimeoutManager::<usize>::new(LocalDuration::from_millis(threshold as u128));
    let t0 = LocalTime::from_secs(1_000_000);
    let at = |ms: u64| t0 + LocalDuration::from_millis(ms as u128);
    let mut live: Vec<(usize, u64)> = vec![];
    let mut now = 0u64;
    let mut id = 0;
    for _ in 0..rounds {
        for _ in 0..n {
            let ms = sym(14);
            let ok = tm.register(id, at(ms));
            // Refused only if another wake-up is closer than the threshold.
            let mut close = false;
            for (_, o) in live.iter() {
                let d = if *o > ms { *o - ms } else { ms - *o };
                close |= d < threshold;
            }
            check(ok != close, 40);
            if ok {
                live.push((id, ms));
            } else {
                cover(1);
            }
            id += 1;
        }
        check(tm.len() == live.len() && tm.is_empty() == live.is_empty(), 41);
        match tm.next(at(now)) {
            None => check(live.is_empty(), 42),
            Some(d) => {
                let d = d.as_millis() as u64;
                let mut min = u64::MAX;
                for (_, o) in live.iter() {
                    min = if *o < min { *o } else { min };
                }
                check(d == min.saturating_sub(now), 43);
            }
        }
        now = within(14, now, 0x3fff);
        let mut woken = vec![99];
        let k = tm.wake(at(now), &mut woken);
        check(woken[0] == 99 && woken.len() == k + 1, 44);
        let due: Vec<(usize, u64)> = live.iter().copied().filter(|(_, o)| *o <= now).collect();
        check(due.len() == k, 45);
        for w in woken[1..].iter() {
            check(due.iter().any(|(i, _)| i == w), 46);
        }
        for p in woken[1..].windows(2) {
            let f = |i: usize| due.iter().find(|(k, _)| *k == i).unwrap().1;
            check(f(p[0]) <= f(p[1]), 47);
        }
        live.retain(|(_, o)| *o > now);
        check(tm.len() == live.len(), 48);
        cover(2);
    }
}
pub fn h_timeouts() {
    timeouts(2, 2)
}
pub fn h_timeouts3() {
    timeouts(3, 2)
}

/// Iteration from both ends visits every height once.
pub fn h_iter() {
    let n = 1 + choose(5) as usize;
    let v: Vec<u64> = (0..n).map(|_| u64s()).collect();
    let chain = NonEmpty::from_vec(v.clone()).unwrap();
    let mut it = Iter::new(&chain);
    let (mut lo, mut hi) = (0usize, n);
    for _ in 0..n + 2 {
        let front = choose(2) == 0;
        let got = if front { it.next() } else { it.next_back() };
        if lo == hi {
            check(got.is_none(), 50);
            cover(1);
        } else {
            let k = if front {
                lo += 1;
                lo - 1
            } else {
                hi -= 1;
                hi
            };
            match got {
                Some((h, x)) => check(h == k as u64 && *x == v[k], 51),
                None => check(false, 52),
            }
        }
    }
}

/// Any bytes, as a sequence of compact sizes, cut into chunks at any two places.
pub fn h_decoder_bytes() {
    const N: usize = 7;
    let mut b = vec![];
    for _ in 0..N {
        b.push(u8s());
    }
    let i = choose(N as u64 + 1) as usize;
    let j = i + choose((N - i) as u64 + 1) as usize;
    // Reference: everything at once.
    let mut want: Vec<encode::VarInt> = vec![];
    let mut at = 0;
    let mut failed = false;
    while at < N {
        match encode::deserialize_partial::<encode::VarInt>(&b[at..]) {
            Ok((v, k)) => {
                want.push(v);
                at += k;
            }
            Err(encode::Error::Io(_)) => break,
            Err(_) => {
                failed = true;
                break;
            }
        }
    }
    let mut d = Decoder::new(4);
    let mut got: Vec<encode::VarInt> = vec![];
    let mut err = false;
    for part in [&b[..i], &b[i..j], &b[j..]] {
        d.input(part);
        loop {
            match d.decode_next::<encode::VarInt>() {
                Ok(Some(v)) => got.push(v),
                Ok(None) => break,
                Err(_) => {
                    err = true;
                    break;
                }
            }
        }
        if err {
            break;
        }
    }
    check(err == failed, 60);
    check(got.len() == want.len(), 61);
    for (x, y) in got.iter().zip(want.iter()) {
        check(x == y, 62);
    }
    if want.len() > 1 {
        cover(1);
    }
    if failed {
        cover(2);
    }
}

/// Network messages: a ping of any magic and checksum, then a verack, cut anywhere.
pub fn h_decoder_messages() {
    let nonce = 0x1122334455667788u64;
    let a = encode::serialize(&RawNetworkMessage { magic: 0, payload: NetworkMessage::Ping(nonce) });
    let b = encode::serialize(&RawNetworkMessage { magic: 0x0709110b, payload: NetworkMessage::Verack });
    let mut s = a.clone();
    let magic = u32s();
    s[..4].copy_from_slice(&magic.to_le_bytes());
    let sum = u32s();
    let good = u32::from_le_bytes(a[20..24].try_into().unwrap());
    s[20..24].copy_from_slice(&sum.to_le_bytes());
    s.extend_from_slice(&b);
    let n = s.len();
    let i = choose(n as u64 + 1) as usize;
    let mut d = Decoder::new(16);
    let mut got = vec![];
    let mut failed = false;
    for (k, part) in [&s[..i], &s[i..]].iter().enumerate() {
        d.input(part);
        loop {
            match d.decode_next::<RawNetworkMessage>() {
                Ok(Some(m)) => got.push(m),
                Ok(None) => break,
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
        if failed {
            break;
        }
        if k == 0 {
            // A complete message is handed out as soon as it is there.
            check(got.len() == (i >= a.len()) as usize + (i == n) as usize, 70);
        }
    }
    check(failed == (sum != good), 71);
    if failed {
        cover(1);
        check(got.is_empty(), 72);
    } else {
        cover(2);
        check(got.len() == 2, 73);
        check(got[0] == RawNetworkMessage { magic, payload: NetworkMessage::Ping(nonce) }, 74);
        check(got[1] == RawNetworkMessage { magic: 0x0709110b, payload: NetworkMessage::Verack }, 75);
    }
}
