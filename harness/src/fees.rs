//! Fee estimates, and the filter cache.
use crate::nk::*;
use crate::node::*;
use crate::world::*;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::{Block, OutPoint, Transaction};
use nakamoto_p2p::fsm::fees::{FeeEstimate, FeeEstimator};
use nakamoto_p2p::fsm::filter_cache::{Filter, FilterCache};
use nakamoto_p2p::fsm::{Command, Event};

/// Low, median and high of any rates.
pub fn h_fee_summary() {
    let k = choose(3) as usize;
    let n = [1, 3, 5][k];
    let v: Vec<u64> = (0..n).map(|_| u64s()).collect();
    let f = FeeEstimate::from(v.clone()).unwrap();
    let below = |x: u64| v.iter().filter(|y| **y < x).count();
    let upto = |x: u64| v.iter().filter(|y| **y <= x).count();
    check(v.contains(&f.low) && v.iter().all(|x| f.low <= *x), 10);
    check(v.contains(&f.high) && v.iter().all(|x| f.high >= *x), 11);
    check(v.contains(&f.median) && below(f.median) <= n / 2 && upto(f.median) > n / 2, 12);
    cover(1);
}
/// The rate of a transaction: its fee per virtual byte, rounded.
fn rate(t: &Transaction, spent: u64) -> Option<u64> {
    let sent: u128 = t.output.iter().map(|o| o.value as u128).sum();
    let fee = (spent as u128).checked_sub(sent)?;
    let w = t.weight() as u128;
    Some(((fee * 8 + w) / (2 * w)) as u64)
}
fn summary(mut v: Vec<u64>) -> Option<(u64, u64, u64)> {
    v.sort();
    let n = v.len();
    if n == 0 {
        return None;
    }
    let m = if n % 2 == 1 { v[n / 2] } else { (v[n / 2 - 1] + v[n / 2] + 1) / 2 };
    Some((v[0], m, v[n - 1]))
}
/// From scratch: the estimate for the last of the blocks.
fn reference(blocks: &[&Block]) -> Option<(u64, u64, u64)> {
    let mut utxo: Vec<(OutPoint, u64)> = vec![];
    let mut fees = vec![];
    for (i, b) in blocks.iter().enumerate() {
        for t in &b.txdata {
            for (k, o) in t.output.iter().enumerate() {
                utxo.push((outpoint(t, k as u32), o.value));
            }
            if t.is_coin_base() {
                continue;
            }
            let mut spent = Some(0u64);
            for x in &t.input {
                match utxo.iter().position(|u| u.0 == x.previous_output) {
                    Some(p) => {
                        let v = utxo.remove(p).1;
                        spent = spent.and_then(|s| s.checked_add(v));
                    }
                    None => spent = None,
                }
            }
            if i == blocks.len() - 1 {
                if let Some(r) = spent.and_then(|s| rate(t, s)) {
                    fees.push(r);
                }
            }
        }
    }
    summary(fees)
}
fn as_tuple(f: Option<FeeEstimate>) -> Option<(u64, u64, u64)> {
    f.map(|f| (f.low, f.median, f.high))
}
/// Blocks that spend from each other. The transactions of block 3 and 4 are alternatives.
fn ledger() -> Vec<Block> {
    let g = NET.genesis();
    let a = coinbase(1, vec![(50_000, other(1)), (70_000, other(2)), (9_000, other(3))]);
    let b1 = block_on(&g, 1, vec![a.clone()]);
    // Pays the first output on, with a fee.
    let t = tx(vec![outpoint(&a, 0)], vec![(20_000, other(4)), (29_000, other(5))], 2);
    let b2 = block_on(&b1.header, 2, vec![coinbase(2, vec![(60_000, other(6))]), t.clone()]);
    // Two of them, one with an unknown input, one that spends within the block.
    let u = tx(vec![outpoint(&t, 0), outpoint(&a, 1)], vec![(80_000, other(7))], 3);
    let v = tx(vec![outpoint(&u, 0)], vec![(79_321, other(8))], 4);
    let w = tx(vec![unknown_outpoint(3)], vec![(5, other(9))], 5);
    let b3 = block_on(&b2.header, 3, vec![coinbase(3, vec![(1, other(6))]), u, w, v]);
    let x = tx(vec![outpoint(&t, 1)], vec![(28_000, other(7))], 6);
    let y = tx(vec![outpoint(&a, 2)], vec![(1, other(7))], 7);
    let b4 = block_on(&b2.header, 4, vec![coinbase(4, vec![(1, other(6))]), x, y]);
    vec![b1, b2, b3, b4]
}
/// Blocks at any heights, roll-backs to any heights: each estimate is that of the blocks that
/// are still there.
pub fn h_fee_history() {
    let l = ledger();
    let mut e = FeeEstimator::default();
    let mut applied: Vec<(u64, usize)> = vec![];
    let mut n = 0;
    for step in 0..4 {
        if step > 0 && choose(2) == 1 {
            let to = u64s();
            e.rollback(to);
            applied.retain(|x| x.0 <= to);
            cover(1);
        } else {
            let h = u64s();
            let b = (n + choose(2) as usize).min(3);
            n = b + 1;
            let got = as_tuple(e.process(l[b].clone(), h));
            if h > applied.last().map_or(0, |x| x.0) {
                applied.push((h, b));
                let v: Vec<&Block> = applied.iter().map(|x| &l[x.1]).collect();
                check(got == reference(&v), 10);
                if got.is_some() {
                    cover(2);
                }
            } else {
                check(got.is_none(), 11);
                cover(3);
            }
            if n > 3 {
                n = 2;
            }
        }
    }
}
/// A node that is given blocks with invalid transactions carries on, and its estimates go with
/// the blocks it processes.
pub fn h_fee_invalid() {
    let g = NET.genesis_block();
    let a = coinbase(1, vec![(50_000, other(1)), (u64::MAX, other(2)), (3, other(3)), (30_000, other(3))]);
    let b1 = block_at(&g.header, T0 as u32 - 1200, 1, vec![a.clone()]);
    let t = match choose(4) {
        0 => tx(vec![outpoint(&a, 0)], vec![(50_001, other(4))], 2),
        1 => tx(vec![outpoint(&a, 0), outpoint(&a, 2)], vec![(u64::MAX, other(4)), (2, other(4))], 2),
        2 => tx(vec![outpoint(&a, 1), outpoint(&a, 0)], vec![(u64::MAX, other(4))], 2),
        _ => tx(vec![], vec![], 2),
    };
    let good = tx(vec![outpoint(&a, 3)], vec![], 3);
    let b2 = block_on(&b1.header, 2, vec![coinbase(2, vec![(60_000, other(6))]), t, good.clone()]);
    let c = vec![g, b1, b2];
    let mut n = node_with(&c, 2);
    let p = peer(1);
    n.dial(p, FULL, 2);
    for b in &c[1..] {
        n.command(Command::RequestBlock(b.block_hash()));
    }
    n.elapse_ms(1_000);
    n.wake();
    n.take();
    for b in &c[1..] {
        n.recv(&p, NetworkMessage::Block(b.clone()));
    }
    let out = n.take();
    let f: Vec<_> = events(&out)
        .iter()
        .filter_map(|e| match e {
            Event::BlockProcessed { height, fees, .. } => Some((*height, as_tuple(fees.clone()))),
            _ => None,
        })
        .collect();
    check(f.len() == 2 && f[0] == (1, None) && f[1].0 == 2, 10);
    let r = rate(&good, 30_000).unwrap();
    check(f[1].1.map_or(false, |x| x.0 == r || x.2 == r), 11);
    cover(1);
}

#[derive(PartialEq, Eq, Clone, Copy)]
struct Sized(usize, u64);
impl Filter for Sized {
    fn len(&self) -> usize {
        self.0
    }
}
/// The filter cache: what was put and not pushed out by later ones, within its capacity.
pub fn h_filter_cache() {
    cache(3)
}
pub fn h_filter_cache4() {
    cache(4)
}
fn cache(steps: u64) {
    let capacity = within(8, 0, 200) as usize;
    let mut c = FilterCache::new(capacity);
    let mut model: Vec<(u64, Sized)> = vec![];
    for i in 0..steps {
        let h = choose(3) * 3 + 1;
        if choose(3) == 0 {
            let to = sym(4);
            c.rollback(to);
            model.retain(|x| x.0 <= to);
            cover(1);
        } else {
            let f = Sized(sym(8) as usize, i);
            let ok = c.push(h, f);
            check(ok == (f.0 <= capacity), 10);
            if ok {
                model.retain(|x| x.0 != h);
                model.push((h, f));
                model.sort_by_key(|x| x.0);
                // The lowest ones go first.
                while model.iter().map(|x| x.1 .0).sum::<usize>() > capacity {
                    model.remove(0);
                    cover(2);
                }
            } else {
                cover(3);
            }
        }
        check(c.len() == model.len() && c.is_empty() == model.is_empty(), 11);
        check(c.size() == model.iter().map(|x| x.1 .0).sum::<usize>() && c.size() <= capacity && c.capacity() == capacity, 12);
        check(c.start() == model.first().map(|x| x.0) && c.end() == model.last().map(|x| x.0), 13);
        for h in [1, 4, 7, 5] {
            let m = model.iter().find(|x| x.0 == h).map(|x| x.1);
            check(c.get(&h).copied() == m, 14);
        }
        check(c.heights().collect::<Vec<_>>() == model.iter().map(|x| x.0).collect::<Vec<_>>(), 15);
    }
}
