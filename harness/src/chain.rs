//! Block tree: fork choice, header validation, import results, checkpoints, header location,
//! persistence of the active chain.
use crate::nk::*;
use crate::util::*;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::constants::Network;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{BlockHash, BlockHeader};
use nakamoto_common::block::store::{Error as StoreError, Store};
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error, ImportResult};
use nakamoto_common::block::Height;
use nakamoto_common::nonempty::NonEmpty;
use std::cell::RefCell;
use std::rc::Rc;

/// Easiest allowed target on the harness network, and a harder one used by the genesis block.
pub const LIMIT: u32 = 0x207fffff;
pub const HARD: u32 = 0x200fffff;
pub const T0: u32 = 1_500_000_000;

/// A store which the harness can look into.
#[derive(Clone)]
pub struct Shared(pub Rc<RefCell<Vec<BlockHeader>>>);

impl Store for Shared {
    type Header = BlockHeader;
    fn genesis(&self) -> BlockHeader {
        self.0.borrow()[0]
    }
    fn put<I: Iterator<Item = BlockHeader>>(&mut self, headers: I) -> Result<Height, StoreError> {
        self.0.borrow_mut().extend(headers);
        Ok(self.0.borrow().len() as Height - 1)
    }
    fn get(&self, height: Height) -> Result<BlockHeader, StoreError> {
        self.0.borrow().get(height as usize).copied().ok_or(StoreError::Corruption)
    }
    fn rollback(&mut self, height: Height) -> Result<(), StoreError> {
        self.0.borrow_mut().truncate(height as usize + 1);
        Ok(())
    }
    fn sync(&mut self) -> Result<(), StoreError> {
        Ok(())
    }
    fn iter(&self) -> Box<dyn Iterator<Item = Result<(Height, BlockHeader), StoreError>>> {
        Box::new(self.0.borrow().clone().into_iter().enumerate().map(|(i, h)| Ok((i as Height, h))))
    }
    fn len(&self) -> Result<usize, StoreError> {
        Ok(self.0.borrow().len())
    }
    fn height(&self) -> Result<Height, StoreError> {
        Ok(self.0.borrow().len() as Height - 1)
    }
    fn check(&self) -> Result<(), StoreError> {
        Ok(())
    }
    fn heal(&self) -> Result<(), StoreError> {
        Ok(())
    }
}

#[derive(Clone)]
pub struct Node {
    pub header: BlockHeader,
    pub hash: BlockHash,
    pub parent: usize,
    pub height: usize,
}

/// A set of blocks; node 0 is the genesis.
pub struct World {
    pub nodes: Vec<Node>,
    pub params: Params,
    pub now: u32,
    pub limit: u32,
    pub checkpoints: Vec<(Height, BlockHash)>,
}

impl World {
    pub fn new(genesis: BlockHeader, params: Params, now: u32) -> Self {
        let g = Node { hash: genesis.block_hash(), header: genesis, parent: 0, height: 0 };
        Self { nodes: vec![g], params, now, limit: LIMIT, checkpoints: vec![] }
    }
    pub fn add(&mut self, parent: usize, time: u32, bits: u32, lo: u8, top: u8) -> usize {
        let i = self.nodes.len();
        let header = mk_header(self.nodes[parent].hash, time, bits, i as u16, lo, top);
        self.nodes.push(Node { hash: header.block_hash(), header, parent, height: self.nodes[parent].height + 1 });
        i
    }
    /// Headers from the genesis up to and including node `i`.
    pub fn path(&self, i: usize) -> Vec<BlockHeader> {
        let mut v = vec![];
        let mut c = i;
        loop {
            v.push(self.nodes[c].header);
            if c == 0 {
                break;
            }
            c = self.nodes[c].parent;
        }
        v.reverse();
        v
    }
    pub fn ids(&self, i: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = i;
        loop {
            v.push(c);
            if c == 0 {
                break;
            }
            c = self.nodes[c].parent;
        }
        v.reverse();
        v
    }
    /// Bitcoin's rules for a header on top of its ancestors, except its proof of work.
    pub fn context_ok(&self, i: usize) -> bool {
        let anc = self.path(self.nodes[i].parent);
        let h = &self.nodes[i].header;
        let want = required_target(&anc, h.time, &self.params, self.limit);
        let mut times: Vec<u32> = anc.iter().rev().take(11).map(|b| b.time).collect();
        let mut below = 0usize;
        for t in times.drain(..) {
            below += (t < h.time) as usize;
        }
        let n = anc.len().min(11);
        let cp = match self.checkpoints.iter().find(|(x, _)| *x as usize == anc.len()) {
            Some((_, hash)) => *hash == self.nodes[i].hash,
            None => true,
        };
        (below > n / 2) & (h.time as u64 <= self.now as u64 + 7200) & (want == target_of(h.bits)) & cp
    }
    pub fn work(&self, i: usize) -> Uint256 {
        let mut w = Uint256::from_u64(0).unwrap();
        for h in self.path(i) {
            w = w + work_of(h.bits);
        }
        w
    }
}

/// The 256-bit target a compact value stands for.
pub fn target_of(bits: u32) -> [u64; 4] {
    let t = BlockHeader::u256_from_compact_target(bits);
    t.0
}

pub fn work_of(bits: u32) -> Uint256 {
    match bits {
        LIMIT => Uint256::from_u64(2).unwrap(),
        HARD => Uint256::from_u64(16).unwrap(),
        _ => {
            // 2^256 / (target + 1) = ~target / (target + 1) + 1
            let t = BlockHeader::u256_from_compact_target(bits);
            let one = Uint256::from_u64(1).unwrap();
            (!t) / (t + one) + one
        }
    }
}

/// The target required of the successor of `anc` (genesis first) with timestamp `time`.
pub fn required_target(anc: &[BlockHeader], time: u32, p: &Params, limit: u32) -> [u64; 4] {
    let tip = anc.last().unwrap();
    let height = anc.len() as u64; // of the new block
    let interval = p.pow_target_timespan / p.pow_target_spacing;
    if height % interval != 0 {
        if p.allow_min_difficulty_blocks {
            let late = time as u64 > tip.time as u64 + 2 * p.pow_target_spacing;
            let mut bits = None;
            for (h, a) in anc.iter().enumerate().rev() {
                if a.bits != limit || h as u64 % interval == 0 {
                    bits = Some(a.bits);
                    break;
                }
            }
            let a = target_of(limit);
            let b = target_of(bits.unwrap());
            return std::array::from_fn(|k| if late { a[k] } else { b[k] });
        }
        return target_of(tip.bits);
    }
    let first = &anc[(height - interval) as usize];
    if p.no_pow_retargeting {
        return target_of(tip.bits);
    }
    let span = tip.time as i64 - first.time as i64;
    let ts = p.pow_target_timespan as i64;
    let span = if span < ts / 4 { ts / 4 } else { span };
    let span = if span > ts * 4 { ts * 4 } else { span };
    let t = BlockHeader::u256_from_compact_target(tip.bits) * Uint256::from_u64(span as u64).unwrap()
        / Uint256::from_u64(p.pow_target_timespan).unwrap();
    let t = if t > p.pow_limit { p.pow_limit } else { t };
    target_of(BlockHeader::compact_target_from_u256(&t))
}

fn snapshot<S: Store<Header = BlockHeader>>(c: &BlockCache<S>) -> Vec<BlockHeader> {
    c.iter().map(|(_, h)| h).collect()
}

/// The active chain as node indices; checks every query against the others.
fn active<S: Store<Header = BlockHeader>>(w: &World, c: &BlockCache<S>) -> Vec<usize> {
    let (tip, hdr) = c.tip();
    let mut v = vec![];
    let mut cur = tip;
    loop {
        let k = w.nodes.iter().position(|x| x.hash == cur).unwrap();
        v.push(k);
        if k == 0 {
            break;
        }
        cur = w.nodes[k].header.prev_blockhash;
    }
    v.reverse();
    check(hdr == w.nodes[*v.last().unwrap()].header, 10);
    check(c.height() as usize == v.len() - 1, 11);
    let it: Vec<_> = c.iter().collect();
    check(it.len() == v.len(), 12);
    for (h, (k, (ih, ihdr))) in v.iter().zip(it.iter()).enumerate() {
        let n = &w.nodes[*k];
        check(*ih as usize == h && *ihdr == n.header, 13);
        check(c.get_block_by_height(h as u64) == Some(&n.header), 14);
        check(c.get_block(&n.hash) == Some((h as u64, &n.header)), 15);
        check(c.contains(&n.hash) && c.is_known(&n.hash), 16);
    }
    check(c.get_block_by_height(v.len() as u64).is_none(), 17);
    check(c.best_block() == (v.len() as u64 - 1, &hdr), 18);
    check(*c.genesis() == w.nodes[0].header, 19);
    for (k, n) in w.nodes.iter().enumerate() {
        if !v.contains(&k) {
            check(!c.contains(&n.hash) && c.get_block(&n.hash).is_none(), 20);
        }
    }
    v
}

/// Post-condition of chain selection.
fn selected<S: Store<Header = BlockHeader>>(w: &World, c: &BlockCache<S>, given: &[bool], tie_by_hash: bool) {
    let act = active(w, c);
    let tip = *act.last().unwrap();
    for k in act.iter().skip(1) {
        check(given[*k], 2);
        check(w.context_ok(*k), 1);
    }
    let total = w.work(tip);
    check(c.chain_work() == total, 4);
    for k in 1..w.nodes.len() {
        let ids = w.ids(k);
        if k == tip || !ids.iter().all(|i| given[*i]) {
            continue;
        }
        let wk = w.work(k);
        let better = wk > total || (tie_by_hash && wk == total && w.nodes[k].hash < w.nodes[tip].hash);
        if better {
            let mut ok = true;
            for i in ids.iter().skip(1) {
                ok &= w.context_ok(*i);
            }
            check(!ok, 3);
        }
    }
}

/// Net effect of an import, as reported.
fn report(w: &World, before: &[usize], after: &[usize], r: &ImportResult) {
    let old: Vec<usize> = before.iter().copied().filter(|k| !after.contains(k)).collect();
    let new: Vec<usize> = after.iter().copied().filter(|k| !before.contains(k)).collect();
    match r {
        ImportResult::TipUnchanged => check(before == after, 30),
        ImportResult::TipChanged { header, hash, height, reverted, connected } => {
            let t = &w.nodes[*after.last().unwrap()];
            check(before != after, 31);
            check(*hash == t.hash && *header == t.header, 32);
            check(*height as usize == t.height, 33);
            check(reverted.len() == old.len(), 34);
            for ((h, hdr), k) in reverted.iter().zip(old.iter().rev()) {
                check(*h as usize == w.nodes[*k].height && *hdr == w.nodes[*k].header, 35);
            }
            check(connected.len() == new.len(), 36);
            for ((h, hdr), k) in connected.iter().zip(new.iter()) {
                check(*h as usize == w.nodes[*k].height && *hdr == w.nodes[*k].header, 37);
            }
        }
    }
}

fn lo(i: usize) -> u8 {
    // Neither creation order nor its reverse.
    [0x40, 0x51, 0x32, 0x63, 0x24, 0x75, 0x16, 0x87][i & 7]
}

/// Blocks arriving one at a time in any order.
fn arrive<S: Store<Header = BlockHeader>>(w: &World, c: &mut BlockCache<S>, tie: bool, store: Option<&Shared>) {
    let n = w.nodes.len();
    let clock = FixedClock(w.now);
    let mut given = vec![false; n];
    given[0] = true;
    let mut act = vec![0];
    for _ in 1..n {
        let left: Vec<usize> = (1..n).filter(|i| !given[*i]).collect();
        let i = left[choose(left.len() as u64) as usize];
        given[i] = true;
        let r = c.import_blocks(std::iter::once(w.nodes[i].header), &clock);
        selected(w, c, &given, tie);
        let now = active(w, c);
        match &r {
            Ok(r) => report(w, &act, &now, r),
            Err(_) => check(act == now, 38),
        }
        if now != act && now.len() > 1 && !act.iter().all(|k| now.contains(k)) {
            cover(2);
        }
        if let Some(s) = store {
            let s = s.0.borrow();
            check(s.len() == now.len(), 40);
            for (a, k) in s.iter().zip(now.iter()) {
                check(*a == w.nodes[*k].header, 41);
            }
        }
        act = now;
    }
    cover(1);
}

fn testnet_world(n: usize) -> World {
    let genesis = mk_header(BlockHash::all_zeros(), T0, HARD, 1000, 0x50, 0x01);
    let mut params = Params::new(Network::Regtest);
    params.no_pow_retargeting = false;
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    for i in 0..n {
        let p = choose(i as u64 + 1) as usize;
        let bits = if choose(2) == 0 { LIMIT } else { HARD };
        let time = u32s();
        assume(time < 0xffff0000);
        w.add(p, time, bits, lo(i), 0x01);
    }
    w
}

fn tree(n: usize) {
    let w = testnet_world(n);
    let s = Shared(Rc::new(RefCell::new(vec![w.nodes[0].header])));
    let mut c = BlockCache::new(s.clone(), w.params.clone(), &[]).unwrap();
    arrive(&w, &mut c, true, Some(&s));
}
/// Any 3 headers: any shape, any times, two difficulties, any arrival order; testnet rule.
pub fn h_tree3() {
    tree(3)
}
pub fn h_tree4() {
    tree(4)
}

/// Shapes and orders of n blocks; times valid and concrete, difficulty by the rule.
fn shapes(n: usize, interval: u64, mainnet: bool) {
    let genesis = mk_header(BlockHash::all_zeros(), T0, HARD, 1000, 0x50, 0x01);
    let mut params = Params::new(Network::Regtest);
    params.no_pow_retargeting = false;
    params.allow_min_difficulty_blocks = false;
    // Small numbers, so that target * timespan stays below 2^256 as on the real networks.
    params.pow_target_spacing = 2;
    params.pow_target_timespan = 2 * interval;
    if mainnet {
        params.network = Network::Bitcoin;
    }
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    for i in 0..n {
        let p = choose(i as u64 + 1) as usize;
        // Fast or slow block: at a period boundary this moves the difficulty up or down.
        let dt = if choose(2) == 0 { 1 } else { 20 };
        let time = w.nodes[p].header.time + dt;
        let t = required_target(&w.path(p), time, &w.params, LIMIT);
        let bits = BlockHeader::compact_target_from_u256(&Uint256(t));
        w.add(p, time, bits, lo(i), 0x00);
    }
    let s = Shared(Rc::new(RefCell::new(vec![w.nodes[0].header])));
    let mut c = BlockCache::new(s.clone(), w.params.clone(), &[]).unwrap();
    arrive(&w, &mut c, !mainnet, Some(&s));
}
/// Forks across difficulty adjustments (every 2 blocks), main network tie rule.
pub fn h_forks_retarget() {
    shapes(4, 2, true)
}
pub fn h_forks_retarget_tie() {
    shapes(4, 2, false)
}
pub fn h_forks_retarget5() {
    shapes(5, 2, true)
}

/// Equal-work blocks: every shape of n blocks, every arrival order, split into up to 2 batches.
fn batch(n: usize, first: usize, mainnet: bool, two: bool) {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let mut params = Params::new(Network::Regtest);
    if mainnet {
        params.network = Network::Bitcoin;
        params.allow_min_difficulty_blocks = false;
    }
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    let mut tips = [0, 0];
    for i in 0..n {
        // Two chains off the genesis, or any tree.
        let side = if two { choose(2) as usize } else { 0 };
        let p = if two { tips[side] } else { choose(i as u64 + 1) as usize };
        let time = w.nodes[p].header.time + if two { 600 } else { 1 + sym(8) as u32 };
        tips[side] = w.add(p, time, LIMIT, lo(i), 0x01);
    }
    let clock = FixedClock(w.now);
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    let mut order = vec![];
    let mut left: Vec<usize> = (1..=n).collect();
    while !left.is_empty() {
        order.push(left.remove(choose(left.len() as u64) as usize));
    }
    for part in [&order[..first], &order[first..]] {
        let before = active(&w, &c);
        let r = c.import_blocks(part.iter().map(|i| w.nodes[*i].header), &clock);
        let after = active(&w, &c);
        match &r {
            Ok(r) => report(&w, &before, &after, r),
            Err(_) => check(false, 39),
        }
        if before.iter().any(|k| !after.contains(k)) {
            cover(2);
        }
    }
    let given = vec![true; n + 1];
    selected(&w, &c, &given, !mainnet);
    cover(1);
}
pub fn h_batch4() {
    batch(4, 1 + choose(3) as usize, false, false)
}
pub fn h_batch5_main() {
    batch(5, 1 + choose(2) as usize, true, true)
}
pub fn h_batch5() {
    batch(5, 1 + choose(2) as usize, false, false)
}
pub fn h_batch6_main() {
    batch(6, 1 + choose(3) as usize, true, true)
}

/// A batch with an invalid header somewhere: the error is reported, what came before it stays.
pub fn h_batch_invalid() {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let params = Params::new(Network::Regtest);
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    let bad = choose(3) as usize;
    let t = u32s();
    for i in 0..3 {
        let time = if i == bad { t } else { T0 + 600 * (i as u32 + 1) };
        w.add(i, time, LIMIT, lo(i), 0x01);
    }
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    let r = c.import_blocks(w.nodes[1..].iter().map(|n| n.header), &FixedClock(w.now));
    let act = active(&w, &c);
    let good = w.context_ok(1 + bad);
    for k in act.iter().skip(1) {
        check(w.context_ok(*k), 1);
    }
    match r {
        Ok(r) => {
            check(good, 50);
            report(&w, &[0], &act, &r);
            cover(1);
        }
        Err(Error::BlockImportAborted(_, i, h)) => {
            check(h as usize == act.len() - 1 && i == act.len() - 1, 51);
            cover(2);
        }
        Err(_) => check(false, 52),
    }
}

// ---- Header validation -------------------------------------------------------------------

/// One header on top of `base` blocks. Times: two earlier ones symbolic.
fn valid_time(base: usize, a: usize, b: usize) {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let params = Params::new(Network::Regtest);
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    w.now = u32s();
    assume(w.now >= T0 + 1_000_000 && w.now < 0xf0000000);
    for i in 0..base {
        let time = if i == a || i == b { u32s() } else { T0 + 600 * (i as u32 + 1) };
        w.add(i, time, LIMIT, lo(i), 0x01);
        assume(w.context_ok(i + 1));
    }
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    let clock = FixedClock(w.now);
    let r = c.import_blocks(w.nodes[1..].iter().map(|n| n.header), &clock);
    check(r.is_ok() && c.height() as usize == base, 60);
    let time = u32s();
    let k = w.add(base, time, LIMIT, 0x77, 0x01);
    let tip = c.tip().0;
    let before = snapshot(&c);
    let h = w.nodes[k].header;
    let r = if choose(2) == 0 { c.import_blocks(std::iter::once(h), &clock) } else { c.extend_tip(h, &clock) };
    let ok = w.context_ok(k);
    match r {
        Ok(ImportResult::TipChanged { .. }) => {
            check(ok, 61);
            check(c.tip() == (w.nodes[k].hash, h) && c.height() as usize == base + 1, 62);
            cover(1);
        }
        Ok(ImportResult::TipUnchanged) => check(false, 63),
        Err(_) => {
            check(!ok, 64);
            check(c.tip().0 == tip && snapshot(&c) == before, 65);
            cover(2);
        }
    }
}
pub fn h_valid_time() {
    match choose(3) {
        0 => valid_time(1, 0, 9),
        1 => valid_time(2, 0, 1),
        _ => valid_time(5, 3, 4),
    }
}
/// The window of 11: one earlier block has any time.
pub fn h_valid_time_window() {
    let n = 11 + choose(3) as usize;
    let a = choose(n as u64) as usize;
    valid_time(n, a, 99)
}
pub fn h_valid_time_window2() {
    valid_time(12, 10, 11)
}

/// Any compact target and a hash of any magnitude, as an extension of the tip, as a fork or as
/// an orphan, on a network with or without the minimum-difficulty rule.
pub fn h_valid_target() {
    let gbits = if choose(2) == 0 { HARD } else { 0x1f7fffff };
    let genesis = mk_header(BlockHash::all_zeros(), T0, gbits, 1000, 0x50, 0x00);
    let mut params = Params::new(Network::Regtest);
    params.no_pow_retargeting = false;
    params.allow_min_difficulty_blocks = choose(2) == 0;
    let min = params.allow_min_difficulty_blocks;
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    let late = choose(2) == 1;
    let kind = choose(3); // extension, fork of depth one, orphan
    let clock = FixedClock(w.now);
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    w.add(0, T0 + 600, gbits, 0x10, 0x00);
    let r = c.import_blocks(std::iter::once(w.nodes[1].header), &clock);
    check(r.is_ok() && c.height() == 1, 70);
    let e = [0u32, 1, 3, 4, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0xff][choose(13) as usize];
    let bits = e << 24 | sym(24) as u32;
    let top = [0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xff][choose(7) as usize];
    let time = T0 + 600 + if late { 1201 } else { 700 };
    let parent = match kind {
        0 => 1,
        1 => 0,
        _ => 1,
    };
    let k = w.add(parent, time, bits, 0x05, top);
    if kind == 2 {
        // Its parent is unknown.
        w.nodes[k].header.prev_blockhash = BlockHash::from_inner([9; 32]);
        let n = w.nodes[k].header;
        if !symbolic() {
            // Natively, hash it anew.
            let h = mk_header(n.prev_blockhash, time, bits, k as u16, 0x05, top);
            w.nodes[k].header = h;
        }
        w.nodes[k].hash = w.nodes[k].header.block_hash();
    }
    let h = w.nodes[k].header;
    let hash = w.nodes[k].hash;
    let t = target_of(bits);
    let hv = le256(&hash);
    let pow = le(&hv, &t);
    let within_limit = le(&t, &w.params.pow_limit.0);
    let r = c.import_blocks(std::iter::once(h), &clock);
    let want = match (kind, min, late) {
        (0, true, true) => target_of(LIMIT),
        (1, true, _) if time > T0 + 1200 => target_of(LIMIT),
        _ => target_of(gbits),
    };
    match kind {
        0 => {
            let ok = pow & (t == want);
            if c.tip().0 == hash {
                check(ok, 71);
                cover(1);
            } else {
                check(!ok, 72);
                check(c.height() == 1 && r.is_err(), 73);
                cover(2);
            }
        }
        1 => {
            // A single fork block never has more work; on a tie the lower hash wins.
            if c.tip().0 == hash {
                check(pow & (t == want), 74);
                cover(3);
            }
            if c.is_known(&hash) {
                check(pow & within_limit, 75);
            } else {
                check(!(pow & within_limit), 76);
                cover(4);
            }
        }
        _ => {
            check(c.height() == 1, 77);
            if c.is_known(&hash) {
                check(pow & within_limit, 78);
                cover(5);
            } else {
                check(!(pow & within_limit), 79);
                cover(6);
            }
        }
    }
}
pub fn le256(h: &BlockHash) -> [u64; 4] {
    let b = h.into_inner();
    std::array::from_fn(|k| u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap()))
}
/// a <= b, little-endian words, without branching.
pub fn le(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut r = true;
    for k in 0..4 {
        r = (a[k] < b[k]) | ((a[k] == b[k]) & r);
    }
    r
}

/// Difficulty adjustment against the reference rule; real network parameters.
fn retarget(net: Network, target: u32) {
    let mut params = Params::new(net);
    params.allow_min_difficulty_blocks = false;
    params.no_pow_retargeting = false;
    // Either out of the proportional range, or in one of several windows of it.
    let window = choose(2) == 1;
    let t_first = if window { 1_231_006_505 } else { u32s() };
    let t_last = if window {
        let base = [302_385u64, 600_000, 1_209_585, 1_209_600, 2_419_190, 4_000_000, 4_838_385][choose(7) as usize];
        t_first + base as u32 + sym(4) as u32
    } else {
        let t = u32s();
        assume(t as i64 <= t_first as i64 + 302_400 || t as i64 >= t_first as i64 + 4_838_400);
        t
    };
    let genesis = mk_header(BlockHash::all_zeros(), t_first, target, 1000, 0x50, 0x00);
    let c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), params.clone(), &[]).unwrap();
    let last = BlockHeader::u256_from_compact_target(target);
    // The last block of the first period; the block before it; the first of the second.
    let k = choose(3);
    let height = [2015, 2014, 2016][k as usize];
    let got = c.next_difficulty_target(height, t_last, last, &params);
    if height == 2015 {
        let span = t_last as i64 - t_first as i64;
        let ts = 1_209_600i64;
        let span = if span < ts / 4 { ts / 4 } else { span };
        let span = if span > ts * 4 { ts * 4 } else { span };
        // Reference: compact of min(last * span / two weeks, limit).
        let t = last.mul_u32(span as u32) / Uint256::from_u64(ts as u64).unwrap();
        let t = if t > params.pow_limit { params.pow_limit } else { t };
        check(got == BlockHeader::compact_target_from_u256(&t), 80);
        // And independently of it: a factor of 4 either way, and never easier than the limit.
        let g = BlockHeader::u256_from_compact_target(got);
        check(g <= params.pow_limit, 81);
        cover(1);
    } else {
        check(got == target, 82);
    }
}
pub fn h_retarget_main() {
    retarget(Network::Bitcoin, [0x1d00ffff, 0x1b0404cb][choose(2) as usize])
}
pub fn h_retarget_main_now() {
    retarget(Network::Bitcoin, 0x170331db)
}

/// Adjustments inside the tree: period of 3 blocks, any times.
pub fn h_retarget_tree() {
    let genesis = mk_header(BlockHash::all_zeros(), T0, HARD, 1000, 0x50, 0x00);
    let mut params = Params::new(Network::Regtest);
    params.no_pow_retargeting = false;
    params.allow_min_difficulty_blocks = choose(2) == 1;
    let min = params.allow_min_difficulty_blocks;
    params.pow_target_spacing = 1;
    params.pow_target_timespan = 4;
    let mut w = World::new(genesis, params, T0 + 1_000_000);
    let clock = FixedClock(w.now);
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    for i in 0..3 {
        let dt = if i == 2 { u32s() } else { 1 };
        let time = w.nodes[i].header.time.wrapping_add(dt);
        assume(time < T0 + 20_000 && time > T0 - 5_000);
        let late = min && i == 2 && time > w.nodes[i].header.time + 2;
        let k = w.add(i, time, if late { LIMIT } else { HARD }, lo(i), 0x00);
        assume(w.context_ok(k));
        let r = c.import_blocks(std::iter::once(w.nodes[k].header), &clock);
        check(r.is_ok() && c.height() == i as u64 + 1, 85);
    }
    // The first block of the second period, claiming a few concrete targets.
    let bits = [HARD, LIMIT, 0x2003ffff, 0x203ffffc, 0x2007ffff, 0x201ffffe, 0x200ffffe][choose(7) as usize];
    let time = w.nodes[3].header.time + 1;
    let k = w.add(3, time, bits, 0x09, 0x00);
    let r = c.import_blocks(std::iter::once(w.nodes[k].header), &clock);
    let ok = w.context_ok(k);
    if r.is_ok() {
        check(ok && c.height() == 4, 86);
        cover(1);
    } else {
        check(!ok && c.height() == 3, 87);
        cover(2);
    }
}

// ---- Checkpoints -------------------------------------------------------------------------

/// A main chain of 4, checkpoints at any subset of heights 1..=5 with right or wrong hashes, and
/// a longer fork off any block.
pub fn h_checkpoints() {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let mut w = World::new(genesis, Params::new(Network::Regtest), T0 + 1_000_000);
    for i in 0..4 {
        let t = w.nodes[i].header.time + 1 + sym(8) as u32;
        w.add(i, t, LIMIT, lo(i), 0x01);
    }
    let at = choose(3) as usize; // fork block height
    let mut p = at;
    let first_fork = w.nodes.len();
    for i in 0..(6 - at) {
        let t = w.nodes[p].header.time + 1 + sym(8) as u32;
        p = w.add(p, t, LIMIT, lo(i + 3), 0x01);
    }
    let which = choose(3);
    for h in 1..=4usize {
        match which {
            0 => {
                if h == 2 {
                    w.checkpoints.push((2, w.nodes[2].hash))
                }
            }
            1 => {
                if h % 2 == 1 {
                    w.checkpoints.push((h as u64, w.nodes[h].hash))
                }
            }
            _ => {
                // Checkpoint on the fork: the main chain cannot get past height 3.
                if h == 4 {
                    let ids = w.ids(p);
                    w.checkpoints.push((4, w.nodes[ids[4]].hash))
                }
            }
        }
    }
    let clock = FixedClock(w.now);
    let mut c =
        BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &w.checkpoints.clone()).unwrap();
    check(c.checkpoints().len() == w.checkpoints.len(), 90);
    // Some prefix of the main chain first, then the fork.
    let m = choose(5) as usize;
    let _ = c.import_blocks(w.nodes[1..=m].iter().map(|n| n.header), &clock);
    let mut deepest = 0;
    for round in 0..2 {
        if round == 1 {
            let fork: Vec<_> = w.nodes[first_fork..].iter().map(|n| n.header).collect();
            if choose(2) == 0 {
                let _ = c.import_blocks(fork.into_iter(), &clock);
            } else {
                for h in fork.into_iter() {
                    let _ = c.import_blocks(std::iter::once(h), &clock);
                }
            }
        }
        let act = active(&w, &c);
        let lc = w.checkpoints.iter().map(|(h, _)| *h).filter(|h| *h <= c.height()).max().unwrap_or(0);
        check(c.last_checkpoint() == lc, 91);
        // Every checkpoint that was passed is respected, and stays.
        check(lc >= deepest, 92);
        deepest = lc;
        for (h, hash) in w.checkpoints.iter() {
            if *h <= c.height() {
                check(w.nodes[act[*h as usize]].hash == *hash, 93);
                cover(3);
            }
        }
        if round == 1 {
            // The fork is longer: it is adopted exactly when it does not contradict a
            // checkpoint of the chain we had.
            let best = w.ids(p);
            let ok = best.iter().skip(1).all(|k| w.context_ok(*k));
            let reached = w.checkpoints.iter().map(|(h, _)| *h as usize).filter(|h| *h <= m && which != 2).max().unwrap_or(0);
            if ok && at >= reached && at <= m {
                check(act == best, 94);
                cover(1);
            }
            if at < reached && which != 2 {
                check(act.iter().take(reached + 1).enumerate().all(|(h, k)| *k == h), 95);
                cover(2);
            }
        }
    }
}

// ---- Locating headers --------------------------------------------------------------------

/// Active chain of `n` blocks, a stale branch, any locators (known, stale, unknown), stop, max.
pub fn h_locate() {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let mut w = World::new(genesis, Params::new(Network::Regtest), T0 + 1_000_000);
    let n = [0, 1, 3, 5][choose(4) as usize];
    for i in 0..n {
        w.add(i, T0 + 600 * (i as u32 + 1), LIMIT, lo(i), 0x01);
    }
    let stale = if n >= 3 { Some(w.add(1, T0 + 1200, LIMIT, 0xf0, 0x01)) } else { None };
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    let _ = c.import_blocks(w.nodes[1..].iter().map(|n| n.header), &FixedClock(w.now));
    let act = active(&w, &c);
    check(act.len() == n + 1, 100);
    // Candidate hashes: every block, the stale one, an unknown one.
    let mut hs: Vec<(BlockHash, Option<usize>)> = (0..=n).map(|i| (w.nodes[i].hash, Some(i))).collect();
    if let Some(s) = stale {
        hs.push((w.nodes[s].hash, None));
    }
    hs.push((BlockHash::from_inner([7; 32]), None));
    let len = choose(3) as usize;
    let mut loc = vec![];
    for _ in 0..len {
        loc.push(hs[choose(hs.len() as u64) as usize]);
    }
    let stop = hs[choose(hs.len() as u64) as usize];
    let max = u8s() as usize;
    let got = c.locate_headers(&loc.iter().map(|x| x.0).collect::<Vec<_>>(), stop.0, max);
    if len == 0 {
        match stop.1 {
            Some(k) => check(got.len() == 1 && got[0] == w.nodes[k].header, 101),
            None => check(got.is_empty(), 102),
        }
        return;
    }
    let from = loc.iter().find_map(|x| x.1).unwrap_or(0);
    let last = stop.1.unwrap_or(n);
    let full = last.saturating_sub(from);
    check(got.len() == full.min(max), 103);
    for (i, h) in got.iter().enumerate() {
        check(*h == w.nodes[from + 1 + i].header, 104);
    }
    cover(1);
}

/// Locator hashes from any height; optional checkpoint.
pub fn h_locators() {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let mut w = World::new(genesis, Params::new(Network::Regtest), T0 + 1_000_000);
    let n = 40;
    for i in 0..n {
        w.add(i, T0 + 600 * (i as u32 + 1), LIMIT, lo(i), 0x01);
    }
    let cp = [0usize, 1, 6, 13, 20, 35][choose(6) as usize];
    if cp > 0 {
        w.checkpoints.push((cp as u64, w.nodes[cp].hash));
    }
    let mut c =
        BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &w.checkpoints.clone()).unwrap();
    for i in 1..=n {
        let _ = c.extend_tip(w.nodes[i].header, &FixedClock(w.now));
    }
    check(c.height() as usize == n, 110);
    let from = [0usize, 1, 2, 7, 8, 9, 10, 11, 12, 15, 20, 30, 39, 40][choose(14) as usize];
    let got = c.locator_hashes(from as u64);
    let heights: Vec<usize> =
        got.iter().map(|h| w.nodes.iter().position(|x| x.hash == *h).expect("on the active chain")).collect();
    if from >= cp {
        check(!heights.is_empty() && heights[0] == from, 111);
        // The most recent ones without gaps, then sparser; down to genesis if no checkpoint.
        let dense = heights.len().min(8).min(from + 1 - cp);
        for i in 0..dense {
            check(heights[i] == from - i, 112);
        }
        check(heights.len() >= dense, 113);
        if cp == 0 {
            check(*heights.last().unwrap() == 0, 114);
        }
        cover(1);
    } else {
        check(heights.is_empty(), 115);
    }
    for p in heights.windows(2) {
        check(p[1] < p[0], 116);
    }
    for h in heights.iter() {
        check(*h >= cp, 117);
    }
    check(heights.len() <= 8 + 7, 118);
}

/// Paths to stale blocks.
pub fn h_find_branch() {
    let genesis = mk_header(BlockHash::all_zeros(), T0, LIMIT, 1000, 0x50, 0x01);
    let mut w = World::new(genesis, Params::new(Network::Regtest), T0 + 1_000_000);
    for i in 0..4 {
        let p = choose(i as u64 + 1) as usize;
        let t = w.nodes[p].header.time + 1 + sym(8) as u32;
        w.add(p, t, LIMIT, lo(i), 0x01);
    }
    let skip = choose(5) as usize; // one block may be missing
    let mut c = BlockCache::new(Memory::new(NonEmpty::new(genesis)), w.params.clone(), &[]).unwrap();
    let _ = c.import_blocks(
        w.nodes.iter().enumerate().skip(1).filter(|(i, _)| *i != skip).map(|(_, n)| n.header),
        &FixedClock(w.now),
    );
    let act = active(&w, &c);
    for k in 0..w.nodes.len() {
        let ids = w.ids(k);
        let have = skip == 0 || !ids.contains(&skip);
        match c.find_branch(&w.nodes[k].hash) {
            Some((h, path)) => {
                check(have, 120);
                let fork = ids.iter().rev().find(|i| act.contains(i)).unwrap();
                check(h as usize == w.nodes[*fork].height, 121);
                let want: Vec<_> =
                    if act.contains(&k) { vec![k] } else { ids[w.nodes[*fork].height..].to_vec() };
                check(path.len() == want.len(), 122);
                for (a, b) in path.iter().zip(want) {
                    check(*a == w.nodes[b].header, 123);
                }
                if want_stale(&act, k) {
                    cover(1);
                }
            }
            None => check(!have, 124),
        }
    }
}
fn want_stale(act: &[usize], k: usize) -> bool {
    !act.contains(&k)
}

// ---- Persistence -------------------------------------------------------------------------

/// Any history over 4 blocks; then load a new tree from the store: same chain, same work.
pub fn h_reload() {
    use nakamoto_common::network::Network as N;
    let genesis = N::Regtest.genesis();
    let mut w = World::new(genesis, N::Regtest.params(), T0 + 1_000_000);
    for i in 0..4 {
        let p = choose(i as u64 + 1) as usize;
        let t = if p == 0 { T0 } else { w.nodes[p].header.time + 1 + sym(8) as u32 };
        w.add(p, t, LIMIT, lo(i), 0x01);
    }
    let clock = FixedClock(w.now);
    let s = Shared(Rc::new(RefCell::new(vec![genesis])));
    let mut c = BlockCache::new(s.clone(), w.params.clone(), &[]).unwrap();
    let cut = choose(5) as usize;
    let mut left: Vec<usize> = (1..=4).collect();
    let mut given = vec![true; 5];
    for i in 0..4 {
        let k = left.remove(choose(left.len() as u64) as usize);
        if i < cut {
            let _ = c.import_blocks(std::iter::once(w.nodes[k].header), &clock);
        } else {
            given[k] = false;
        }
    }
    let before = active(&w, &c);
    let mut d = BlockCache::from(s.clone(), w.params.clone(), &[]).unwrap();
    let after = active(&w, &d);
    check(before == after, 130);
    check(c.chain_work() == d.chain_work(), 131);
    check(c.last_checkpoint() == d.last_checkpoint(), 132);
    // The loaded tree goes on like the one that was not restarted, for what it knows.
    let k = w.add(*before.last().unwrap(), w.now, LIMIT, 0x01, 0x01);
    let r = d.import_blocks(std::iter::once(w.nodes[k].header), &clock);
    check(matches!(r, Ok(ImportResult::TipChanged { .. })) && d.tip().0 == w.nodes[k].hash, 133);
    check(s.0.borrow().len() == before.len() + 1, 134);
    cover(1);
}

/// A store of another network, or with a first block that is not on top of its genesis, is
/// refused.
pub fn h_reload_mismatch() {
    use nakamoto_common::network::Network as N;
    let nets = [N::Mainnet, N::Testnet, N::Regtest, N::Signet];
    let a = nets[choose(4) as usize];
    let b = nets[choose(4) as usize];
    let genesis = a.genesis();
    check(genesis.block_hash() == a.genesis_hash(), 140);
    let linked = choose(2) == 0;
    let prev = if linked { genesis.block_hash() } else { BlockHash::from_inner([3; 32]) };
    let h = mk_header(prev, T0, LIMIT, 1, 0x11, 0x01);
    let s = Shared(Rc::new(RefCell::new(vec![genesis, h])));
    let r = BlockCache::from(s, b.params(), &[]);
    check(r.is_ok() == (linked && a.magic() == b.magic()), 141);
    if let Ok(c) = r {
        check(c.height() == 1 && c.tip().0 == h.block_hash(), 142);
        cover(1);
    }
}
