"""Texts of the properties (source of properties.jsonl)."""
CACHE = "chain/src/block/cache.rs"
TREE = "common/src/block/tree.rs"
DEFS = [
 dict(id="C01", title="The active chain is the valid known chain with the most work",
  statement="After any sequence of header imports, the active chain starts at the genesis block, every block on it is valid on top of its own ancestors, and no other chain of headers that was submitted and is valid on top of its own ancestors has more accumulated work. On networks other than the main network, chains of equal work are decided in favour of the numerically first tip hash in byte order, independently of arrival order; on the main network the chain that was active first stays. The reported total work is the sum of the work of all active blocks, genesis included.",
  over=["inputs", "histories"], for_all="all trees of headers (parents, timestamps, difficulty) and all arrival orders, including parents arriving after children",
  why="Tests import a handful of hand-written trees and random sequences checked against a similar implementation; the space of tree shapes, timestamps and arrival orders is not covered, and fork validity rules were in fact wrong on the original code.",
  files=[CACHE, TREE], mechanism=[("candidate search, work comparison and switch to the best branch", CACHE + ": import_block, chain_candidates, switch_to_fork, rollback"), ("branch work", TREE + ": Branch::work")],
  observe_at=["BlockTree::import_blocks", "BlockReader::tip/iter/chain_work"]),
 dict(id="C02", title="Only headers that obey the consensus rules become active",
  statement="A header becomes part of the active chain only if its hash meets its claimed target, its claimed target is the one required at that point of its own branch (and never easier than the network's limit), its timestamp is greater than the median of the up to 11 preceding blocks of its branch, and its timestamp is at most two hours ahead of the adjusted time. A header that satisfies all of this and extends the tip is accepted; one that does not is rejected and leaves the chain as it was. A header whose hash misses its own target or whose target is easier than the limit is not even remembered.",
  over=["inputs"], for_all="all timestamps, compact targets, hash magnitudes and clock values, for headers extending the tip, forking or orphaned",
  why="Tests use fixed headers mined on regtest; off-by-one errors at the median, at the two-hour limit, at window lengths below or above 11, and unusual compact targets need exhaustive input coverage.",
  files=[CACHE, "common/src/block/time.rs"], mechanism=[("header validation", CACHE + ": validate, import_block"), ("median time past", CACHE + ": median_time_past"), ("time limits", "common/src/block/time.rs: MEDIAN_TIME_SPAN, MAX_FUTURE_BLOCK_TIME")],
  observe_at=["BlockTree::import_blocks", "BlockTree::extend_tip"]),
 dict(id="C03", title="Difficulty follows Bitcoin's adjustment rule",
  statement="The target required of a block changes only at the period boundaries of the network, where it becomes the previous target scaled by the time the period took over the time it should have taken, with that ratio limited to a factor of four either way and the result never easier than the network's limit. Between boundaries it stays the same, except that networks with the minimum-difficulty rule require the easiest target of a block more than two target spacings later than its parent, and otherwise the most recent target that was not set that way. No timestamps make the computation fail.",
  over=["inputs", "histories"], for_all="all timestamps of the first and last block of a period, and all trees of a few short periods with forks across a boundary",
  why="Tests compare a few recorded mainnet adjustments; clamping, rounding, negative durations and forks across a boundary are not exercised.",
  files=[TREE, CACHE, "common/src/block.rs"], mechanism=[("retarget computation", TREE + ": next_difficulty_target"), ("minimum-difficulty rule", CACHE + ": next_min_difficulty_target")],
  observe_at=["BlockReader::next_difficulty_target", "BlockTree::import_blocks"]),
 dict(id="C04", title="Imports report exactly how the active chain changed",
  statement="An import of any batch of headers reports a changed tip exactly when the active tip changed, together with the new tip's hash, header and height, the blocks that left the active chain in descending height order and the blocks that joined it in ascending height order, each exactly once, with their heights, and nothing else. If a header of the batch is invalid the import fails, says how many headers preceded it, and the headers before it stay imported.",
  over=["inputs", "histories"], for_all="all trees of up to 5 or 6 blocks, all orders and all splits into batches, with zero, one or several re-organisations within one batch",
  why="Tests cover single re-organisations; several re-organisations inside one batch were reported wrongly on the original code.",
  files=[CACHE], mechanism=[("accumulation of reverted and connected blocks", CACHE + ": import_blocks")], observe_at=["ImportResult"]),
 dict(id="C05", title="Checkpointed history is never replaced",
  statement="No active block at the height of a checkpoint has a hash other than the checkpoint's, and once the active chain has reached a checkpoint, no header forking off below it is ever adopted, whatever work it carries. Forks at or above the last reached checkpoint are still judged by work alone, and the reported last checkpoint is the highest one not above the tip.",
  over=["inputs", "histories", "configurations"], for_all="all placements of checkpoints on or off the imported chain and all fork points, imported as a batch or one by one",
  why="Tests check one fork before one checkpoint.",
  files=[CACHE, "common/src/block/checkpoints.rs"], mechanism=[("fork refusal", CACHE + ": import_block, last_checkpoint"), ("checkpoint hash comparison", CACHE + ": validate")], observe_at=["BlockTree::import_blocks", "BlockReader::last_checkpoint"]),
 dict(id="C06", title="Header queries and locators describe the active chain",
  statement="Lookups by hash and by height, iteration, the tip, locators and located headers all describe the same active chain. Locating headers returns the consecutive active headers following the first locator that is on the active chain (or following genesis if none is), up to the stop hash if it is active, else up to the tip, and never more than the given maximum; with no locators it returns just the stop header. Locators start at the given height, descend strictly with the most recent ones gapless, never go below the last checkpoint and otherwise reach genesis; the path to a stale block starts at the fork block and has every block up to it.",
  over=["inputs", "histories"], for_all="all locator lists of up to two known, stale or unknown hashes, all stop hashes and limits, all start heights and checkpoints on a 40 block chain, all small trees with a missing block",
  why="Tests sample a few locator lists on one chain.",
  files=[CACHE, "common/src/block.rs"], mechanism=[("header location", CACHE + ": locate_headers, locator_hashes, find_branch"), ("exponential back-off", "common/src/block.rs: locators_indexes")], observe_at=["BlockReader"]),
 dict(id="C07", title="The stored header chain is the active chain and reloads as such",
  statement="After every import, including re-organisations, the store holds exactly the headers of the active chain in height order. Loading a tree from that store gives the same tip, height, work, checkpoints and lookups as before, and it continues to accept successors. A store whose first block does not follow the network's genesis block is refused.",
  over=["inputs", "histories"], for_all="all trees of up to 4 blocks, all arrival orders, and a restart after any number of imports",
  why="Tests reload one straight chain.",
  files=[CACHE, "chain/src/block/store/memory.rs"], mechanism=[("store updates on extension and rollback", CACHE + ": switch_to_fork, rollback, extend_tip"), ("loading", CACHE + ": load_with")], observe_at=["Store contents", "BlockCache::from"]),
 dict(id="C08", title="Header files read back what was stored, and recover from torn writes",
  statement="A header file shows the genesis entry followed by exactly the entries that were put and not rolled back, in order and bit for bit, through length, height, lookup and iteration, before and after it is closed and reopened. A file cut at any byte while entries were being written is reported as damaged exactly if it ends within an entry, and healing it leaves the longest whole prefix of what was stored, on top of which storing goes on.",
  over=["inputs", "histories", "crash points"], for_all="all sequences of storing, rolling back and reopening, all entry contents, and every byte offset at which the file may be cut",
  why="Tests write one file and corrupt it in one place; iteration batches, reopening after rollbacks and cut offsets are not covered.",
  files=["chain/src/block/store/io.rs", "chain/src/filter/cache.rs"], mechanism=[("file layout, put, get, rollback, heal", "chain/src/block/store/io.rs: File, put, get, Iter"), ("filter header entries", "chain/src/filter/cache.rs: StoredHeader")], observe_at=["Store"]),
 dict(id="C09", title="Stored filter headers form one verifiable chain that survives restarts",
  statement="The filter header store shows, by height, by range and as its tip, exactly the headers imported on top of what was left by rollbacks, also after a restart, and any height or range beyond it gives nothing. A stored filter header chain verifies exactly if it starts at the network's genesis filter header and each header is the hash of its filter hash and its predecessor; any altered, swapped, repeated or missing entry below the tip, or another network's chain, does not verify.",
  over=["inputs", "histories"], for_all="all import, rollback, clear and restart sequences of a few headers, all heights and ranges, and all values of a replaced header",
  why="Tests import one list of headers.",
  files=["chain/src/filter/cache.rs", "common/src/block/filter.rs"], mechanism=[("import, rollback, queries, verification", "chain/src/filter/cache.rs: FilterCache")], observe_at=["Filters", "FilterCache::verify"]),
 dict(id="C10", title="Network-adjusted time follows the peers' median within 70 minutes",
  statement="Adjusted time is local time plus an offset that changes only when an odd number of samples, five or more counting the local clock's zero, is reached: then it is their median if that lies within 70 minutes of local time, and zero otherwise. Each peer counts once, at most 200 samples count, no reported time makes the computation fail, and moving the local clock keeps the offset.",
  over=["inputs", "histories"], for_all="all sequences of up to 8 peer offsets of 64 bits, in any order, and repeated samples",
  why="Tests use a few samples; the extremes of the offset range did overflow on the original code.",
  files=["common/src/block/time.rs"], mechanism=[("sample recording and median", "common/src/block/time.rs: AdjustedTime::record_offset")], observe_at=["AdjustedTime::offset", "Clock::block_time"]),
 dict(id="C11", title="Every timer fires once, when it is due, and not earlier",
  statement="A registered timeout is woken by the first wake-up at or after its time and never before or twice, in order of time, and the reactor's next wake-up is the earliest registered timeout. A registration is dropped only if another registered wake-up lies within the reactor's threshold of it.",
  over=["inputs", "schedules"], for_all="all sequences of registrations and wake-ups at any times, four thresholds",
  why="Tests register a few fixed times.",
  files=["net/poll/src/time.rs"], mechanism=[("timer list", "net/poll/src/time.rs: TimeoutManager")], observe_at=["TimeoutManager::wake/next"]),
 dict(id="C12", title="Messages decode the same however the byte stream is cut",
  statement="However the bytes of a connection are split into reads, the decoder hands out the same sequence of messages, each as soon as its last byte has arrived, with nothing lost, repeated or altered. A message that does not decode, such as one with a wrong checksum, is reported as an error and not handed out.",
  over=["inputs", "schedules"], for_all="all streams of 7 bytes cut at any two places, and two network messages with any magic and checksum cut anywhere",
  why="Tests feed one sequence with random cuts.",
  files=["p2p/src/stream.rs"], mechanism=[("incremental decoding", "p2p/src/stream.rs: Decoder")], observe_at=["Decoder::input/decode_next"]),
 dict(id="C13", title="The handshake admits only suitable peers, in order, and nothing before it",
  statement="A peer counts as negotiated exactly once and only after its version message and then its verack, each once, in time; anything else it sends in between, out of order or repeatedly, never makes it negotiated and never restarts the handshake. Peers whose protocol version is below the minimum, peers chosen from the address book that lack the required services, and connections of the node to itself are disconnected without being negotiated; all others are answered with our version (if they connected to us), wtxidrelay, verack and sendheaders. Until a peer is negotiated nothing but handshake messages is sent to it, and what is reported about it (services, height, version, link, relay) is what its version message said; no version message makes the node fail.",
  over=["inputs", "schedules"], for_all="all contents of a version message (version, services, timestamp, nonce, height, relay), and all sequences of a few handshake messages and delays, for inbound, outbound and user-requested connections",
  why="Tests follow the expected order with ordinary values; the original code overflowed on some timestamps, took negative heights for huge ones, restarted on a second version and never detected a connection to itself.",
  files=["p2p/src/fsm/peermgr.rs", "p2p/src/fsm.rs"], mechanism=[("handshake states", "p2p/src/fsm/peermgr.rs: received_version, received_verack, received_wtxidrelay, check_version"), ("dispatch", "p2p/src/fsm.rs: StateMachine::message_received")], observe_at=["Io::Write/Disconnect", "Event::PeerNegotiated"]),
 dict(id="C14", title="Connection slots are filled, never exceeded, and retried with back-off",
  statement="As long as suitable addresses are known, the node dials until its configured number of outbound peers is connected or being connected, and never more; a lost, refused or unanswered connection frees its slot, which is filled again with an address not just tried. Exactly as many inbound peers are admitted as configured and the next one is disconnected. A peer configured as persistent is dialled again after every failure or loss, waiting twice as long each time up to an hour and starting over once connected.",
  over=["histories", "schedules"], for_all="all sequences of up to 4 connections established, refused, lost, timed out and accepted, with any services of the peers and any wake-up times",
  why="Tests walk through single sequences; the original code refused the last inbound slot, counted inbound peers as outbound and reported failed dials as lost connections.",
  files=["p2p/src/fsm/peermgr.rs", "p2p/src/fsm/addrmgr.rs"], mechanism=[("slots and maintenance", "p2p/src/fsm/peermgr.rs: maintain_connections, peer_connected, peer_disconnected"), ("persistent peers", "p2p/src/fsm/peermgr.rs: maintain_persistent")], observe_at=["Io::Connect/Disconnect", "Event::PeerConnectionFailed/PeerDisconnected"]),
 dict(id="C15", title="Pings are answered and find dead peers",
  statement="Each ping of a negotiated peer is answered with one pong carrying its nonce, and pings of others are not answered. A negotiated peer is pinged two minutes after its last answer, never while an answer is outstanding, and is disconnected exactly if no pong with the right nonce arrives within half a minute.",
  over=["inputs", "schedules"], for_all="all sequences of 3 or 4 pings, pongs and wake-ups with any nonces and delays",
  why="Tests use one peer with fixed delays.",
  files=["p2p/src/fsm/pingmgr.rs"], mechanism=[("ping states", "p2p/src/fsm/pingmgr.rs: received_ping, received_pong, received_wake")], observe_at=["Io::Write", "Io::Disconnect"]),
 dict(id="C16", title="Headers from peers are asked for, judged, followed up and reported",
  statement="The node asks a peer for headers exactly when it claims or announces more than the node has, with locators of its active chain, and reports being synced otherwise; what arrives changes the active chain and is reported as connected and disconnected blocks exactly as the tree changed. Headers that do not attach make it ask for the missing ones, a full message makes it ask for more, too many or invalid headers get the peer disconnected as misbehaving, and unsolicited long messages and those of peers without a handshake change nothing. An unanswered request gets the peer disconnected or another one asked after half a minute; new tips are announced to inbound peers that are behind, and peers asking for headers get the active ones after their locator.",
  over=["inputs", "histories", "schedules"], for_all="all sequences of 2 (thorough 3) header messages out of extensions, forks, orphans, known ones and any timestamp, all claimed heights, message lengths around the limits, locators and stop hashes",
  why="Tests sync along one straight path or one re-organisation; peers that sent invalid headers were never dropped by the original code, and nodes whose only peers serve filters did not sync.",
  files=["p2p/src/fsm/syncmgr.rs"], mechanism=[("sync with peers", "p2p/src/fsm/syncmgr.rs: sync, received_headers, import_blocks, received_inv, received_getheaders, received_wake")], observe_at=["Io::Write", "Event::BlockConnected/BlockDisconnected/BlockHeadersImported", "Command::GetTip"]),
 dict(id="C17", title="The address book takes up, shares and dials only suitable addresses",
  statement="An address announced by a peer or imported by the user is taken up exactly if it is globally routable, of a configured network, has the required and no antiquated services, was (if announced) last seen at a plausible time, and is not known, banned or the node's own; a known entry is never overwritten, no more than 256 addresses of one range are kept, and messages without or with over 1000 addresses are ignored. Peers disconnected for misbehaving are banned: they leave the book and do not come back. Only known addresses are dialled, those with the preferred services first, never one that is connected, that failed and never succeeded, or that was picked in the last three minutes; requests for addresses are answered with one known address of each range, and the node asks the peers it chose for more when it runs out, at most once a minute.",
  over=["inputs", "histories", "schedules"], for_all="all services and times of announced and stored addresses, the boundaries of all special address ranges, messages of 0 to 1001 addresses, and any wake-up times",
  why="Tests use random or a few fixed addresses; the original code ignored addresses imported by the user and forgot bans of peers not in the book.",
  files=["p2p/src/fsm/addrmgr.rs", "p2p/src/fsm/peermgr.rs"], mechanism=[("insertion rules and ranges", "p2p/src/fsm/addrmgr.rs: insert, populate_address_ranges, is_routable, is_local"), ("sampling", "p2p/src/fsm/addrmgr.rs: sample_with"), ("bans", "p2p/src/fsm/addrmgr.rs: ban, peer_disconnected")], observe_at=["peer::Store contents", "Io::Connect", "Io::Write"]),
 dict(id="C18", title="The peer address file reads back what was flushed",
  statement="After a restart the peer cache shows exactly the entries of its last flush, with address, services, source and all four times, whatever was inserted, changed or removed before and after. A file damaged in any byte or cut anywhere is either read or refused with an error, without a crash.",
  over=["inputs", "histories", "crash points"], for_all="all sequences of 4 insertions, removals, changes, flushes and restarts, symbolic times and services, every byte replaced by every value, every cut",
  why="Tests save and load one list; the original code crashed on a malformed address.",
  files=["client/src/peer.rs", "common/src/p2p/peer.rs"], mechanism=[("file format", "common/src/p2p/peer.rs: KnownAddress::to_json, from_json"), ("loading and flushing", "client/src/peer.rs: Cache::from, flush")], observe_at=["peer::Store"]),
 dict(id="C19", title="Filter headers are asked for, accepted and served in line with the chain",
  statement="The node asks a peer for exactly the filter headers it is missing, at most 2000 at a time, and takes up an answer exactly if it is of the basic type, for what was asked, complete, and continues the stored headers; then it reports being synced or asks for the rest, and a peer that answers otherwise is disconnected as misbehaving, except for answers that weren't asked for or that crossed with a change of the chain. When blocks are replaced their filter headers are dropped and those of the new blocks asked for, so that with one honest peer the stored filter headers end up being those of the active chain; an unanswered request is repeated after six seconds, to another peer if there is one, and the silent peer is dropped unless the user configured it. Peers asking for filter headers get exactly the range they asked for if all of it is there, and nothing otherwise.",
  over=["inputs", "histories", "schedules"], for_all="all combinations of filter type, stop hash, previous header and number of hashes in an answer, all heights already stored, all times and answers lost or late, re-organisations at any height, any start height asked of us",
  why="Tests walk one straight sync and a few bad messages; the original code served truncated ranges, dropped honest peers after a re-organisation and dropped the user's own peers.",
  files=["p2p/src/fsm/cbfmgr.rs", "chain/src/filter/cache.rs"], mechanism=[("filter header sync", "p2p/src/fsm/cbfmgr.rs: send_getcfheaders, received_cfheaders, handle_cfheaders, rollback, received_wake"), ("serving", "p2p/src/fsm/cbfmgr.rs: received_getcfheaders")], observe_at=["Io::Write/Disconnect", "Event::FilterHeadersSynced", "Filters contents"]),
 dict(id="C20", title="A rescan reports every matching block once, in order, and nothing else",
  statement="A rescan looks at the filter of every active block from its start to its end (or onwards), each once, in height order, and reports exactly the blocks that pay or spend what is watched, in order, with the block; blocks that are replaced meanwhile are scanned and reported anew. This holds for any bounds, any order, loss or repetition of the peers' answers, cached filters and missing peers, and it is never said that scanning has reached a height while something below is missing. A filter that does not hash to its filter header gets its sender disconnected and is not used; filters requested by the user arrive for exactly the heights requested, or an error is returned.",
  over=["inputs", "histories", "schedules"], for_all="all start and end heights of 64 bits, all orders of arrival of the filters and blocks, all sets of matching blocks, and all histories of 2 (thorough 3) steps of answers, losses, delays, extensions and re-organisations",
  why="Tests deliver answers in one order on one chain or sample a few histories; the original code missed the last block of a bounded scan, missed matches in its cache and scanned replaced blocks.",
  files=["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/cbfmgr/rescan.rs", "p2p/src/fsm/invmgr.rs"], mechanism=[("scan state", "p2p/src/fsm/cbfmgr/rescan.rs: Rescan::received, process, requests, rollback"), ("requests and matches", "p2p/src/fsm/cbfmgr.rs: rescan, get_cfilters, received_cfilter, sync")], observe_at=["Event::FilterProcessed/BlockMatched/Scanned/FilterRescanStopped", "Io::Write"]),
 dict(id="C21", title="Requested blocks are fetched, checked and handed on complete and in order",
  statement="A requested block is asked from a peer that has blocks, as soon as there is one and again every fifteen seconds until it arrives, from whomever. It is handed on once, with the transactions its header commits to and no others, in height order with the other requested blocks; anything else a peer sends as a block changes nothing. Requests for blocks that are replaced by a re-organisation are forgotten and hold up no others.",
  over=["inputs", "histories", "schedules"], for_all="all orders of request and arrival of up to 3 blocks, blocks with added, removed or changed transactions or of another branch, any wake-up times, and re-organisations at any height and time",
  why="Tests deliver the right blocks; the original code took altered transactions for part of a block and waited forever for replaced blocks.",
  files=["p2p/src/fsm/invmgr.rs"], mechanism=[("block requests", "p2p/src/fsm/invmgr.rs: get_block, schedule, received_block, block_reverted, received_wake")], observe_at=["Io::Write", "Event::BlockProcessed"]),
 dict(id="C22", title="Submitted transactions are announced, served, and tracked until confirmed",
  statement="A submitted transaction is announced once to each peer that relays transactions, those that connect later included, by the identifier it asked for, again each minute until the peer asks for it, and a peer that ignored three announcements is dropped; it is served to whoever asks, and nothing else is. Its status is reported as acknowledged when first asked for, confirmed with the right block once an active block contains it, whatever its outputs, after which it is neither announced nor served; and when that block is replaced it is reported reverted, announced and served again, and confirmed again if the new chain contains it.",
  over=["inputs", "histories", "schedules"], for_all="all combinations of three peers' relay and identifier wishes, all sequences of two requests from either peer, any wake-up times, confirmations, re-organisations right away or later with the transaction in either place or gone",
  why="Tests follow one peer and one transaction; the original code announced to peers that asked not to, never found transactions with data outputs, and counted old attempts against new transactions.",
  files=["p2p/src/fsm/invmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm.rs"], mechanism=[("outbox and announcements", "p2p/src/fsm/invmgr.rs: announce, peer_negotiated, received_getdata, received_wake"), ("confirmation and reversal", "p2p/src/fsm/invmgr.rs: process_block, block_reverted; p2p/src/fsm/cbfmgr/rescan.rs: process")], observe_at=["Io::Write/Disconnect", "Event::TxStatusChanged", "Command::GetSubmittedTransaction"]),
 dict(id="C23", title="Fee estimates and the filter cache are exact over any history",
  statement="The fee estimate of a block is the lowest, median and highest fee rate of its transactions whose inputs are known from the blocks processed and not rolled back, whatever was processed or rolled back before; a block at or below the last height is not counted, and no transaction, valid or not, makes the node fail. The filter cache holds exactly the filters stored and not rolled back, except the lowest ones that exceeded its capacity, never exceeds it, and reports its size, bounds and heights accordingly.",
  over=["inputs", "histories"], for_all="all sequences of 4 blocks and roll-backs at any 64-bit heights; up to 5 fee rates of 64 bits; all sequences of 3 (thorough 4) insertions and roll-backs with any filter sizes and capacity",
  why="Tests process a few random blocks; the original code panicked on overspending transactions, lost its state on a harmless roll-back and lost track of its cache size.",
  files=["p2p/src/fsm/fees.rs", "p2p/src/fsm/filter_cache.rs"], mechanism=[("fee estimation", "p2p/src/fsm/fees.rs: FeeEstimator::process, rollback; FeeEstimate::from"), ("cache", "p2p/src/fsm/filter_cache.rs: push, rollback")], observe_at=["FeeEstimator::process", "Event::BlockProcessed", "FilterCache"]),
 dict(id="C24", title="A client killed at any point starts again and catches up",
  statement="Whenever the client process is killed, between any two changes it makes to its files, it starts again from what is there, without failing. After that its header chain is one it had before or was about to have, and with one honest peer it reaches that peer's chain, headers and filter headers of every active block included, and stores them so that a further start shows the same.",
  over=["crash points", "histories"], for_all="all file changes before which it may be killed, during the first sync, a recovery, an extension and re-organisations at every height of a short chain",
  why="Tests never kill a client; the original code failed an assertion on every start after being killed in the middle of a re-organisation.",
  files=["client/src/client.rs", "p2p/src/fsm/cbfmgr.rs", "chain/src/block/cache.rs", "chain/src/filter/cache.rs", "common/src/block/store.rs", "chain/src/block/store/io.rs"], mechanism=[("loading the stores", "client/src/client.rs: Client::load"), ("consistency on start", "p2p/src/fsm/cbfmgr.rs: initialize"), ("healing", "chain/src/block/store/io.rs: File::heal")], observe_at=["Client::load / Client::run", "store contents after restart"]),
 dict(id="C25", title="The client passes bytes, commands and events on faithfully",
  statement="However the bytes of the peers are cut into reads and interleaved, the client handles exactly the messages they contain, each once, in order and on behalf of the peer that sent it, and what it sends does not depend on the cuts. Bytes that are not a message of the configured network get only their sender disconnected, and every event of the node reaches each subscriber once and in order.",
  over=["inputs", "schedules"], for_all="all cuts of a handshake and the messages after it into up to 3 reads, any two bytes of garbage, and interleavings of the streams of two peers",
  why="Tests hand over one message per read; the original code dropped messages that arrived in the same read as the end of the handshake.",
  files=["client/src/service.rs", "client/src/client.rs", "client/src/event.rs", "net/src/event.rs", "p2p/src/stream.rs", "p2p/src/fsm/output.rs"], mechanism=[("decoding per peer", "client/src/service.rs: message_received"), ("events", "net/src/event.rs: Emitter, Broadcast")], observe_at=["Io::Write/Disconnect handed to the reactor", "Handle::events"]),
 dict(id="C26", title="No message of a peer makes the node fail or harms other peers",
  statement="Any message of the protocol, with whatever content and at whatever time, before, during or after the handshake, solicited or not, leaves the node running: it does not panic or overflow, and afterwards the node still answers other peers, keeps them connected, and has changed its chain only to valid headers. What it sends in reaction goes to connected peers only, and a disconnected peer is sent nothing.",
  over=["inputs", "histories"], for_all="all pairs of messages of 36 kinds (degenerate, unsolicited and malformed ones included) with any delay in between, from peers in five states of the connection, on an idle and on a busy node",
  why="Tests send each message once in the expected state; a peer chooses any message at any time.",
  files=["p2p/src/fsm.rs", "p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/invmgr.rs", "p2p/src/fsm/addrmgr.rs", "p2p/src/fsm/peermgr.rs", "p2p/src/fsm/pingmgr.rs"], mechanism=[("message dispatch", "p2p/src/fsm.rs: StateMachine::message_received")], observe_at=["Io::Write/Disconnect", "Event", "Command::GetTip/GetPeers"]),
 dict(id="C27", title="The reactor carries bytes, reports connections and keeps time faithfully",
  statement="Whatever the operating system does to the sockets (partial writes, refused, reset or closed connections, interrupted waits), the reactor hands on all bytes received and transmits all bytes written, each once, unchanged and in order per connection, for as long as the connection lasts. The service hears of each connection exactly once that it is established, never if it was not, and exactly once that it ended, with the right kind of reason, after which the socket is closed; commands and events are passed on once and in order, and no connection affects another. The service is told the time at each step, and its timers go off when they are due, neither early nor late, also while there is traffic.",
  over=["inputs", "schedules", "faults"], for_all="all sequences of 4 (thorough 5) happenings out of writes, partial writes of any size, data, end of stream, reset, refusal, disconnection, reconnection and interruption on one connection, 3 on two, and 3 timers and delays of any length",
  why="Tests run a few connections over loopback; the original code reported refused connections as connected, stopped when a signal arrived and let no timer expire while sockets were busy.",
  files=["net/poll/src/reactor.rs", "net/poll/src/socket.rs", "net/poll/src/time.rs"], mechanism=[("event loop", "net/poll/src/reactor.rs: run, process, handle_readable, handle_writable, register_peer, unregister_peer, dial"), ("write buffer", "net/poll/src/socket.rs: push, flush"), ("timers", "net/poll/src/time.rs: TimeoutManager")], observe_at=["calls of the Service trait", "system calls on the sockets"]),
 dict(id="C28", title="The wallet's balance and coins follow the transactions it applied",
  statement="After any sequence of applied transactions the wallet's database holds exactly the unspent outputs that pay to its addresses, and the balance is their sum.",
  over=["inputs", "histories"], for_all="all sequences of transactions", why="Tests add and remove single outputs.",
  files=["wallet/src/wallet.rs", "wallet/src/wallet/db.rs"], mechanism=[("applying transactions", "wallet/src/wallet.rs: Wallet::apply"), ("database", "wallet/src/wallet/db.rs")], observe_at=["Db::utxos", "Db::balance"]),
]
NOT_APPLICABLE = [("C28", "All of the wallet's state is kept by SQLite, a C library whose SQL engine would have to be executed symbolically along with the queries; it is built outside of the Rust compiler and is no part of the bitcode the executor reads.")]
