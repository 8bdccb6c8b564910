"""Per property: harnesses per tier, bounds, what lies outside them, assumptions."""
HASH = ("block hashes of harness-made headers come from an oracle chosen by the harness (distinct, any of the tried "
        "magnitudes) instead of SHA-256; natively such headers are mined for the replay")
SORT = "the hasher seed of std::collections::HashMap is fixed, so its iteration order is one order per run"
FS = "file operations act on an in-memory file system of the executor (every write complete and in order); replays use a scratch directory"
PROPS = {
 "C01": {
  "quick": [("h_tree3", {"covers": [1, 2]}), ("h_forks_retarget", {"covers": [1, 2]}), ("h_batch4", {"covers": [1, 2]})],
  "thorough": [("h_tree3", {"covers": [1, 2]}), ("h_forks_retarget", {"covers": [1, 2]}), ("h_forks_retarget_tie", {"covers": [1, 2]}),
               ("h_batch5", {"covers": [1, 2]}), ("h_batch5_main", {"covers": [1, 2]}), ("h_tree4", {"covers": [1, 2], "t": 6000})],
  "bounds_text": "trees of 3 headers with symbolic 32-bit timestamps and two difficulties under the minimum-difficulty rule, 4 headers across difficulty periods of 2 blocks, 4 (thorough 5) headers in two batches; every arrival order",
  "outside": "more blocks than stated; more than two distinct difficulties at once outside the retarget trees; a clock that changes between imports",
  "assumptions": [HASH, SORT]},
 "C02": {
  "quick": [("h_valid_time", {"covers": [1, 2]}), ("h_valid_time_window", {"covers": [1, 2]}), ("h_valid_target", {"covers": [1, 2, 3, 4, 5, 6]})],
  "thorough": [("h_valid_time", {"covers": [1, 2]}), ("h_valid_time_window", {"covers": [1, 2]}), ("h_valid_time_window2", {"covers": [1, 2]}),
               ("h_valid_target", {"covers": [1, 2, 3, 4, 5, 6]}), ("h_tree3", {"covers": [1, 2]})],
  "bounds_text": "symbolic candidate time, symbolic clock, one or two symbolic earlier times on chains of 1 to 13 blocks; symbolic 24-bit mantissa with 13 exponents and 7 hash magnitudes, as extension, fork and orphan",
  "outside": "longer chains; more than two symbolic earlier timestamps",
  "assumptions": [HASH]},
 "C03": {
  "quick": [("h_retarget_main", {"covers": [1]}), ("h_retarget_tree", {"covers": [1, 2]}), ("h_forks_retarget_tie", {"covers": [1, 2]})],
  "thorough": [("h_retarget_main", {"covers": [1]}), ("h_retarget_main_now", {"covers": [1]}), ("h_retarget_tree", {"covers": [1, 2]}),
               ("h_forks_retarget", {"covers": [1, 2]}), ("h_forks_retarget_tie", {"covers": [1, 2]}), ("h_forks_retarget5", {"covers": [1, 2], "t": 6000}),
               ("h_tree3", {"covers": [1, 2]})],
  "bounds_text": "mainnet parameters, 2 (thorough 3) starting targets, both timestamps symbolic outside the proportional range and symbolic windows of 16 s at 7 places within it; trees with periods of 2 and 4 blocks",
  "outside": "period durations between the windows; other starting targets",
  "assumptions": [HASH, "256-bit division of the bitcoin crate is modelled by bit-vector division"]},
 "C04": {
  "quick": [("h_batch4", {"covers": [1, 2]}), ("h_batch5_main", {"covers": [1, 2]}), ("h_batch_invalid", {"covers": [1, 2]})],
  "thorough": [("h_batch4", {"covers": [1, 2]}), ("h_batch5", {"covers": [1, 2]}), ("h_batch5_main", {"covers": [1, 2]}), ("h_batch_invalid", {"covers": [1, 2]}),
               ("h_batch6_main", {"covers": [1, 2], "t": 6000})],
  "bounds_text": "all trees of 4 blocks with symbolic time differences and all pairs of chains of 5 blocks, all orders, two batches; batches of 3 with one symbolic timestamp",
  "outside": "more blocks or batches", "assumptions": [HASH, SORT]},
 "C05": {
  "quick": [("h_checkpoints", {"covers": [1, 2, 3]}), ("h_locators", {"covers": [1]})],
  "bounds_text": "main chain of 4, fork of 6 off heights 0 to 2, checkpoints at 2; 1 and 3; or 4 on the fork; symbolic time differences; any prefix of the main chain first, fork as a batch or one by one",
  "outside": "more checkpoints, longer chains", "assumptions": [HASH, SORT]},
 "C06": {
  "quick": [("h_locate", {"covers": [1]}), ("h_locators", {"covers": [1]}), ("h_find_branch", {"covers": [1]}), ("h_iter", {"covers": [1]}), ("h_batch_invalid", {"covers": [1, 2]})],
  "thorough": [("h_locate", {"covers": [1]}), ("h_locators", {"covers": [1]}), ("h_find_branch", {"covers": [1]}), ("h_iter", {"covers": [1]}), ("h_tree3", {"covers": [1, 2]})],
  "bounds_text": "chains of 0, 1, 3 and 5 blocks plus a stale block, up to 2 locators out of all known, stale and unknown hashes, any stop, symbolic 8-bit limit; locators on 40 blocks with 6 checkpoint and 14 start heights; all trees of 4 with one missing",
  "outside": "longer chains", "assumptions": [HASH]},
 "C07": {
  "quick": [("h_reload", {"covers": [1]}), ("h_reload_mismatch", {"covers": [1]}), ("h_tree3", {"covers": [1, 2]})],
  "bounds_text": "all trees of 4 regtest blocks with symbolic time differences, all arrival orders, reload after 0 to 4 imports; 3 headers with symbolic timestamps and two difficulties: store compared after every import; 4x4 networks",
  "outside": "more blocks", "assumptions": [HASH, SORT, "the store is an in-memory one that the harness can inspect"]},
 "C08": {
  "quick": [("h_store_ops", {"covers": [1]}), ("h_store_crash", {"covers": [2, 3]}), ("h_store_long", {"covers": [1]}),
            ("h_fstore_ops", {"covers": [1]}), ("h_fstore_crash", {"covers": [2, 3]}), ("h_fstore_long", {"covers": [1]})],
  "thorough": [("h_store_ops4", {"covers": [1]}), ("h_store_crash", {"covers": [2, 3]}), ("h_store_long", {"covers": [1]}),
               ("h_fstore_ops", {"covers": [1]}), ("h_fstore_crash", {"covers": [2, 3]}), ("h_fstore_long", {"covers": [1]})],
  "bounds_text": "3 (thorough 4) operations out of put 1, put 2, roll back to any height and reopen, on entries with symbolic fields; files of 1 to 48 entries, rolled back to 5 heights; cuts at every byte of the last two entries after a rollback to any of 3 heights",
  "outside": "damage other than truncation; longer files; I/O errors of the operating system", "assumptions": [FS]},
 "C09": {
  "quick": [("h_filter_headers", {"covers": [1]}), ("h_filter_verify", {"covers": [1, 2]}), ("h_filter_network", {"covers": [1]})],
  "bounds_text": "3 headers in two batches, rollback or clear to any height, 2 headers of another branch, optional restart; symbolic 64-bit height, all ranges; 3 entries with one byte, a whole symbolic header or one hash bit replaced, swapped, removed or repeated; 4x4 networks",
  "outside": "longer chains", "assumptions": [FS, "filter hashes are concrete because they are really hashed"]},
 "C10": {
  "quick": [("h_adjusted_time", {"covers": [1, 2]}), ("h_adjusted_time_max", {"covers": [1]})],
  "thorough": [("h_adjusted_time", {"covers": [1, 2]}), ("h_adjusted_time5", {"covers": [1, 2]}), ("h_adjusted_time_max", {"covers": [1]})],
  "bounds_text": "4 symbolic 64-bit offsets; 6 and 8 samples of which two symbolic (thorough 4 of 6); one repeated sample; symbolic local times; 200 samples of which one symbolic",
  "outside": "more symbolic samples at once; local times outside 2009 to 2096", "assumptions": []},
 "C11": {
  "quick": [("h_timeouts", {"covers": [1, 2]})],
  "thorough": [("h_timeouts", {"covers": [1, 2]}), ("h_timeouts3", {"covers": [1, 2]})],
  "bounds_text": "two rounds of 2 (thorough 3) registrations at symbolic 14-bit millisecond times, each followed by a wake-up at a symbolic later time; thresholds 0, 1, 500 and 1000 ms",
  "outside": "more timers", "assumptions": []},
 "C12": {
  "quick": [("h_decoder_bytes", {"covers": [1, 2]}), ("h_decoder_messages", {"covers": [1, 2]})],
  "bounds_text": "7 symbolic bytes read as compact sizes, cut at any two places; a ping with symbolic magic and checksum and a verack, cut at any place",
  "outside": "longer streams, symbolic payloads (hashed by SHA-256)", "assumptions": []},
 "C13": {
  "quick": [("h_version", {"covers": [1, 2]}), ("h_handshake", {"covers": [1, 2]}), ("h_version_height", {"covers": [1, 2]}), ("h_self_connection", {"covers": [1, 2]})],
  "thorough": [("h_version", {"covers": [1, 2]}), ("h_handshake", {"covers": [1, 2]}), ("h_handshake4", {"covers": [1, 2]}), ("h_version_height", {"covers": [1, 2]}), ("h_self_connection", {"covers": [1, 2]})],
  "bounds_text": "one connection of each kind; a version message with symbolic version, services, timestamp, nonce, height and relay; 3 (thorough 4) further messages or symbolic delays, with or without a version before",
  "outside": "symbolic user agents and addresses; more messages", "assumptions": [SORT]},
 "C14": {
  "quick": [("h_slots4", {"covers": [1, 2, 3]}), ("h_persistent", {"covers": [1, 2]}), ("h_persistent_long", {"covers": [1]})],
  "bounds_text": "targets of 1 and 2 outbound and 2 inbound peers, 5 known addresses, 4 steps with symbolic services and wake-up times; a persistent peer with 3 failures at symbolic wake-up times and 80 failures in a row",
  "outside": "more peers or steps; peers banned or timed out in between", "assumptions": [SORT, "the random source of the node has a fixed seed"]},
 "C15": {
  "quick": [("h_ping", {"covers": [1, 2, 3]})], "thorough": [("h_ping", {"covers": [1, 2, 3]}), ("h_ping4", {"covers": [1, 2, 3]})],
  "bounds_text": "one negotiated and one unnegotiated peer, 3 (thorough 4) steps with symbolic nonces and delays up to 150 s",
  "outside": "more steps", "assumptions": []},
 "C16": {
  "quick": [("h_sync_start", {"covers": [1, 2]}), ("h_headers", {"covers": [1, 2, 3]}), ("h_headers_many", {"covers": [1, 2]}), ("h_getheaders", {"covers": [1]}),
            ("h_inv_blocks", {"covers": [1, 2]}), ("h_import_command", {"covers": [1, 2]}), ("h_headers_partial", {})],
  "thorough": [("h_sync_start", {"covers": [1, 2]}), ("h_headers", {"covers": [1, 2, 3]}), ("h_headers3", {"covers": [1, 2, 3]}), ("h_headers_many", {"covers": [1, 2]}), ("h_getheaders", {"covers": [1]}),
               ("h_inv_blocks", {"covers": [1, 2]}), ("h_import_command", {"covers": [1, 2]}), ("h_headers_partial", {})],
  "bounds_text": "chains of 1 to 4 blocks, symbolic claimed heights and timestamps, 2 (thorough 3) header messages out of 9 sorts, messages of 1 to 2001 headers, all locators and stops on a chain of 4, one symbolic wake-up time",
  "outside": "more messages, longer forks, several peers answering at once", "assumptions": [HASH, SORT]},
 "C17": {
  "quick": [("h_addr_taken", {"covers": [1, 2]}), ("h_addr_refused", {"covers": [1, 2]}), ("h_addr_many", {"covers": [1]}), ("h_getaddr", {"covers": [1]}),
            ("h_dialled", {"covers": [1, 2]}), ("h_redialled", {"covers": [1]}), ("h_not_dialled", {"covers": [1, 2]}), ("h_exhausted", {"covers": [1, 2]})],
  "bounds_text": "24 addresses at the boundaries of the special ranges, 3 settings of networks and of required services, symbolic services and times; 3 stored addresses with symbolic services and one symbolic sampling time; 3 symbolic wake-up times",
  "outside": "other addresses; onion addresses; random choices other than those of a fixed seed", "assumptions": [SORT, "the random source of the node has a fixed seed"]},
 "C18": {
  "quick": [("h_peer_file", {"covers": [1]}), ("h_peer_file_ops", {"covers": [1]}), ("h_peer_file_damaged", {"covers": [1, 2]})],
  "thorough": [("h_peer_file", {"covers": [1]}), ("h_peer_file_ops", {"covers": [1]}), ("h_peer_file_damaged_all", {"covers": [1, 2]})],
  "bounds_text": "4 addresses (IPv4 and IPv6), symbolic times and services around powers of ten and the ends of the range; 4 operations; one entry with every 6th (thorough every) byte replaced by a symbolic one, or cut there",
  "outside": "numbers elsewhere in the range; damage that turns a number into a fraction (floating point is concrete in the executor); larger files", "assumptions": [FS, SORT]},
 "C19": {
  "quick": [("h_cfheaders", {"covers": [1, 2, 3, 4]}), ("h_cfheaders_many", {"covers": [1, 2, 3]}), ("h_cfheaders_timeout", {"covers": [1, 2, 3]}), ("h_cfheaders_reorg", {"covers": [1, 2]}), ("h_getcfheaders", {"covers": [1, 2]})],
  "bounds_text": "chains of 2 and 3 blocks of which 0 to 3 have filter headers; one answer with symbolic filter type, any stop, previous header and 0 to 4 hashes; 3 symbolic delays with one or two peers, each configured by the user or not; a re-organisation from any height; symbolic 32-bit start height asked of us; chains of 1999 to 2001 blocks",
  "outside": "wrong filter hashes in an otherwise acceptable answer (these are only noticed when filters arrive: C20); several wrong answers in a row", "assumptions": [HASH, SORT, "filter hashes are concrete because they are really hashed"]},
 "C20": {
  "quick": [("h_rescan_bounds", {"covers": [1, 2, 3, 50]}), ("h_rescan_orders", {"covers": [1, 50]}), ("h_cfilter_bad", {"covers": [1, 2, 3]}), ("h_request_filters", {"covers": [1, 2, 3]}), ("h_rescan_again", {"covers": [1, 2]}), ("h_rescan_history", {"covers": [1, 50]})],
  "thorough": [("h_rescan_bounds", {"covers": [1, 2, 3, 50]}), ("h_rescan_orders", {"covers": [1, 50]}), ("h_rescan_orders4", {"covers": [1, 50]}), ("h_cfilter_bad", {"covers": [1, 2, 3]}), ("h_request_filters", {"covers": [1, 2, 3]}), ("h_rescan_again", {"covers": [1, 2]}), ("h_rescan_history3", {"covers": [1, 50], "t": 6000})],
  "bounds_text": "chains of 2 to 4 blocks, any of which match; symbolic 64-bit bounds of all kinds; all orders of 3 (thorough 4) filters and of the matching blocks; a second scan over a partly filled cache, with and without peers; 2 (thorough 3) steps out of answering all, answering the last, extending, replacing 1 or 2 blocks and a symbolic delay; one bit of a filter flipped",
  "outside": "longer chains; false positives of the filters; several peers that serve filters", "assumptions": [HASH, SORT, "filters are really computed, so scripts and block contents are concrete"]},
 "C21": {
  "quick": [("h_blocks", {"covers": [1, 2, 3, 4]}), ("h_blocks_reorg", {"covers": [1, 2]})],
  "bounds_text": "3 blocks, 4 lists of requests, before or after the peer connects, 4 sorts of wrong blocks, 2 symbolic delays, all orders of arrival from either of two peers; all subsets requested and arrived before a re-organisation from any height",
  "outside": "more blocks, more wrong ones in a row", "assumptions": [HASH, SORT, "block contents are concrete because they are really hashed"]},
 "C22": {
  "quick": [("h_tx_announce", {"covers": [1, 2]}), ("h_tx_retry", {"covers": [1, 2, 3]}), ("h_tx_getdata", {"covers": [1, 2]}), ("h_tx_confirm", {"covers": [1, 2, 3]}), ("h_tx_afresh", {"covers": [1]})],
  "thorough": [("h_tx_announce", {"covers": [1, 2]}), ("h_tx_retry", {"covers": [1, 2, 3]}), ("h_tx_getdata", {"covers": [1, 2]}), ("h_tx_confirm_more", {"covers": [1, 2, 3]}), ("h_tx_afresh", {"covers": [1]})],
  "bounds_text": "3 peers, 2 transactions; 4 delays of which one symbolic up to 70 s; 2 requests out of 7 kinds from 2 peers; 2 (thorough 4) sorts of outputs, a symbolic delay after confirmation, reversal right away or 2 blocks later from either of 2 heights, confirmed again at either end of the new chain or not",
  "outside": "more transactions or peers; transactions that spend each other", "assumptions": [HASH, SORT, "transactions are concrete because they are really hashed"]},
 "C23": {
  "quick": [("h_fee_summary", {"covers": [1]}), ("h_fee_history", {"covers": [1, 2, 3]}), ("h_fee_invalid", {"covers": [1]}), ("h_filter_cache", {"covers": [1, 2, 3]})],
  "thorough": [("h_fee_summary", {"covers": [1]}), ("h_fee_history", {"covers": [1, 2, 3]}), ("h_fee_invalid", {"covers": [1]}), ("h_filter_cache4", {"covers": [1, 2, 3], "t": 3000})],
  "bounds_text": "4 blocks of 1 to 4 transactions, 4 steps with symbolic heights; 1, 3 and 5 symbolic rates; 4 sorts of invalid transactions; cache operations with symbolic sizes of 8 bits, symbolic capacity up to 200 and 3 heights",
  "outside": "symbolic amounts (fee rates are computed in floating point, which is concrete in the executor); medians of an even number of symbolic rates; longer histories", "assumptions": [HASH, "transactions are concrete because they are really hashed"]},
 "C24": {
  "quick": [("h_crash_reorg", {"covers": [1, 2]}), ("h_crash_extend", {"covers": [1, 2]}), ("h_crash_first", {"covers": [1]}), ("h_crash_twice", {"covers": [1]})],
  "bounds_text": "killed before any one of the changes to files (symbolic number) made by a re-organisation off any height of a chain of 2 blocks, an extension by one block and a first sync of 2 blocks, the latter killed again at any change during the recovery; then a restart and sync with an honest peer",
  "outside": "writes torn within (C08); changes reordered by a power failure; more than two kills; longer chains", "assumptions": [HASH, SORT, FS, "the reactor is a scripted one"]},
 "C25": {
  "quick": [("h_client_bytes", {"covers": [1, 2]}), ("h_client_streams", {"covers": [1]})],
  "bounds_text": "a handshake followed by two messages, cut at any two places out of all byte positions around message boundaries; garbage with symbolic bytes; two peers whose halves interleave",
  "outside": "longer streams; symbolic payloads (hashed by SHA-256)", "assumptions": [SORT, FS, "the reactor is a scripted one"]},
 "C26": {
  "quick": [("h_any_idle", {"covers": [1, 2]}), ("h_any_busy", {"covers": [1, 2]})],
  "bounds_text": "two messages out of 36 kinds with a delay in between, from a peer in 5 (busy node: 4) states; one bystander",
  "outside": "longer sequences; symbolic contents of hashed payloads", "assumptions": [HASH, SORT]},
 "C27": {
  "quick": [("h_reactor_dial", {"covers": [1, 2, 3]}), ("h_reactor_two", {"covers": [1]}), ("h_reactor_timer", {"covers": [1, 2]})],
  "thorough": [("h_reactor_dial5", {"covers": [1, 2, 3], "t": 3000}), ("h_reactor_two", {"covers": [1]}), ("h_reactor_timer4", {"covers": [1, 2], "t": 3000})],
  "bounds_text": "one outgoing connection and its successors over 4 (thorough 5) steps, one outgoing and one incoming connection over 3 steps, symbolic sizes of partial writes and bytes; 3 (thorough 4) timers of a symbolic number of seconds, delays and interruptions",
  "outside": "more connections or steps; IPv6 sockets; errors of accept and of socket options; times finer than seconds", "assumptions": [SORT, "the socket calls of the operating system (socket, connect, poll, send, recv, accept4, ...) are modelled by the harness as Linux defines them, natively as well"]},
}
