//! Harnesses over nakamoto's public API, executed symbolically (from the LLVM IR this crate
//! compiles to) and replayed natively.
pub mod nk;
pub mod node;
pub mod world;
pub mod util;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
        pub const HARNESSES: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*];
    };
}
// -- generated by gen_lib.py
pub mod any;
pub mod book;
pub mod chain;
pub mod client;
pub mod fees;
pub mod filters;
pub mod inv;
pub mod misc;
pub mod peerfile;
pub mod peers;
pub mod reactor;
pub mod store;
pub mod sync;
harnesses! {
    any::h_any_idle,
    any::h_any_busy,
    book::h_addr_taken,
    book::h_addr_refused,
    book::h_addr_many,
    book::h_getaddr,
    book::h_dialled,
    book::h_redialled,
    book::h_not_dialled,
    book::h_exhausted,
    chain::h_tree3,
    chain::h_tree4,
    chain::h_forks_retarget,
    chain::h_forks_retarget_tie,
    chain::h_forks_retarget5,
    chain::h_batch4,
    chain::h_batch5_main,
    chain::h_batch5,
    chain::h_batch6_main,
    chain::h_batch_invalid,
    chain::h_valid_time,
    chain::h_valid_time_window,
    chain::h_valid_time_window2,
    chain::h_valid_target,
    chain::h_retarget_main,
    chain::h_retarget_main_now,
    chain::h_retarget_tree,
    chain::h_checkpoints,
    chain::h_locate,
    chain::h_locators,
    chain::h_find_branch,
    chain::h_reload,
    chain::h_reload_mismatch,
    client::h_crash_reorg,
    client::h_crash_extend,
    client::h_crash_first,
    client::h_crash_twice,
    client::h_client_bytes,
    client::h_client_streams,
    fees::h_fee_summary,
    fees::h_fee_history,
    fees::h_fee_invalid,
    fees::h_filter_cache,
    fees::h_filter_cache4,
    filters::h_cfheaders,
    filters::h_cfheaders_many,
    filters::h_cfheaders_timeout,
    filters::h_cfheaders_reorg,
    filters::h_getcfheaders,
    filters::h_rescan_bounds,
    filters::h_rescan_orders,
    filters::h_rescan_orders4,
    filters::h_cfilter_bad,
    filters::h_request_filters,
    filters::h_rescan_again,
    filters::h_rescan_history,
    filters::h_rescan_history3,
    inv::h_blocks,
    inv::h_blocks_reorg,
    inv::h_tx_announce,
    inv::h_tx_retry,
    inv::h_tx_getdata,
    inv::h_tx_confirm,
    inv::h_tx_confirm_more,
    inv::h_tx_afresh,
    misc::h_adjusted_time,
    misc::h_adjusted_time5,
    misc::h_adjusted_time_max,
    misc::h_timeouts,
    misc::h_timeouts3,
    misc::h_iter,
    misc::h_decoder_bytes,
    misc::h_decoder_messages,
    peerfile::h_peer_file,
    peerfile::h_peer_file_ops,
    peerfile::h_peer_file_damaged,
    peerfile::h_peer_file_damaged_all,
    peers::h_version,
    peers::h_handshake,
    peers::h_handshake4,
    peers::h_version_height,
    peers::h_self_connection,
    peers::h_slots,
    peers::h_slots4,
    peers::h_persistent,
    peers::h_persistent_long,
    peers::h_ping,
    peers::h_ping4,
    reactor::h_reactor_dial,
    reactor::h_reactor_dial5,
    reactor::h_reactor_two,
    reactor::h_reactor_timer,
    reactor::h_reactor_timer4,
    store::h_store_ops,
    store::h_store_ops4,
    store::h_store_crash,
    store::h_store_long,
    store::h_fstore_ops,
    store::h_fstore_crash,
    store::h_fstore_long,
    store::h_filter_headers,
    store::h_filter_verify,
    store::h_filter_network,
    sync::h_sync_start,
    sync::h_headers,
    sync::h_headers3,
    sync::h_headers_many,
    sync::h_getheaders,
    sync::h_inv_blocks,
    sync::h_import_command,
    sync::h_headers_partial,
}
