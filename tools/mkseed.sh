#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the diff of /tmp/sr, the demo from /tmp/demo.rs
id=$1; d=/verif/seeded/$id; mkdir -p $d/demo/src
git -C /tmp/sr diff > $d/patch.diff; git -C /tmp/sr checkout -q -- .
cp /tmp/demo.rs $d/demo/src/main.rs
grep -q '^mod nk;' /tmp/demo.rs && { cp /verif/tools/demokit/nk.rs $d/demo/src/; for f in util node world; do grep -q "^mod $f;" /tmp/demo.rs && cp /verif/harness/src/$f.rs $d/demo/src/; done; }
 cp /verif/harness/Cargo.lock $d/demo/Cargo.lock; sed -i 's/^name = "nkh"/name = "demo"/' $d/demo/Cargo.lock
cat > $d/demo/Cargo.toml <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nakamoto-common = { path = "/repo/common" }
nakamoto-chain = { path = "/repo/chain" }
nakamoto-p2p = { path = "/repo/p2p" }
nakamoto-net = { path = "/repo/net" }
nakamoto-client = { path = "/repo/client" }
nakamoto-net-poll = { path = "/repo/net/poll" }
fastrand = "1.3.5"
T
cat > $d/demo.sh <<'T'
#!/bin/bash
# Builds and runs the program in demo/ against /repo; exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo"; cd "$tmp/demo"
export RUSTUP_TOOLCHAIN=1.73 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" HOME=${HOME:-/root}
cargo run -q --offline
T
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
cat $d/patch.diff | head -40
