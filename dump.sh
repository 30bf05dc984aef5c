#!/bin/bash
# dump.sh OUT.json [cargo args]: extract the resolved MIR of /repo's current working tree.
set -e
OUT=$1; shift
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
DRV=$HERE/driver/target/debug/mirdump
[ -x "$DRV" ] || (cd "$HERE/driver" && cargo +nightly build --offline -q)
T=$(mktemp -d "${TMPDIR:-/tmp}/mirdump.XXXXXX")
trap 'rm -rf "$T"' EXIT
unset RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER RUSTFLAGS RUSTUP_TOOLCHAIN
rm -f "$OUT"
MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$DRV CARGO_TARGET_DIR=$T CARGO_NET_OFFLINE=true \
  cargo +nightly check -q --lib --offline --manifest-path "${VERIF_REPO:-/repo}/Cargo.toml" "$@" >&2
[ -s "$OUT" ]
