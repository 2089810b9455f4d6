#!/bin/sh
# check.sh <property id> [quick|thorough] [lane]: builds the harness against /repo's working tree and runs one property.
# exit 0: held; 1: violation (VIOLATION line); 2, 3: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
[ -n "$2" ] && VERIF_TIER=$2
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target"
mkdir -p "$here/evidence" "$here/replays" "$here/target"
(
  flock 9
  # Cargo goes by modification times, which a restored tree can hide: always recompile the crate under test.
  rm -rf "$here"/target/debug/.fingerprint/rust-kpdb-* "$here"/target/debug/.fingerprint/kpdb-verif-*
  cd "$here/harness" && cargo build --offline --locked >"$here/target/build.log" 2>&1
) 9>"$here/target/.lock"
if [ $? -ne 0 ]; then
  tail -40 "$here/target/build.log"
  echo "ERROR property=$id the harness does not build"
  exit 2
fi
[ "$id" = build ] && exit 0
exec "$here/target/debug/kpdb-verif" run "$id" $3
