#!/bin/bash
# build.sh PACKAGE... : builds the stub, the runner and, from /repo's current tree, these packages' binaries,
# all under /verif/.build (ignored by git).
set -u
SIM=$(cd "$(dirname "$0")" && pwd)
B=$(dirname "$SIM")/.build
export PATH=/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/bin:/bin}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
(
  gcc -O2 -Wall -fPIC -shared -ftls-model=initial-exec -o "$B/stub.so.new" "$SIM/stub/stub.c" -ldl &&
    mv "$B/stub.so.new" "$B/stub.so" &&
    cd "$SIM/runner" &&
    RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$B/rt cargo build --release --offline --locked -q
) >"$B/runner.log" 2>&1 &
runner=$!
status=0
python3 "$SIM/sync.py" "$B/ws" || status=1
if [ $status = 0 ] && [ $# -gt 0 ]; then
  cd "$B/ws" || exit 2
  opts=()
  # these dominate the run time of an unoptimised build
  for p in miniz_oxide flate2 serde_json serde nom nom_locate memchr crc32fast crossbeam-epoch crossbeam-deque \
    crossbeam-utils rayon rayon-core bytecount mdbook-aquascope mdbook-preprocessor-utils html-escape tokio hyper regex-automata \
    aquascope aquascope_front rustc_utils; do
    opts+=(--config "profile.dev.package.$p.opt-level=1")
  done
  pk=()
  for p in "$@"; do pk+=(-p "$p"); done
  RUSTUP_TOOLCHAIN=nightly-2024-12-15 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=$B/target \
    cargo build --offline "${pk[@]}" --bins "${opts[@]}" >"$B/target.log" 2>&1 || {
    status=1
    tail -40 "$B/target.log" >&2
  }
fi
wait $runner || {
  tail -40 "$B/runner.log" >&2
  status=1
}
[ $status = 0 ] || { echo "error: the build failed" >&2; exit 2; }
