#!/bin/bash
# run.sh check <id> [quick|thorough] | run.sh replay <file> | run.sh build
# Builds the harness against /repo's current working tree, then runs it.
cd "$(dirname "$0")" || exit 2
export ZKMC_VERIF="$PWD" CARGO_NET_OFFLINE=true
: "${ZKMC_REPO:=/repo}"; export ZKMC_REPO
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
log=$(mktemp)
if [ "$2" != C23 ] && ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "error: the harness does not build against /repo" >&2
  exit 2
fi
if [ "$1" = build ] || [ "$2" = C21 ] || [ "$2" = C17 ] || { [ "$1" = replay ] && grep -qE '"C(21|17)"' "$2"; }; then
  # the WebAssembly module node loads, made as wasm-pack makes it
  if ! { CARGO_TARGET_DIR=$PWD/harness/target RUSTUP_TOOLCHAIN=${ZKMC_WASM_TOOLCHAIN:-1.99.1-x86_64-unknown-linux-gnu} cargo build --release --offline --lib --target wasm32-unknown-unknown --manifest-path harness/js/Cargo.toml &&
    /opt/vp/tools/bin/wasm-bindgen harness/target/wasm32-unknown-unknown/release/zkjs.wasm --target nodejs --out-dir harness/target/jspkg; } >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "error: the WebAssembly module does not build against /repo" >&2
    exit 2
  fi
fi
bin=harness/target/release/zkmc
if [ "$1" = build ] || [ "$2" = C23 ] || { [ "$1" = replay ] && grep -q '"C23"' "$2"; }; then
  # the crates under test report their accesses to memory to the scheduler
  if ! RUSTC_WRAPPER=$PWD/harness/sancov.sh CARGO_TARGET_DIR=$PWD/harness/target/sched cargo build --release --offline --bin zkmc --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "error: the instrumented harness does not build against /repo" >&2
    exit 2
  fi
  [ "$2" = C23 ] || [ "$1" = replay ] && bin=harness/target/sched/release/zkmc
fi
rm -f "$log"
[ "$1" = build ] && exit 0
# code under test that eats memory without end is stopped here, not by the machine
[ "$2" = C21 ] || ulimit -S -v 25000000
$bin "$@" &
pid=$!
trap 'kill -TERM $pid 2>/dev/null' TERM INT
wait $pid; rc=$?
scratch="/dev/shm/zkmc-$pid"
if [ "$1" = check ] && { [ $rc -eq 134 ] || [ $rc -eq 139 ]; }; then
  # abort or segmentation fault: the code under test overflowed its stack or ran out of memory
  mkdir -p replays
  jobs=$(cat "$scratch"/t*/job 2>/dev/null | tr '"\\' "' " | tr '\n' ' ')
  printf '{"property": "%s", "kind": "Crash", "detail": "the process running the code under test died with status %s", "jobs_in_progress": "%s"}\n' "$2" "$rc" "$jobs" >"replays/$2-crash.json"
  echo "VIOLATION property=$2 replay=$PWD/replays/$2-crash.json"
  rc=1
fi
[ -d "$scratch" ] && rm -rf "$scratch"
exit $rc
