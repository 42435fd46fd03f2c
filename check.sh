#!/bin/bash
# check.sh ID [thorough]: builds the explorer against /repo's working tree, and explores property ID.
# check.sh build: builds only. check.sh replay FILE: replays a recorded violation.
cd "$(dirname "$0")" || exit 2
dir=$PWD
export RUST_BACKTRACE=0 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH="/usr/local/bin:${HOME:-/root}/.cargo/bin:$PATH"
unset RUSTC RUSTFLAGS CARGO_TARGET_DIR
[ "$2" = thorough ] && export VERIF_TIER=thorough
mkdir -p build
# The two builds: as developers run it, with the feature targets; and as users run it, without
build() { # target dir, cargo arguments
    local t=$1
    shift
    cargo build -q --offline --locked --manifest-path mc/Cargo.toml --target-dir "$t" "$@" >"$t.log" 2>&1
}
build build/checked --profile checked --features lex &
p1=$!
build build/release --release &
p2=$!
# and the tool which updates the list of targets
cargo build -q --offline --locked --manifest-path /repo/update/Cargo.toml --target-dir build/update >build/update.log 2>&1
u=$?
# and the explorer of schedules, with a library which reports its accesses to memory
case $1 in P16 | build | replay)
    RUSTC_WRAPPER=$dir/mc/sched/wrap.sh cargo build -q --offline --locked --release --manifest-path mc/sched/Cargo.toml --target-dir build/sched >build/sched.log 2>&1 &&
        export MC_SCHED=$dir/build/sched/release/sched
    ;;
esac
wait $p1 || { cat build/checked.log; echo "the explorer does not build (checked)"; exit 2; }
wait $p2 || { cat build/release.log; echo "the explorer does not build (release)"; exit 2; }
case $1 in P18 | P19 | build | replay) [ $u = 0 ] || { cat build/update.log; echo "the update tool does not build"; exit 2; } ;; esac
bins="checked=$dir/build/checked/checked/mc release=$dir/build/release/release/mc"
case $1 in
build) exit 0 ;;
replay) exec build/checked/checked/mc replay "$2" $bins ;;
*) exec build/checked/checked/mc run "$1" "$dir" $bins ;;
esac
