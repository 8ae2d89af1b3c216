# shared by setup.sh and check.sh
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

# build <crate> [features]: one target directory per crate and feature set
tdir() { echo "$here/target-$1${2:+-${2//,/_}}"; }
build() {
    local log
    log=$(tdir "$@").log
    (cd "$here/$1" && CARGO_TARGET_DIR=$(tdir "$@") cargo build --release --offline ${2:+--features "$2"}) >"$log" 2>&1 && return 0
    echo "the harness does not build against this tree:"
    grep -E "^error" -A8 "$log" | head -40
    return 1
}
# the scheduler harness: the crates are compiled with the instrumentation of the thread sanitizer
# (its run time is replaced by ours)
build_sched() {
    (cd "$here/sched" && CARGO_TARGET_DIR="$here/target-sched" RUSTC_BOOTSTRAP=1 \
        RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" \
        cargo build --release --offline --target x86_64-unknown-linux-gnu) >"$here/target-sched.log" 2>&1 && return 0
    echo "the scheduler harness does not build against this tree:"
    grep -E "^error" -A8 "$here/target-sched.log" | head -40
    return 1
}
# the phase-diagram program with a thread pool whose schedules are ours
build_prog() {
    (cd "$here/prog" && CARGO_TARGET_DIR="$here/target-prog" RUSTC_BOOTSTRAP=1 \
        RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" \
        cargo build --release --offline --target x86_64-unknown-linux-gnu) >"$here/target-prog.log" 2>&1
}
prog_bin="$here/target-prog/x86_64-unknown-linux-gnu/release/physical_tc"
sched_bin="$here/target-sched/x86_64-unknown-linux-gnu/release/sched"
bin_of() { echo "$(tdir "$@")/release/$1"; }
export PYTHONPATH="$here/pystub" PYTHONDONTWRITEBYTECODE=1

# the phase-diagram program, built in the workspace of /repo into a target directory of ours
program() {
    (cd /repo && CARGO_TARGET_DIR="$here/target-bin" cargo build --release --offline -p tc_long_prop --bin physical_tc \
        --config 'profile.release.package."*".opt-level=0' --config 'profile.release.package."qcd-sme".opt-level=2' \
        --config 'profile.release.lto=false' --config 'profile.release.codegen-units=16') >"$here/target-bin.log" 2>&1 && return 0
    echo "the program does not build:"
    grep -E "^error" -A8 "$here/target-bin.log" | head -40
    return 1
}
