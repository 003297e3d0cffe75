#!/bin/bash
# Entry point of every check:  run.sh check <ID>   |   run.sh replay <file>   |   run.sh setup
# Builds the harness against /repo's current working tree (never the build products of an earlier run
# of another tree: cargo decides by content and time stamps) and runs it. Nothing is written to /repo.
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=${VH_TOOLCHAIN:-1.86-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
unset RUSTFLAGS RUST_LOG
ROOT=$PWD
build_main() {
    CARGO_TARGET_DIR=$ROOT/target/main cargo build --release --offline --locked --manifest-path harness/Cargo.toml >"$ROOT/target/build-main.log" 2>&1 || {
        echo "BUILD FAILED (harness against /repo)"; tail -40 "$ROOT/target/build-main.log"; exit 2; }
}
build_ffi() {
    # the C interface, with its locks instrumented; as it is, if it does not compile with them
    ffi/gen.sh "$ROOT/target/gen/storm" hooked
    CARGO_TARGET_DIR=$ROOT/target/ffi cargo build --release --offline --locked --manifest-path ffi/Cargo.toml >"$ROOT/target/build-ffi.log" 2>&1 && return
    ffi/gen.sh "$ROOT/target/gen/storm" plain
    CARGO_TARGET_DIR=$ROOT/target/ffi cargo build --release --offline --locked --manifest-path ffi/Cargo.toml >"$ROOT/target/build-ffi.log" 2>&1 || {
        echo "BUILD FAILED (ffi harness against /repo)"; tail -40 "$ROOT/target/build-ffi.log"; exit 2; }
}
build_cli() {
    # the command line tool; overflow checks for the code of the repository
    cargo build --release --offline --locked -p storm-cli --manifest-path /repo/Cargo.toml --target-dir "$ROOT/target/cli" \
        --config 'profile.release.lto=false' --config 'profile.release.codegen-units=16' --config 'profile.release.opt-level=1' \
        --config 'profile.release.overflow-checks=true' --config 'profile.release.package."*".overflow-checks=false' \
        >"$ROOT/target/build-cli.log" 2>&1 || {
        echo "BUILD FAILED (storm-cli)"; tail -40 "$ROOT/target/build-cli.log"; exit 2; }
    export VH_CLI=$ROOT/target/cli/release/storm-cli
}
build_tsan() {
    # the same, everything including the standard library instrumented by ThreadSanitizer
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR=$ROOT/target/tsan \
        cargo build --release --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path ffi/Cargo.toml >"$ROOT/target/build-tsan.log" 2>&1 || {
        echo "no ThreadSanitizer build: its part is left out (evidence: tsan_unavailable)"; return; }
    export VF_TSAN=$ROOT/target/tsan/x86_64-unknown-linux-gnu/release/vf
}
build_tsan_main() {
    # the library and its workload under ThreadSanitizer
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR=$ROOT/target/tsan-main \
        cargo build --release --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml >"$ROOT/target/build-tsan-main.log" 2>&1 || {
        echo "no ThreadSanitizer build: its part is left out (evidence: tsan_unavailable)"; return; }
    export VH_TSAN=$ROOT/target/tsan-main/x86_64-unknown-linux-gnu/release/vh
}
run() { # command, property, argument
    case "$2" in
    C13) build_ffi; exec target/ffi/release/vf "$1" "$3" ;;
    C14) build_ffi; build_tsan; exec target/ffi/release/vf "$1" "$3" ;;
    C15) build_cli; build_main; exec target/main/release/vh "$1" "$3" ;;
    C19) build_main; build_tsan_main; exec target/main/release/vh "$1" "$3" ;;
    *) build_main; exec target/main/release/vh "$1" "$3" ;;
    esac
}
mkdir -p target evidence
case "${1:-}" in
setup)
    build_main; build_ffi; build_tsan; build_tsan_main; build_cli ;;
check)
    run check "$2" "$2" ;;
replay)
    run replay "$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)" "$2" ;;
*)
    echo "usage: run.sh setup | check <ID> | replay <file>"; exit 64 ;;
esac
