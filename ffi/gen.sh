#!/bin/bash
# Copy /repo's storm-ffi sources to $1 as the rlib `storm`; with $2 = hooked, `std` is vh_sync there (the
# real std with instrumented locks). Nothing of the sources is edited but the one line added at the end.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out.new"
cat > "$out.new/Cargo.toml" <<T
[package]
name = "storm"
version = "0.1.0"
edition = "2021"

[lib]
name = "storm"
path = "src/lib.rs"

[dependencies]
mopaq = { path = "/repo/mopaq" }
libc = "0.2"
log = "0.4"
md-5 = "0.10"
crc32fast = "1.4"
vh_sync = { path = "$here/sync" }
T
cp -r /repo/storm-ffi/src "$out.new/src"
if [ "$2" = hooked ]; then
    printf '\n#[allow(unused_extern_crates)]\nextern crate vh_sync as std;\n' >> "$out.new/src/lib.rs"
fi
# keep time stamps when nothing changed
if [ -d "$out" ] && diff -r -q "$out" "$out.new" >/dev/null; then
    rm -rf "$out.new"
else
    rm -rf "$out"; mv "$out.new" "$out"
fi
