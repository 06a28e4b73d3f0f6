#!/bin/bash
# Builds the simulator together with the library from /repo's working tree (offline).
here=$(dirname "$(realpath "${BASH_SOURCE[0]}")")
. "$here/env.sh"
cd "$here" || exit 3
mkdir -p target
# what the binary is made of, by content (not by time stamps)
lib=$(sed -n 's/^groth-sahai *=.*path *= *"\([^"]*\)".*/\1/p' "$here/gssim/Cargo.toml")
state=$( { rustc -V; cat "$here"/*.sh "$here"/Cargo.toml "$here"/Cargo.lock "$here"/.cargo/* 2>/dev/null
  find "$lib" "$here/gssim" "$here/simos" \( -name target -o -name .git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
bin=$here/target/release/gssim
[ -n "$lib" ] && [ -x "$bin" ] && [ "$(cat target/state 2>/dev/null)" = "$state $(sha256sum <"$bin")" ] && exit 0
rm -f -- "$here/target/state"
# cargo decides by time stamps; a restored file can carry an old one, so the library and what is
# generated from it (all generic code) are always compiled again
rm -rf -- "$here"/target/release/.fingerprint/groth-sahai-* "$here"/target/release/.fingerprint/gssim-*
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then cat "$log" >&2; rm -f "$log"; exit 3; fi
rm -f "$log"
printf '%s\n' "$state $(sha256sum <"$bin")" >target/state
