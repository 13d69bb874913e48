#!/bin/bash
# build.sh [plain|comment|asan] : builds the harness against /repo's working tree, offline.
# Prints nothing on success but the path of the binary.
cd "$(dirname "$0")/harness" || exit 2
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin:/root/.cargo/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
V=${1:-plain}
case "$V" in
plain) T=stable; FL="--cfg yam_verif"; AR="" ;;
comment) T=stable; FL="--cfg yam_verif"; AR="--features comment" ;;
asan) T=nightly; FL="--cfg yam_verif -Zsanitizer=address"; AR="--release --target x86_64-unknown-linux-gnu" ;;
*) echo "unknown variant $V" >&2; exit 2 ;;
esac
OUT=/verif/target/$V
log=$(mktemp)
RUSTUP_TOOLCHAIN=$T RUSTFLAGS="$FL" cargo build --offline --locked --target-dir "$OUT" $AR >"$log" 2>&1 || { grep -E "^error" -A12 "$log" | head -60 >&2; rm -f "$log"; exit 2; }
rm -f "$log"
case "$V" in asan) echo "$OUT/x86_64-unknown-linux-gnu/release/yv" ;; *) echo "$OUT/debug/yv" ;; esac
