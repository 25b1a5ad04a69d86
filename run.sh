#!/bin/bash
# run.sh check ID [quick|thorough]   decide one property
# run.sh replay FILE                 re-run a minimised failing case
# run.sh build                       only build
# Everything is rebuilt from /repo's working tree (incremental, offline).
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO="${VH_REPO:-/repo}"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
T="$ROOT/target"
mkdir -p "$T"
exec 9>"$T/.lock"

build() {
	flock 9
	# Cargo goes by mtimes; go by content as well.
	local h
	h="$(cd "$REPO" && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null \
		| LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)"
	if [ "$h" != "$(cat "$T/app.hash" 2>/dev/null)" ]; then
		rm -rf "$T/app/release/.fingerprint/"mapeditr-*
	fi
	# The program under test, optimised, with its own assertions and overflow
	# checks left on.
	( cd "$REPO" && CARGO_TARGET_DIR="$T/app" \
		CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
		CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
		cargo build --release --offline --locked -q ) >"$T/app.log" 2>&1 \
		|| { cat "$T/app.log" >&2; echo "cannot build mapeditr" >&2; exit 2; }
	echo "$h" >"$T/app.hash"
	( cd "$ROOT/harness" && CARGO_TARGET_DIR="$T/harness" \
		cargo build --release --offline -q ) >"$T/harness.log" 2>&1 \
		|| { cat "$T/harness.log" >&2; echo "cannot build the harness" >&2; exit 2; }
	if [ ! -e "$T/shim.so" ] || [ "$ROOT/harness/shim/shim.c" -nt "$T/shim.so" ]; then
		gcc -O2 -w -U_FORTIFY_SOURCE -shared -fPIC -o "$T/shim.so" \
			"$ROOT/harness/shim/shim.c" -ldl -lpthread \
			|| { echo "cannot build the shim" >&2; exit 2; }
	fi
	flock -u 9
}

build
[ "${1:-}" = build ] && exit 0
export VH_BIN="$T/app/release/mapeditr" VH_SHIM="$T/shim.so" VH_ROOT="$ROOT"
exec 9>&-
exec "$T/harness/release/vh" "$@"
