#!/bin/bash
# Builds the simulator and, from /repo's current working tree, the csvpp binary that runs in it.
# Usage: build.sh   (everything goes to /verif/sim/target and /verif/build)
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$V/build}"
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
mkdir -p "$B"
exec 9>"$B/lock"
flock 9

# 1. the simulator (default toolchain)
( cd "$V/sim" && cargo build --release --offline -q 2>"$B/sim.log" ) &
simpid=$!

# 2. the system under test: the repository's own toolchain, release code, no source change;
#    edge instrumentation of its crates comes from the rustc wrapper
if [ ! -f "$B/libcov.so" ]; then
  printf 'void __sanitizer_cov_trace_pc_guard(void*g){}\nvoid __sanitizer_cov_trace_pc_guard_init(void*a,void*b){}\n' > "$B/cov.c"
  gcc -shared -fPIC -O1 -o "$B/libcov.so" "$B/cov.c" || { echo "build.sh: gcc failed" >&2; exit 3; }
fi
# cargo goes by time stamps; go by content instead
sum=$(cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$B/sut.sum" 2>/dev/null)" != "$sum" ]; then
  /bin/rm -rf "$B"/sut/release/.fingerprint/csvpp-* "$B"/sut/release/.fingerprint/csvp-*
fi
RUSTUP_TOOLCHAIN=1.82.0-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$V/sut/rustc-wrap.sh" SUT_LIBCOV="$B/libcov.so" \
CARGO_INCREMENTAL=1 CARGO_PROFILE_RELEASE_INCREMENTAL=true CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
cargo build --release --offline -q --manifest-path "$REPO/Cargo.toml" --bin csvpp --target-dir "$B/sut" 2>"$B/sut.log"
rc=$?
wait $simpid || { cat "$B/sim.log" >&2; echo "build.sh: the simulator does not build" >&2; exit 3; }
if [ $rc != 0 ]; then tail -40 "$B/sut.log" >&2; echo "build.sh: csvpp does not build" >&2; exit 3; fi
echo "$sum" > "$B/sut.sum"
exit 0
