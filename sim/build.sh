#!/bin/bash
# Builds the simulator and, from /repo's current working tree, the code under test.
set -e -o pipefail
here="$(cd "$(dirname "$0")/.." && pwd)"
repo="${VSIM_REPO:-/repo}"
out="$here/target/vsim"
mkdir -p "$out"
exec 9>"$here/target/lock"
flock 9

export HOME="${HOME:-/root}"
[ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER

# content decides what is rebuilt, not time stamps
digest() {
  (cd "$1" && shift && find "$@" -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum; echo) | sha256sum | cut -d' ' -f1
}
tool_sum="$(digest "$here/sim" .)"
repo_sum="$(digest "$repo" src templates Cargo.toml build.rs)"
if [ -f "$out/stamp" ] && [ "$(cat "$out/stamp")" = "$tool_sum $repo_sum" ] &&
  [ -x "$out/vsim" ] && [ -x "$out/asciidocr" ] && [ -x "$out/libsim" ] && [ -f "$out/libvsim.so" ]; then
  exit 0
fi
rm -f "$out/stamp"

gcc -O2 -g -Wall -Wextra -shared -fPIC -fno-builtin-malloc -fno-delete-null-pointer-checks -Wno-nonnull-compare -o "$out/libvsim.so.new" "$here/sim/shim.c" -ldl
mv -f "$out/libvsim.so.new" "$out/libvsim.so"

RUSTFLAGS=-Awarnings RUSTC_WRAPPER= cargo build -q --release --offline --locked \
  --manifest-path "$here/sim/driver/Cargo.toml" --target-dir "$here/target/driver"
cp -f "$here/target/driver/release/vsim" "$out/vsim.new" && mv -f "$out/vsim.new" "$out/vsim"

# Cargo.lock is not tracked upstream; without it newer, incompatible versions would be chosen
if [ ! -f "$repo/Cargo.lock" ]; then cp "$here/sim/Cargo.lock.repo" "$repo/Cargo.lock"; fi
export RUSTC_WRAPPER="$here/sim/rustc-wrapper.sh" VSIM_LIB="$out"
chmod +x "$RUSTC_WRAPPER"
opts=(-q --offline --target-dir "$here/target/subject"
  --config 'profile.dev.package."*".opt-level=2' --config 'profile.dev.opt-level=1')
if [ "$(cat "$out/repo-stamp" 2>/dev/null)" != "$repo_sum" ]; then
  rm -f "$out/repo-stamp"
  cargo clean -q --offline --target-dir "$here/target/subject" --manifest-path "$repo/Cargo.toml" -p asciidocr 2>/dev/null || true
fi
cargo build "${opts[@]}" --manifest-path "$repo/Cargo.toml" --features docx --bin asciidocr
cp -f "$here/target/subject/debug/asciidocr" "$out/asciidocr.new" && mv -f "$out/asciidocr.new" "$out/asciidocr"
cargo build "${opts[@]}" --manifest-path "$here/sim/libsim/Cargo.toml"
cp -f "$here/target/subject/debug/libsim" "$out/libsim.new" && mv -f "$out/libsim.new" "$out/libsim"
# what the subject could do behind the simulator's back, for the evidence
nm -D --undefined-only "$out/asciidocr" "$out/libsim" 2>/dev/null | sed -n 's/.* U \([a-z_0-9]*\).*/\1/p' | sort -u > "$out/imports" || true
nm -D --defined-only "$out/libvsim.so" 2>/dev/null | sed -n 's/.* [TWi] \([a-z_0-9]*\).*/\1/p' | sort -u > "$out/exports" || true
echo "$repo_sum" > "$out/repo-stamp"
echo "$tool_sum $repo_sum" > "$out/stamp"
