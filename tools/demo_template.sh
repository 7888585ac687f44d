#!/bin/bash
# Builds main.rs (beside this script) against the crates in the current directory
# and runs it: exit 0 when the property holds, nonzero when it is broken.
# Everything is built in a scratch directory that is removed again.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
x=$(mktemp -d) || exit 99
trap 'rm -rf "$x"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
mkdir -p "$x/ws" "$x/demo/src"
cp "$repo/Cargo.toml" "$x/ws/"
for c in algebra algebra_derive lattice fhe_core bool; do
  mkdir -p "$x/ws/$c"
  cp "$repo/$c/Cargo.toml" "$x/ws/$c/"
  cp -R "$repo/$c/src" "$x/ws/$c/"
done
# the git dependency cannot be fetched offline; tests, examples and benches are not built
python3 - "$x/ws" <<'P'
import re, sys, glob
for p in [sys.argv[1] + "/Cargo.toml"] + glob.glob(sys.argv[1] + "/*/Cargo.toml"):
    t = open(p).read()
    t = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", t)
    t = re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", t)
    t = re.sub(r"(?ms)^\[\[(bench|example|test)\]\].*?(?=^\[|\Z)", "", t)
    open(p, "w").write(t)
P
cp "$here/main.rs" "$x/demo/src/main.rs"
cat > "$x/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
algebra = { path = "../ws/algebra", default-features = false }
lattice = { path = "../ws/lattice", default-features = false }
fhe_core = { path = "../ws/fhe_core", default-features = false }
zkfhe = { path = "../ws/bool", default-features = false }
num-traits = "0.2"
rand = "0.8"
rand_distr = "0.4"
serde = { version = "1.0", features = ["derive"] }
once_cell = "1.19"
[profile.dev]
opt-level = 2
debug-assertions = false
overflow-checks = false
debug = false
T
cd "$x/demo" || exit 99
cargo build --offline -q 2> "$x/log" || { grep -A9 "^error" "$x/log" | head -40; exit 98; }
exec_out=0
timeout 200 ./target/debug/demo || exec_out=$?
exit $exec_out
