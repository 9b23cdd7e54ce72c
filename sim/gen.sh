#!/bin/bash
# Generates source copies that need another build configuration than /repo's own:
# the single-threaded groth16 build, as a crate of its own.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="${REPO:-/repo}"
sync_dir() { # copy only what changed, so that cargo's fingerprints stay valid
  mkdir -p "$2"
  (cd "$1" && find . -type f -name '*.rs' | sort) > "$here/gen/.list"
  (cd "$2" && find . -type f -name '*.rs' | sort) | comm -13 "$here/gen/.list" - | while read -r f; do /bin/rm -f "$2/$f"; done
  while read -r f; do
    mkdir -p "$(dirname "$2/$f")"
    cmp -s "$1/$f" "$2/$f" || cp "$1/$f" "$2/$f"
  done < "$here/gen/.list"
}
mkdir -p "$here/gen/groth16_serial"
sync_dir "$repo/groth16/src" "$here/gen/groth16_serial/src"
for f in README.md; do [ -f "$repo/groth16/$f" ] && { cmp -s "$repo/groth16/$f" "$here/gen/groth16_serial/$f" || cp "$repo/groth16/$f" "$here/gen/groth16_serial/$f"; }; done
cat > "$here/gen/groth16_serial/Cargo.toml.new" <<T
[package]
name = "zkgroth16-serial"
version = "0.0.2"
edition = "2021"

[dependencies]
zkstd = { path = "$repo/zkstd", default-features = false }
bn-254 = { path = "$repo/bn254", default-features = false }
grumpkin = { path = "$repo/grumpkin", default-features = false }
parity-scale-codec = { version = "2.0.0", default-features = false, features = ["derive"] }
T
cmp -s "$here/gen/groth16_serial/Cargo.toml.new" "$here/gen/groth16_serial/Cargo.toml" || cp "$here/gen/groth16_serial/Cargo.toml.new" "$here/gen/groth16_serial/Cargo.toml"
