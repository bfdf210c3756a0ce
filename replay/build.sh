#!/bin/bash
# builds the replay harness against /repo's current working tree; prints the mode (hooks | public)
# with the argument cli: also the program itself (C25)
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
log="$PWD/target/build.log"; mkdir -p target
if [ "$1" = cli ]; then
  repo=$(sed -n 's/^dump_syms = { path = "\(.*\)" }$/\1/p' Cargo.toml)
  rm -f target/cli/debug/dump_syms
  (cd "$repo" && CARGO_TARGET_DIR="$OLDPWD/target/cli" CARGO_PROFILE_DEV_DEBUG=false cargo build --locked --bin dump_syms) >"$PWD/target/cli.log" 2>&1
fi
if RUSTFLAGS="--cfg dump_syms_verif" DUMP_SYMS_VERIF_HOOKS="$PWD/hooks.rs" cargo build >"$log" 2>&1; then echo hooks; exit 0; fi
if cargo build --no-default-features >>"$log" 2>&1; then echo public; exit 0; fi
echo failed; exit 1
