#!/bin/bash
# nat.sh <module> [secs]: run a module's harnesses natively on random inputs (development aid)
cd "$(dirname "$0")/../${CRATE:-kani}"; python3 ../kani/gen_registry.py "$PWD/src"
CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings $([ "$CRATE" = kani-int ] && echo --cfg musli_verif)" cargo build --offline --bin replay --features $1 --target-dir target/native 2>&1 | grep -E "^error" -A7 | head -${ERR:-40} | grep . && exit 1
grep -o "\"$1::[a-z_0-9]*\"" src/registry.rs | tr -d '"' | xargs -P8 -I{} sh -c 'echo {} $(target/native/debug/replay fuzz {} '${2:-1}' 1)' | grep -v 'PASS.*rejected=0$'
