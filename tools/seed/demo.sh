#!/bin/bash
# exit 0: the property's behaviour is there; 1: it is not
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
for p in $(cat "$D/pkgs"); do
  CARGO_INCREMENTAL=0 cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p "$p" >/dev/null 2>&1 || { echo "does not build"; exit 3; }
done
VERIF_REPO="$PWD" node "$D/demo.mjs"
