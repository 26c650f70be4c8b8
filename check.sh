#!/bin/bash
# check.sh ID [options]: build the executor if needed and run one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
mkdir -p evidence build
if [ "$1" = C18 ]; then
  P=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
  exec "$P" -B pyx/run.py check "$@"
fi
b() { (cd symex && CARGO_TARGET_DIR=$VERIF_DIR/build/symex cargo build --offline --release -q) >build/symex.log 2>&1; }
b || b || { echo "ERROR cannot build the executor"; tail -5 build/symex.log; exit 2; }
[ "$1" = build ] && exit 0
ulimit -v unlimited 2>/dev/null
exec build/symex/release/symex check "$@"
