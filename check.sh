#!/bin/bash
# check.sh ID [quick|thorough]: build the monitors against /repo's working tree and run one property's check.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$here" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_TARGET_DIR="$here/harness/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
cd "$here/harness" || exit 2
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
# Do not rely on file times alone to notice that the code under test changed.
h="$( (cd /repo && find parser sdd -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
if [ "$h" != "$(cat "$CARGO_TARGET_DIR/.source-hash" 2>/dev/null)" ]; then
  [ -d "$CARGO_TARGET_DIR/debug" ] && cargo clean --offline -q -p asciidoc-parser 2>/dev/null
  rm -rf "$CARGO_TARGET_DIR"/asan/*/debug/.fingerprint/asciidoc-parser-*
  echo "$h" > "$CARGO_TARGET_DIR/.source-hash"
fi
log="$CARGO_TARGET_DIR/build-$$.log"
if ! cargo build --offline --locked -q >"$log" 2>&1; then
  tail -40 "$log"
  rm -f "$log"
  echo "INCONCLUSIVE $id: the monitors do not build"
  exit 2
fi
if [ "$id" = C36 ] || [ "$id" = build ]; then
  had=$([ -e /repo/Cargo.lock ] && echo --locked)
  if ! cargo build --offline $had -q --manifest-path /repo/Cargo.toml -p sdd --target-dir "$CARGO_TARGET_DIR/sdd" >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "INCONCLUSIVE $id: the tool does not build"
    exit 2
  fi
  [ -n "$had" ] || rm -f /repo/Cargo.lock
  export VMON_SDD="$CARGO_TARGET_DIR/sdd/debug/sdd"
fi
if [ "$id" = C03 ] || [ "$id" = build ]; then
  # Half of the workers of C03 run under AddressSanitizer.
  t=x86_64-unknown-linux-gnu
  if RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --offline --locked -q --target $t --target-dir "$CARGO_TARGET_DIR/asan" >"$log" 2>&1; then
    export VMON_ASAN="$CARGO_TARGET_DIR/asan/$t/debug/vmon"
  else
    tail -5 "$log"
    echo "no build with AddressSanitizer"
  fi
fi
rm -f "$log"
case "$id" in
  build) exit 0 ;;
  C38) exec node "$here/asg/monitor.mjs" check "$tier" ;;
  *) exec "$CARGO_TARGET_DIR/debug/vmon" check "$id" "$tier" ;;
esac
