#!/bin/bash
# check.sh PROPERTY quick|thorough : build the harness against /repo's working
# tree and run the property's simulation check.
# check.sh replay FILE [-v]        : replay a recorded violation
# check.sh run PROPERTY INDEX      : show one seeded run
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/sim/harness/target"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
log="$here/sim/harness/target/build.log"
mkdir -p "$here/sim/harness/target" "$here/evidence" "$here/replays"
build() {
  (cd "$here/sim/harness" && cargo build --offline --quiet) >"$log" 2>&1
}
if ! build; then
  echo "build failed:" >&2
  tail -40 "$log" >&2
  exit 3
fi
bin="$CARGO_TARGET_DIR/debug/harness"
case "${1:-}" in
  build) exit 0 ;;
  replay|run) exec "$bin" "$@" ;;
  *) exec "$bin" check "$1" "${2:-quick}" ;;
esac
