#!/bin/bash
# run.sh ID [quick|thorough]   build against /repo's working tree and run one property's check
# run.sh replay ID FILE        run one saved case
# run.sh build                 build only
set -u
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$PWD; export VERIF_DIR
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
build() {
  (
    flock 9
    # cargo trusts file times; make it rebuild whenever the content of the library differs
    h=$(cd "$VERIF_DIR/../repo"; find src build.rs Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
    mkdir -p harness/target
    if [ "$(cat harness/target/repo.hash 2>/dev/null)" != "$h" ]; then
      for d in "$VERIF_DIR"/harness/target/debug/.fingerprint/osm-io-*; do
        case "$d" in *osm-io-verif-*) ;; *) [ -d "$d" ] && rm -rf "$d" ;; esac
      done
    fi
    cd harness && cargo build --offline --locked -q 2>"$VERIF_DIR/harness/target/build.log" || { tail -40 "$VERIF_DIR/harness/target/build.log"; exit 3; }
    case "$WHAT" in C33|build)
      # the same library without its default feature
      if ! (cd "$VERIF_DIR/plain" && CARGO_TARGET_DIR="$VERIF_DIR/harness/target" cargo build --offline --locked -q 2>"$VERIF_DIR/harness/target/plain.log"); then
        tail -40 "$VERIF_DIR/harness/target/plain.log"
        [ "$WHAT" = build ] || grep -q 'could not compile `osm-io` ' "$VERIF_DIR/harness/target/plain.log" || exit 3
        [ "$WHAT" = build ] || { mkdir -p "$VERIF_DIR/replays"; cp "$VERIF_DIR/harness/target/plain.log" "$VERIF_DIR/replays/C33-build.log"; echo "osm-io does not build without the apidb feature"; echo "VIOLATION property=C33 replay=$VERIF_DIR/replays/C33-build.log"; exit 1; }
      fi ;;
    esac
    echo "$h" > target/repo.hash
  ) 9>"$VERIF_DIR/.build.lock" || { rc=$?; [ $rc = 1 ] && exit 1; echo "ERROR: build failed"; exit 3; }
}
WHAT=${1:-}; [ "$WHAT" = replay ] && WHAT=${2:-}
build
BIN=$VERIF_DIR/harness/target/debug/verif
case "${1:-}" in
  build) exit 0 ;;
  replay) shift; exec "$BIN" replay "$@" ;;
  *) exec "$BIN" run "$@" ;;
esac
