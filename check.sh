#!/usr/bin/env bash
# Usage: check.sh build | check.sh <property id>
# Builds the harness against /repo's current working tree and runs one monitor.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO=/repo
export VERIF_DIR="$VERIF"
export CARGO_TARGET_DIR="$VERIF/.target"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings"
export CARGO_TERM_COLOR=never
id="${1:-}"
mkdir -p "$VERIF/.target" "$VERIF/evidence"

# Cargo decides freshness by modification time; what counts here is content.
repo_hash() {
  (cd "$REPO" && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.egg' \) -print0 \
    | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
stale() { [ "$(cat "$VERIF/.target/repo.hash.$1" 2>/dev/null)" != "$h" ]; }
# forget <dir>: drop what was built from /repo there, so that it is built again.
forget() {
  find "$1" -maxdepth 7 -type d \( -path '*/debug/.fingerprint/*' -o -path '*/debug/build/*' \) \
    \( -name 'measures-*' -o -name 'symbolic-math*' -o -name 'mathjit*' \) -prune -exec rm -rf {} + 2>/dev/null
  return 0
}
build() {
  if stale native; then
    rm -f "$VERIF/.target/repo.hash.native"
    forget "$VERIF/.target/debug"
  fi
  # A build that was interrupted can leave objects that no longer link: then once more from scratch.
  (cd "$VERIF/harness" && cargo build -q --offline --locked 2>/dev/null) || {
    find "$VERIF/.target/debug" -maxdepth 2 \( -path '*/incremental/*' -o -path '*/.fingerprint/vh-*' \) -prune -exec rm -rf {} + 2>/dev/null
    (cd "$VERIF/harness" && cargo build -q --offline --locked)
  } || return 1
  echo "$h" > "$VERIF/.target/repo.hash.native"
}
# The same harness under AddressSanitizer, ThreadSanitizer (with an instrumented standard
# library) and the undefined-behaviour interpreter.
tool() {
  local t="$1" T=x86_64-unknown-linux-gnu
  export CARGO_TARGET_DIR="$VERIF/.target/$t" XDG_CACHE_HOME="$VERIF/.target/cache"
  mkdir -p "$CARGO_TARGET_DIR"
  if stale "$t"; then
    rm -f "$VERIF/.target/repo.hash.$t"
    forget "$CARGO_TARGET_DIR"
  fi
  cd "$VERIF/harness" || return 1
  case "$t" in
    asan) RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address" cargo +nightly build -q --offline --locked --target $T ;;
    tsan) RUSTFLAGS="$RUSTFLAGS -Zsanitizer=thread" cargo +nightly build -q --offline --locked -Zbuild-std --target $T ;;
    miri) MIRIFLAGS="-Zmiri-disable-isolation" VH_TOOL=0.0001 cargo +nightly miri run -q --offline --locked -- phase:none >/dev/null ;;
  esac || return 1
  echo "$h" > "$VERIF/.target/repo.hash.$t"
}
tools() {
  local p=() t ok=0
  for t in asan tsan miri; do (tool $t) & p+=($!); done
  for t in "${p[@]}"; do wait "$t" || ok=1; done
  return $ok
}
h="$(repo_hash)"
exec 9>"$VERIF/.target/lock"
flock 9
need_tools=false
case "$id" in build|C28) need_tools=true ;; esac
if ! build || { $need_tools && ! tools; }; then
  echo "BUILD-FAILED: the harness does not build against /repo"
  exit 2
fi
flock -u 9
exec 9>&-
[ "$id" = build ] && exit 0
bin="$VERIF/.target/debug/vh"
"$bin" "$id" 2>"$VERIF/evidence/$id.stderr" | grep -v '^DEBUG: '
exit "${PIPESTATUS[0]}"
