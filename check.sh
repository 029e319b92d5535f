#!/bin/bash
# usage: check.sh <property>|build [--replay FILE]     (VERIF_TIER=quick|thorough)
# Builds the harness against /repo's working tree with the verification cfg on and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg jester_verif --cap-lints allow"
export CARGO_TARGET_DIR="$here/target"
export CARGO_INCREMENTAL=0
export JMC_VERIF="$here"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTC CARGO_ENCODED_RUSTFLAGS
id="${1:?usage: check.sh <property> [--replay FILE]}"
shift
case "$id" in
  build) bins="hash field crypt ratchet shamir share cache offered delegation rejected" ;;
  C0[1-4]) bins=hash ;;
  C0[5-8]) bins=field ;;
  C09 | C10) bins=crypt ;;
  C1[1-4]) bins=ratchet ;;
  C1[5-7]) bins=shamir ;;
  C18 | C19 | C2[0123569]) bins=share ;;
  C24) bins=cache ;;
  C27) bins=delegation ;;
  C28) bins=offered ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
(
  flock 9
  # rebuild on any change of content, whatever the time stamps say
  stamp="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$CARGO_TARGET_DIR/repo.stamp"
    (cd "$here/harness" && cargo clean --release --offline -p jester_maths -p jester_hashes -p jester_encryption \
      -p jester_double_ratchet -p jester_sharing -p jester_sharing_proc -p jmc) >/dev/null 2>&1
  fi
  make="cargo build --release --offline --locked --manifest-path $here/harness/Cargo.toml --bin"
  for b in $bins; do
    if ! $make "jmc-$b" >"$CARGO_TARGET_DIR/build.log" 2>&1; then
      # the traits of C27 are programs in their own right; one that the attribute breaks is a finding of C27 only
      if [ "$b" = delegation ] && [ "$id" != build ]; then
        cp "$CARGO_TARGET_DIR/build.log" "$CARGO_TARGET_DIR/build-delegation.log"
        rm -f "$CARGO_TARGET_DIR/release/jmc-delegation"
        $make jmc-rejected >"$CARGO_TARGET_DIR/build.log" 2>&1 && continue
      fi
      tail -25 "$CARGO_TARGET_DIR/build.log" >&2
      exit 5
    fi
  done
  echo "$stamp" >"$CARGO_TARGET_DIR/repo.stamp"
) 9>"$CARGO_TARGET_DIR/build.lock" || { echo "the harness does not build against /repo" >&2; exit 5; }
[ "$id" = build ] && exit 0
if [ "$id" = C27 ] && [ ! -x "$CARGO_TARGET_DIR/release/jmc-delegation" ]; then
  mkdir -p "$here/replays"
  cp "$CARGO_TARGET_DIR/build-delegation.log" "$here/replays/C27-build.txt"
  exec "$CARGO_TARGET_DIR/release/jmc-rejected" C27 --build-failed "$here/replays/C27-build.txt"
fi
exec "$CARGO_TARGET_DIR/release/jmc-$bins" "$id" "$@"
