#!/bin/bash
# run.sh <property> <quick|thorough> [family case]   (run from anywhere)
# Rebuilds the harness against the current /repo working tree and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
case "$id-$tier" in
  C19-*|C20-*|C21-*|C22-*|--build-hooks) kind=hooks; export RUSTFLAGS="--cfg cyphus_verif"; feat="--features hooks" ;;
  *) kind=api; feat="" ;;
esac
target="$here/target/$kind"
# forget what cargo remembers of the crate under test, so that it is rebuilt from the
# sources whatever their timestamps
cargo clean --release --offline --locked -q --manifest-path "$here/mc/Cargo.toml" --target-dir "$target" -p cyphus-diffeq 2>/dev/null
log="$here/out/build-$id.log"
mkdir -p "$here/out" "$here/evidence"
if ! cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" --target-dir "$target" $feat >"$log" 2>&1; then
  echo "harness build failed for $id" >&2
  tail -40 "$log" >&2
  exit 2
fi
if [ "$id" = "--build" ]; then exit 0; fi
shift 2
exec "$target/release/mc" "$here" "$id" "$tier" "$@"
