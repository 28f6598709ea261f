#!/bin/bash
# builds the simulator against /repo's current working tree
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true
mkdir -p "$V/target"
exec 9>"$V/target/.build-lock"
flock 9
# cargo compares time stamps only; contents decide here
now="$( (cd /repo && find programs Cargo.toml Cargo.lock -type f ! -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum) | sha256sum)"
if [ "$(cat "$V/target/.repo-hash" 2>/dev/null)" != "$now" ]; then
  rm -f "$V/target/.repo-hash"
  (cd "$V/sim" && cargo clean --offline --release -p cyclos-core >/dev/null 2>&1)
fi
# the plain build names fields and one function of the program; where a tree renamed them, the
# builds after it do without (see layout.rs and hist.rs, real_snapshot)
ok=
for f in "" fixed nosnap fixed,nosnap; do
  if (cd "$V/sim" && cargo build --release --offline --locked --features "$f") >"$V/target/build.log" 2>&1; then
    ok=1
    break
  fi
  [ -z "$f" ] && cp "$V/target/build.log" "$V/target/build-plain.log"
  # an error in the program itself is not ours to work around
  grep -q '^error: could not compile `cysim`' "$V/target/build.log" || break
done
if [ -z "$ok" ]; then
  tail -40 "$V/target/build-plain.log" >&2
  exit 3
fi
echo "$now" >"$V/target/.repo-hash"
