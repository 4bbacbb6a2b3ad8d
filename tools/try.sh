#!/bin/bash
# Development aid: runs checks against a changed copy of /repo, in a scratch slot outside both trees.
#   try.sh SLOT (patch FILE | revert COMMIT) PROPERTY...
# Prints one line per property: caught / missed / error.
slot=/tmp/try/$1; kind=$2; what=$3; shift 3
mkdir -p "$slot/replays"
rsync -a --delete --exclude target --exclude .git /repo/ "$slot/repo/" 2>/dev/null || { rm -rf "$slot/repo"; mkdir -p "$slot/repo"; (cd /repo && git ls-files -z | xargs -0 cp --parents -t "$slot/repo"); }
mkdir -p "$slot/harness"; cp -r /verif/harness/Cargo.toml /verif/harness/Cargo.lock /verif/harness/src "$slot/harness/"
sed -i "s#path = \"/repo\"#path = \"$slot/repo\"#" "$slot/harness/Cargo.toml"
cd "$slot/repo" || exit 3
case $kind in
  patch) patch -p1 -s <"$what" || { echo "$what: does not apply"; exit 3; } ;;
  revert) git -C /repo show "$what" -- src | patch -p1 -R -s -F3 || { echo "$what: does not revert"; exit 3; } ;;
esac
touch src/*.rs src/*/*.rs
export CARGO_TARGET_DIR="$slot/target" VH_THREADS=${VH_THREADS:-8}
{ cargo build --release --offline --manifest-path "$slot/harness/Cargo.toml" && cargo build --profile plain --offline --manifest-path "$slot/harness/Cargo.toml"; } >"$slot/build.log" 2>&1 || { echo "$what: build fails"; grep -A6 '^error' "$slot/build.log" | head -20; exit 3; }
for p in "$@"; do
    timeout 900 "$slot/target/release/vh" run "$p" --replays "$slot/replays" >"$slot/out" 2>"$slot/err"; c=$?
    case $c in 0) r=missed ;; 1) r=caught ;; *) r="error($c)" ;; esac
    echo "$(basename "$what") $p $r $(grep -m1 "^$p/" "$slot/out" | cut -c1-150)"
done
