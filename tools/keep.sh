#!/bin/bash
# keep.sh <id> : store the uncommitted change of the scratch worktree /tmp/wt as seeded/<id>/patch.diff, with the generic demo.sh
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty; exit 1; }
git -C /tmp/wt checkout -q -- .
cat > $d/demo.sh <<'EOD'
#!/bin/bash
# builds main.rs (beside this file) against the crates of the current directory, and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/deps.toml" > "$d/Cargo.toml"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
cd "$d" && cargo build --offline -q 2> "$d/log" || { tail -20 "$d/log"; exit 3; }
cd "$d" && timeout 200 "$d/target/debug/demo"
EOD
chmod +x $d/demo.sh
