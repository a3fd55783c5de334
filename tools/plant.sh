#!/bin/bash
# plant.sh ID PROPERTY FILE 'PERL-EXPR' DEMO.rs NEEDS BREAKS [ENCODE-FEATURES]
# Confirms, in a scratch copy, that the change builds, passes the stable tests and fails its
# demonstration, which passes without it; then keeps it in /verif/seeded/ID.
# NODEBUG=1: the demonstration is built without debug assertions.
# With PERL-EXPR "-", uses the edits already made in /tmp/plant/repo (after `plant.sh --fresh`).
set -u
P=/tmp/plant
fresh() {
  mkdir -p $P
  rm -rf /tmp/plant/repo
  git -C /repo worktree prune
  git clone -q /repo $P/repo
  cp /repo/Cargo.lock $P/repo/ 2>/dev/null
}
if [ "$1" = --fresh ]; then fresh; exit; fi
id=$1 prop=$2 file=$3 expr=$4 demo=$5 needs=$6 breaks=$7
if [ "$expr" != - ]; then fresh; perl -0pi -e "$expr" $P/repo/src/$file; fi
mkdir -p $P/out/$id
git -C $P/repo diff > $P/out/$id/patch.diff
[ -s $P/out/$id/patch.diff ] || { echo "$id: NO CHANGE"; exit 1; }
cp "$demo" $P/out/$id/main.rs
cat > $P/out/$id/demo.sh <<'X'
#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cola = { path = "$PWD", features = ["serde"] }
serde_json = "1"
[profile.dev]
opt-level = 1
[workspace]
T
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true
(cd "$d" && cargo build --offline -q ${RELEASE:+--release} 2>"$d/log") || { cat "$d/log"; exit 3; }
timeout 200 "$d/target/${RELEASE:+release}${RELEASE:-debug}/demo"
X
sed -i 's#\${RELEASE:+release}\${RELEASE:-debug}#debug#; s# \${RELEASE:+--release}##' $P/out/$id/demo.sh
[ -n "${NODEBUG:-}" ] && sed -i 's#^opt-level = 1#opt-level = 1\ndebug-assertions = false\noverflow-checks = false#' $P/out/$id/demo.sh
chmod +x $P/out/$id/demo.sh
(cd /repo && bash $P/out/$id/demo.sh) > $P/out/$id.base 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -5 $P/out/$id.base; exit 1; }
(cd $P/repo && bash $P/out/$id/demo.sh) > $P/out/$id.mut 2>&1; rc=$?
[ $rc = 0 ] && { echo "$id: demo passes with the change"; exit 1; }
[ $rc = 3 ] && { echo "$id: does not build"; tail -20 $P/out/$id.mut; exit 1; }
sed -e "s#^REPO=.*#REPO=$P/repo#; s#^WS=.*#WS=$P/ws#; s#CARGO_TARGET_DIR=.*#CARGO_TARGET_DIR=$P/target#" /opt/vp/env.sh > $P/env.sh
( . $P/env.sh; prepare; cargo test --all-features --no-fail-fast --offline -- --test-threads 8 > $P/test.log 2>&1 )
python3 /opt/vp/results.py $P/res.json "cargo:$P/test.log"
python3 - <<Y || exit 1
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("$P/res.json"))
m=b-set(r["passed"])
print("$id: demo rc=$rc, stable tests missing:", sorted(m)[:4])
sys.exit(1 if m else 0)
Y
python3 - "$id" "$prop" "$needs" "$breaks" <<'Y'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/tmp/plant/out/{sys.argv[1]}/meta.json","w"),indent=1)
Y
mkdir -p /verif/seeded
cp -r $P/out/$id /verif/seeded/
echo "$id: KEPT"; tail -2 $P/out/$id.mut
