#!/bin/bash
# try.sh <slot> <edit.py|patch.diff> [properties...]: runs the checks on a scratch copy of /repo with an edit applied
slot=$1; edit=$2; shift 2
W=/tmp/w/$slot; mkdir -p $W
rsync -a --delete --exclude target /repo/ $W/repo/ 2>/dev/null || { rm -rf /tmp/w/$slot/repo; cp -a /repo $W/repo; }
mkdir -p $W/verif
for d in tools driver harness witness known_findings.json MANIFEST.json properties.jsonl; do rm -rf $W/verif/${d:?}; cp -a /verif/$d $W/verif/; done
[ -d $W/verif/.build ] || cp -a /verif/.build $W/verif/.build
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/verif/harness/Cargo.toml $W/verif/witness/Cargo.toml
cd $W/repo && git checkout -q -- . || exit 3
case $edit in *.py) python3 $edit || exit 3;; *) git apply $edit || exit 3;; esac
git diff --stat | tail -1
[ -n "$TESTS" ] && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$W/target cargo test --workspace --offline 2>&1 | grep -E "^error|FAILED|panicked|mismatch" | head
export VERIF_REPO=$W/repo
P=${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}
for p in $P; do cd $W/verif; s=$(date +%s); timeout 900 python3 tools/check.py $p quick >$W/$p.log 2>&1; rc=$?; [ $rc != 0 ] && echo "$(basename $edit) $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -E '^(UNDECIDED|VIOLATION|BROKEN|\[)' $W/$p.log | cut -c1-300)"; done
echo "done $(basename $edit)"
