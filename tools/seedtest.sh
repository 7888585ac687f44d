#!/bin/bash
# tools/seedtest.sh <id>...: confirms planted changes in scratch copies under /tmp
# (clean demo passes, patch applies, tests pass, demo fails, the check reports it)
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seedtest
mkdir -p $S
[ -d $S/repo ] || git clone -q /repo $S/repo
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD && git -C $S/repo clean -fdq
sed -e "s#\"/repo\", \"/opt/vp/ws\"#\"$S/repo\", \"$S/ws\"#" /opt/vp/mkws.py > $S/mkws.py
mkdir -p $S/verif && cp -a $V/bin $V/harness $V/tools $V/known_findings.txt $V/properties.jsonl $S/verif/
[ -d $S/ws ] || cp -a /opt/vp/ws $S/ws 2>/dev/null
export PATH=/root/.cargo/bin:$PATH
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $S/repo checkout -q -- . 
  x=$(mktemp -d); cp -a $d/. $x/; rm -f $x/patch.diff $x/meta.json
  (cd $S/repo && timeout 300 bash $x/demo.sh > $S/$id.clean.log 2>&1); a=$?
  git -C $S/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $S/repo && timeout 300 bash $x/demo.sh > $S/$id.demo.log 2>&1); b=$?
  rm -rf "$x"
  if [ -z "$NOTESTS" ]; then
  python3 $S/mkws.py && (. /opt/vp/env.sh; cd $S/ws && CARGO_TARGET_DIR=$S/target timeout 840 cargo test --workspace --no-default-features --no-fail-fast --offline -- --test-threads 8 > $S/$id.test.log 2>&1)
  n=$(grep -c '^test .* \.\.\. ok' $S/$id.test.log); f=$(grep -c '^test .* FAILED\|^error' $S/$id.test.log)
  fi
  if [ -z "$NOCHECK" ]; then
  (cd $S/verif && VERIF_REPO=$S/repo timeout 900 bin/check $p > $S/$id.check.log 2>&1); c=$?
  v=$(grep -c "^VIOLATION property=$p " $S/$id.check.log)
  fi
  git -C $S/repo checkout -q -- .
  ok=MISSED; [ "$c" = 1 ] && [ "$v" -gt 0 ] && ok=caught
  good=BAD; [ $a = 0 ] && [ $b != 0 ] && [ "$f" = 0 ] && good=valid
  echo "$id $p: $good (clean demo $a, patched demo $b, tests ok $n failed $f) $ok (check exit $c)"
done
