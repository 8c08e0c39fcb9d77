#!/bin/bash
# Undo each repair recorded in known_findings.txt, one at a time, in a scratch copy, and run the
# check of its property there: each must report the violation again.
# usage: regress.sh [commit...]      scratch: /tmp/vpmc-regress (removed at the end)
V=$(cd "$(dirname "$0")/.." && pwd); L=/tmp/vpmc-regress
rm -rf /tmp/vpmc-regress; mkdir -p $L/verif/evidence $L/verif/replays
git clone -q /repo $L/repo || exit 2
cp -r "$V/harness" "$V/check.sh" "$V/known_findings.txt" "$V/properties.jsonl" $L/verif/
sed -i "s#/repo#$L/repo#g" $L/verif/check.sh $L/verif/harness/Cargo.toml
cp /repo/Cargo.lock $L/repo/ 2>/dev/null
grep '^fixed:' "$V/known_findings.txt" | sed 's/fixed: property=//' | while read -r p c what; do
  [ $# -gt 0 ] && [[ " $* " != *" $c "* ]] && continue
  git -C $L/repo checkout -q -f HEAD
  if ! git -C /repo diff $c $c^ | git -C $L/repo apply -3 2>/dev/null; then
    git -C $L/repo reset -q --hard; echo "$c $p: later repairs build on this one, not reversible alone"; continue
  fi
  s=$(date +%s); (cd $L/verif && ./check.sh $p quick) >$L/log 2>&1 </dev/null; k=$?
  echo "$c $p: exit $k $(($(date +%s) - s))s $(grep -m1 -ao 'VIOLATION property=C[0-9]*' $L/log) ($what)"
  [ $k = 2 ] && tail -3 $L/log
  git -C $L/repo reset -q --hard
done
rm -rf /tmp/vpmc-regress
