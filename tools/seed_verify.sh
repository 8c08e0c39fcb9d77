#!/bin/bash
# seed_verify.sh <id>...: confirms planted bugs in a scratch copy: patch applies, builds, stable tests pass,
# demo passes clean and fails patched; then says whether the property's check catches it (in /repo, undone at once).
S=/tmp/seedwork
[ -d $S/repo ] || { mkdir -p $S; cp -a /repo $S/repo; }
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -qf FETCH_HEAD
  (cd $S/repo && bash $d/demo.sh >/tmp/seed_clean.log 2>&1); c=$?
  git -C $S/repo apply --check $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  git -C $S/repo apply $d/patch.diff
  # own touched lines?
  (cd $S/repo && . /opt/vp/env.sh && cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/seed_test.log 2>&1)
  python3 /opt/vp/results.py /tmp/seed_out.json cargo:/tmp/seed_test.log >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
def names(f):
    d=json.load(open(f))
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return set(d)
print(len(names('/opt/vp/BASELINE.json')-names('/tmp/seed_out.json')))
P
)
  (cd $S/repo && bash $d/demo.sh >/tmp/seed_patched.log 2>&1); p=$?
  git -C $S/repo checkout -qf .
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  k=skipped
  if [ -z "$NOCHECK" ]; then
    git -C /repo apply $d/patch.diff && { (cd /verif && ./check.sh $prop quick >/tmp/seed_check.log 2>&1); k=$?; }
    git -C /repo checkout -q -- .
  fi
  echo "$id ($prop): clean=$c missing_tests=$t patched=$p check=$k $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/seed_check.log)"
  [ "$c" = 0 ] || tail -5 /tmp/seed_clean.log
  [ "$p" = 2 ] && tail -5 /tmp/seed_patched.log
done
