#!/bin/bash
# seed_check.sh ID...: confirm planted bugs (applies, builds, passes the stable tests, demo 0 without / nonzero with the patch) in a
# scratch copy of /repo; with CATCH=1 also run the quick check of the property against the patched copy.
set -u
W=/tmp/w/seedrepo
for id in "$@"; do
  S=/verif/seeded/$id
  rm -rf /tmp/w/seedrepo /tmp/w/seeddemo
  cp -a /repo $W
  mkdir -p /tmp/w/seeddemo && cp "$S"/* /tmp/w/seeddemo/ && rm -f /tmp/w/seeddemo/*.diff /tmp/w/seeddemo/meta.json
  (cd /repo && timeout 300 bash /tmp/w/seeddemo/demo.sh >/tmp/w/demo0.log 2>&1); r0=$?
  if ! git -C $W apply "$S/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  (cd $W && timeout 300 bash /tmp/w/seeddemo/demo.sh >/tmp/w/demo1.log 2>&1); r1=$?
  t=-
  if [ -z "${NOTEST:-}" ]; then
    git -C /repo apply "$S/patch.diff" && (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/t.json) >/tmp/w/test.log 2>&1; t=$(tail -1 /tmp/w/test.log)
    git -C /repo checkout -- . ; fi
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  c=-
  if [ -n "${CATCH:-}" ]; then
    VERIF_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/run.py $p >/tmp/w/catch_$id.log 2>&1; c="rc=$? $(grep -m1 VIOLATION /tmp/w/catch_$id.log)"
  fi
  echo "$id [$p]: demo $r0/$r1 tests: $t catch: $c"
done
rm -rf /tmp/w/seedrepo /tmp/w/seeddemo
