#!/bin/bash
# seedtest.sh ID... : in a scratch copy of /repo, check that the seeded change builds, passes the tests (ctest), and that its demo tells it apart; then run the check
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); mkdir $t/repo; git -C /repo archive HEAD | tar x -C $t/repo; git -C $t/repo init -q
  (cd $t/repo && timeout 300 $d/demo.sh >/dev/null 2>&1); a=$?
  git -C $t/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $t/repo && timeout 300 $d/demo.sh >/dev/null 2>&1); b=$?
  tests=skipped
  if [ -z "$NOTESTS" ]; then
    (cd $t/repo && CC=gcc cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug "-DCMAKE_C_FLAGS_DEBUG=-g -Wno-error" -DHAVE_BACKTRACE=1 && ninja -C _build) >$t/log 2>&1 || echo "$id: BUILD FAILS"
    tests=$(cd $t/repo && ctest --test-dir _build -j8 --timeout 120 2>&1 | grep -E "tests passed|\(Failed|\(Timeout|Subprocess" | tr '\n' ' ')
  fi
  s=$(date +%s); r=skipped
  [ -z "$NOCHECK" ] && r=$(cd /verif && VF_REPO=$t/repo ./check $prop 2>&1 | grep -E '^VIOLATION|^UNDEC|discharged' | cut -c1-160)
  echo "$id [$prop]: demo clean=$a patched=$b; tests: $tests; $(( $(date +%s) - s )) s"; echo "$r" | sort | uniq | head -4 | sed 's/^/    /'
  /bin/rm -r "$t"
done
true
