#!/bin/bash
# run.sh 'T..' [CHECK..]: applies the rewrites T of main.go to a scratch copy of /repo and runs all checks (or CHECK..) on it.
T=$1; shift
C="$@"; [ -z "$C" ] && C=$(python3 -c "print(*['C%02d'%i for i in range(1,50)])")
W=/tmp/refactor-ast-$(echo $T | tr ' ' -); rm -rf "$W"; cp -a /repo "$W"
(cd "$(dirname "$0")" && go build -o /tmp/refast . ) || exit 2
/tmp/refast "$W" $T || exit 2
(cd "$W" && GOFLAGS= go build ./... && GOFLAGS= go test ./... 2>&1 | grep -v -e 'no test files' -e ^ok)
for c in $C; do
  s=$(date +%s); out=$(VERIF_SEED=1 /verif/bin/vx check -prop $c -tier quick -repo "$W" -out /tmp/refactor-out 2>&1); rc=$?
  e=$(($(date +%s)-s)); echo "$T $c rc=$rc ${e}s"; [ $rc != 0 ] && echo "$out" | tail -15 | cut -c1-600
done
rm -rf "$W"
