cd /verif
for p in ${@:-$(python3 -c "import json;print(*json.load(open('/verif/harness/checks.json')))")}; do
  s=$(date +%s.%N); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh $p quick > /tmp/out.$p 2>&1; rc=$?; e=$(date +%s.%N)
  printf "%s rc=%d %.1fs %s\n" $p $rc $(echo "$e-$s"|bc) "$(grep -v '^OK' /tmp/out.$p | head -3 | cut -c1-300 | tr '\n' '|')"
done
