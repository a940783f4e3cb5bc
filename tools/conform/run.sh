#!/bin/bash
# run.sh [Fn..]: runs library functions symbolically, each sampled path again natively, and compares what they observe.
# Development tool for the engine.
D=/tmp/conform.$$; mkdir -p $D/harness; trap "rm -rf $D" EXIT
cp -a /verif/harness/verif* $D/harness/; mkdir $D/harness/sdp; ln -s /verif/bin $D/bin
cp /verif/tools/conform/conform.go.txt $D/harness/sdp/conform.go
run() { f=$1; VX_ROOT=$2 timeout 100 /verif/bin/vx run -t 20 -j 2 -samples 40 sdp Verif$f 2>&1 | awk -v f=$f '
/paths=/ { sub(/.*paths=/,"paths="); sub(/steps.*/,""); p=$0 } /agreeing/ { a=$0; n=$4+0; m=$6+0 } /UNSUPP|VIOL|MISM|model  obs|native obs|^load/ { if (k++<4) d=d "\n     " substr($0,1,300) } /outcomes/ { o=$0; good=($0 ~ /\[ok:[0-9]+\]/) }
END { print ((good && n==m && n>0) ? "ok  " : "BAD ") f " " p a ((good && n==m) ? "" : o d) }'; }
export -f run
F="$@"; [ -z "$F" ] && F=$(grep -o '^func Verif[A-Za-z0-9]*' $D/harness/sdp/conform.go | cut -c11-)
echo $F | tr ' ' '\n' | xargs -P 4 -I{} bash -c "run {} $D"
