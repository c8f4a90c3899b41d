#!/bin/bash
# tools/seed.sh <id>...: confirm each planted bug in a scratch copy (applies, builds, stable tests
# pass, demo 0 -> nonzero) and run its property's quick check on the copy.
# NOCHECK=1 skips the check; NOTEST=1 skips the tests.
P0=$PATH
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOWORK=off GOFLAGS=-mod=mod GOPROXY=off
for id in "$@"; do
 S=$V/seeded/$id; C=/tmp/seedcopy_$$
 rm -rf "$C"; cp -a /repo "$C"
 ( cd "$C"
   git checkout -q -- .
   bash "$S/demo.sh" >/tmp/d0_$$ 2>&1; d0=$?
   git apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; exit; }
   go build ./... || { echo "$id: DOES NOT BUILD"; exit; }
   bash "$S/demo.sh" >/tmp/d1_$$ 2>&1; d1=$?
   t=skipped
   if [ -z "$NOTEST" ]; then
    go test -json -vet=off -count=1 -timeout 10m ./... >/tmp/tl_$$ 2>/dev/null
    python3 /opt/vp/results.py /tmp/tr_$$ gojson:/tmp/tl_$$ >/dev/null 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/tr_$$')); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('stable',b.get('passed',[]))); m=st-set(o.get('passed',[]))
print('missing',len(m),sorted(m)[:4])")
   fi
   p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
   echo "$id: demo clean=$d0 patched=$d1 tests: $t"
   if [ -z "$NOCHECK" ]; then
    st=$(date +%s)
    export PATH="$P0"; unset GOROOT GOTOOLCHAIN GOFLAGS
    VERIF_SEED=1 VERIF_TIER=quick GOSYM_REPO="$C" "$V/check.sh" check $p ${TIER:-quick} >/tmp/ck_$$ 2>&1; r=$?
    echo "   check $p rc=$r $(( $(date +%s)-st ))s $(grep -m1 -E 'VIOLATION|INCONCL' /tmp/ck_$$)"
   fi )
 rm -rf "$C" /tmp/d0_$$ /tmp/d1_$$ /tmp/tl_$$ /tmp/tr_$$
done
