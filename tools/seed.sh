#!/bin/bash
# seed.sh ID PROPERTY EDIT.py DEMO_test.go "needs" "what": plants a bug in a
# scratch copy, confirms it and keeps it under /verif/seeded/ID.
# EDIT.py is run in the scratch copy with a helper sub(file, old, new).
id=$1 prop=$2 edit=$3 demo=$4 needs=$5 what=$6
W=/tmp/seedwork; mkdir -p $W; C=$W/$id; 
[ -e $C ] && find $C -delete
git clone -q /repo $C || exit 1
cd $C
cat > $W/run.py <<PY
def sub(f, old, new, n=1):
    s = open(f).read()
    assert s.count(old) >= 1, (f, old)
    assert n == 0 or s.count(old) == n, (f, s.count(old), old)
    open(f, "w").write(s.replace(old, new))
exec(open("$edit").read())
PY
python3 $W/run.py || exit 1
gofmt -l *.go | grep -v _test
D=/verif/seeded/$id; mkdir -p $D
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "$id: empty patch"; exit 1; }
cp $demo $D/demo.go.txt
cat > $D/demo.sh <<'SH'
#!/bin/bash
# Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp /tmp/demo-overlay-XXXXXX.json)
echo "{\"Replace\": {\"$PWD/zz_demo_test.go\": \"$D/demo.go.txt\"}}" > "$O"
timeout 250 go test -overlay "$O" -run '^TestZZDemo$' -count=1 . > "$O.log" 2>&1
rc=$?
tail -n 20 "$O.log"
[ $rc -eq 0 ] && exit 0
exit 1
SH
chmod +x $D/demo.sh
python3 - "$D" "$prop" "$needs" "$what" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
go build ./... || { echo "$id: does not build"; exit 1; }
go test ./... > $W/test.log 2>&1 || { echo "$id: tests FAIL"; grep -m5 -- "--- FAIL" $W/test.log; exit 1; }
$D/demo.sh > $W/demo1.log 2>&1 && { echo "$id: demo passes WITH the bug"; exit 1; }
git stash -q
$D/demo.sh > $W/demo2.log 2>&1 || { echo "$id: demo fails on the clean tree"; tail -5 $W/demo2.log; exit 1; }
git stash pop -q
/verif/bin/ck -repo $C -p $prop -out /tmp/ev > $W/ck.log 2>&1
rc=$?
echo "$id: ok; check exits $rc"; [ $rc -ne 0 ] || tail -3 $W/ck.log | cut -c1-200
cd /; find $C -delete
