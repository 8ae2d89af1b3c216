#!/bin/bash
# seedtest.sh <lab> <id>...: in a lab (private copies of /repo and /verif, bound over them in a mount
# namespace of its own), confirm planted changes and run the check of their property on them:
# tests still pass, demo exits 0 without and nonzero with the change, exit status of the check.
n=$1; shift
L=/tmp/lab/$n
if [ -z "$IN_LAB" ]; then
    if [ ! -d $L/verif ]; then
        mkdir -p $L
        rsync -a --exclude /target /repo $L/
        rsync -a --exclude /.git /verif $L/
    fi
    rsync -rlp --checksum --delete --exclude /target /repo/ $L/repo/
    rsync -rlp --checksum --delete --exclude /.git --exclude '/target*' --exclude /evidence --exclude /replays /verif/ $L/verif/
    exec unshare -Urm bash -c 'mount --bind '$L/repo' /repo && mount --bind '$L/verif' /verif && IN_LAB=1 exec bash /verif/tools/seedtest.sh "$@"' x $n "$@"
fi
cd /repo
for id in "$@"; do
    S=/verif/seeded/$id
    P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    git checkout -q -- .
    p=- f=- d0=- d1=-
    if [ -z "$CHECKONLY" ]; then
        bash /opt/vp/build.sh >$L/build.log 2>&1 || echo "$id: base does not build"
        D=$(mktemp -d /tmp/seeddemo.XXXXXX)
        cp -r $S/. $D; rm -f $D/meta.json $D/patch.diff
        bash $D/demo.sh >$L/demo0.log 2>&1; d0=$?
    fi
    git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
    if [ -z "$CHECKONLY" ]; then
        bash /opt/vp/build.sh >$L/build.log 2>&1 || echo "$id: does not build"
        bash /opt/vp/test.sh $L/test.json >$L/test.log 2>&1
        p=$(tail -n 1 $L/test.log)
        bash $D/demo.sh >$L/demo1.log 2>&1; d1=$?
        rm -rf "$D"
    fi
    r=skipped
    if [ -z "$NOCHECK" ]; then
        s=$SECONDS
        (cd /verif; timeout 900 bash check.sh $P quick >$L/check-$id.log 2>&1); r=$?
        r="$r ($((SECONDS - s)) s)"
    fi
    git checkout -q -- .
    echo "$id [$P]: tests: $p; demo clean $d0 patched $d1; check exit $r"
    [ "$d0" = 0 ] || [ $d0 = - ] || tail -3 $L/demo0.log
    [ "$d1" != 0 ] || tail -3 $L/demo1.log
    [ -n "$NOCHECK" ] || tail -n 2 $L/check-$id.log | cut -c1-300
done
