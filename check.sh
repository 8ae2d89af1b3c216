#!/bin/bash
# check.sh <property> [quick|thorough]
# Builds what the check of the property needs from the current tree of /repo, explores,
# writes evidence/<property>.json, and ends with
#   0 the property held on everything explored
#   1 after a line "VIOLATION property=<id> replay=<path>"
#   2 no answer (the harness does not build against the tree)
id=$1
tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
. "$here/lib.sh"
mkdir -p "$here/evidence" "$here/replays"
rm -f "$here/evidence/$id.json" "$here/replays/$id.txt"
limit=780
[ "$tier" = thorough ] && limit=7200

# a violation decided before the exploration starts: report <text file>
report() {
    { echo "property $id"; echo "re-run: bash $here/check.sh $id $tier"; tail -n 60 "$1"; } >"$here/replays/$id.txt"
    cat >"$here/evidence/$id.json" <<J
{"property": "$id", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["$2"], "exhaustive": false},
 "violations": 1, "wall_s": 0}
J
    tail -n 5 "$1"
    echo "VIOLATION property=$id replay=$here/replays/$id.txt"
    exit 1
}

case $id in
C03) build_sched || exit 2; bin=$sched_bin ;;
C04) build mc || exit 2; build_sched || exit 2; bin=$(bin_of mc) ;;
C07)
    . "$here/capi/build.sh"
    capi_build
    case $? in
    1) report "$capi_log" "the symbols and headers do not match" ;;
    2)
        echo "the library does not build:"
        grep -E "^error" -A8 "$capi_log" | head -40
        exit 2
        ;;
    esac
    build mc capi || exit 2
    bin=$(bin_of mc capi)
    export MC_CAPI="$here/target-capi/wrap" MC_CAPI_SRC="$here/capi"
    ;;
C18 | C19 | C20) build mc tc || exit 2; bin=$(bin_of mc tc) ;;
C21)
    build mc tc || exit 2
    program || exit 2
    bin=$(bin_of mc tc)
    export MC_PROGRAM="$here/target-bin/release/physical_tc"
    unset MC_SCHED_PROGRAM
    # without it (a way of using rayon that the stand-in lacks) the rest is checked
    build_prog && export MC_SCHED_PROGRAM="$prog_bin"
    ;;
C24)
    build mc tc || exit 2
    build overall || exit 2
    bin=$(bin_of mc tc)
    export MC_OVERALL="$here/target-overall/release"
    ;;
*) build mc || exit 2; bin=$(bin_of mc) ;;
esac

timeout -k 5 $limit "$bin" "$id" --tier "$tier" --out "$here/evidence/$id.json" \
    --known "$here/known-findings.txt" --replays "$here/replays" >"$here/replays/$id.log" 2>"$here/replays/$id.err"
rc=$?
grep -av '^Caution' "$here/replays/$id.log"
if [ $id = C04 ] && [ $rc = 0 ]; then
    # the second half: schedules
    timeout -k 5 $limit "$sched_bin" "$id" --tier "$tier" --out "$here/evidence/$id.sched" \
        --known "$here/known-findings.txt" --replays "$here/replays" >"$here/replays/$id.log" 2>"$here/replays/$id.err"
    rc=$?
    cat "$here/replays/$id.log"
    python3 "$here/tools/merge_evidence.py" "$here/evidence/$id.json" "$here/evidence/$id.sched"
    rm -f "$here/evidence/$id.sched"
fi
case $rc in
0 | 1) exit $rc ;;
2 | 101)
    tail -n 5 "$here/replays/$id.err"
    exit 2
    ;;
esac
# the code under test ended or blocked the whole process
{
    echo "property $id"
    if [ $rc = 124 ] || [ $rc = 137 ]; then
        echo "the exploration did not finish within $limit s (it takes under a minute): some call does not return"
    else
        echo "the exploration was ended by a fault in the code under test (status $rc)"
    fi
    echo "re-run: bash $here/check.sh $id $tier"
    tail -q -n 20 "$here/replays/$id.log" "$here/replays/$id.err"
} >"$here/replays/$id.txt"
[ -e "$here/evidence/$id.json" ] || cat >"$here/evidence/$id.json" <<J
{"property": "$id", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["ended with status $rc"], "exhaustive": false},
 "violations": 1, "wall_s": 0}
J
echo "VIOLATION property=$id replay=$here/replays/$id.txt"
exit 1
