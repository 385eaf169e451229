#!/bin/bash
# development aid: list every distinct failure key of a check
V="$(cd "$(dirname "$0")/.." && pwd)"; ID=$1; shift
export ASAN_OPTIONS="detect_leaks=0:exitcode=66:allocator_may_return_null=1"
VERIF_BUILD=$V/build/dev python3 $V/tools/genbuild.py && ninja -C $V/build/dev $ID | grep -E "error|FAILED|warning: unused"
F=/tmp/survey.$ID; : > $F
cd /tmp; MC_SURVEY=$F timeout ${SURVEY_T:-300} $V/build/dev/bin/$ID --evidence /tmp/survey.ev --known $V/known_findings.txt --budget 600 "$@" 2>&1 | grep -E "states=|VIOLATION|failure|queries|worker|=[0-9]+$" 
sort -t: -k1,1 -u $F | cut -c1-330
