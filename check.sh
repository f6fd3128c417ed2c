#!/bin/bash
# usage: check.sh <property id> [quick|thorough | --replay FILE]
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
. ./env.sh
ID=$1; shift
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p run evidence
if is_conc "$BIN"; then BUILD=conc_bin EXE="$CONC_OUT/$BIN"; else BUILD=build_bin EXE="$(bin_path "$BIN")"; fi
if [ "$1" = --replay ]; then case $2 in *-plain-*) is_conc "$BIN" || BUILD=build_plain EXE="$(plain_path "$BIN")";; esac
elif has_plain "$BIN"; then PLAIN=1; fi
# (the two builds go side by side)
rm -f "run/$ID.plain.json"
if [ -n "$PLAIN" ]; then build_plain "$BIN" > "run/$BIN.plain.log" 2>&1 & fi
if ! $BUILD "$BIN" > "run/$BIN.build.log" 2>&1; then
    tail -40 "run/$BIN.build.log"
    # C34 enumerates macro expansions at compile time: when every other check would build, one that does not compile is the violation.
    if [ "$BIN" = c34 ] && build_bin c33 > run/c33.build.log 2>&1; then
        mkdir -p replay; cp run/c34.build.log replay/C34-build.txt
        echo "VIOLATION property=C34 replay=$MC_ROOT/replay/C34-build.txt"
        exit 1
    fi
    echo "ERROR: the harness does not build against /repo"
    exit 2
fi
if [ -n "$PLAIN" ]; then
    # First as in a release build: without overflow checks and debug assertions.
    if ! wait $!; then tail -40 "run/$BIN.plain.log"; echo "ERROR: the plain build of the harness fails"; exit 2; fi
    MC_MODE=plain "$(plain_path "$BIN")" quick | sed 's/^\(C[0-9]*\) /\1 (plain build) /'
    c=${PIPESTATUS[0]}
    [ $c = 0 ] || exit $c
fi
exec "$EXE" "${@:-quick}"
