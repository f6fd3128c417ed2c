#!/bin/bash
# Self test of the concurrency checks' scheduler: every known-bad thread program has to be reported, every known-good one passed.
cd "$(dirname "$0")/.." || exit 2
export MC_ROOT="$PWD"
. ./env.sh && conc_bin rtself || exit 2
bad=0
for n in $(grep -o '("\(bad\|good\)-[a-z0-9-]*' conc/src/bin/rtself.rs | cut -c3-); do
  timeout 60 "$CONC_OUT/rtself" quick x "$n" >/tmp/rtself.$$ 2>&1; rc=$?
  case $n in bad-*) want=1;; *) want=0;; esac
  [ $rc = $want ] && echo "ok   $n: $(tail -2 /tmp/rtself.$$ | head -1)" || { echo "FAIL $n (exit $rc)"; bad=1; }
done
rm -f /tmp/rtself.$$
exit $bad
