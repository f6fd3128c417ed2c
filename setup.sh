#!/bin/bash
# Builds every check from the committed files; offline.
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
. ./env.sh
mkdir -p run evidence
# (c34 may not build when the macro it expands is broken; its check reports that)
{ build_all || build_bin c33; } && { build_all_plain || build_plain c33; } && conc_cargo --bins
