#!/bin/bash
# check.sh PROP          decide one property (VERIF_SEED, VERIF_TIER from the environment)
# check.sh --replay FILE run one recorded violation again
# exit 0: held on everything explored; 1: violated; anything else: no answer
here="$(cd "$(dirname "$0")" && pwd)"
export MZSIM_ROOT="${MZSIM_ROOT:-$(dirname "$here")}"
target="${MZSIM_TARGET:-$here/target}"
mkdir -p "$target"
# one build at a time; the program is copied so that a later build cannot replace it under a run
exec 9>"$target/.mzsim-lock"
flock 9
bin="$target/mzsim-run.$$"
# the optimised build, for the second phase of some checks
case "$1" in
  --replay) deep=$(grep -c '"build": "fast"' "$2" 2>/dev/null) ;;
  C08 | C12 | C13) deep=1 ;;
  *) deep=0 ;;
esac
"$here/check_build.sh" ${deep:+$deep} 9>&- || { echo "mzsim: the build failed" >&2; exit 3; }
cp "$target/debug/mzsim" "$bin" || exit 3
if [ "$deep" = 1 ]; then cp "$target/fast/mzsim" "$bin.fast" || exit 3; fi
exec 9>&-
export MZSIM_HOT_FILE="$bin.hot"
trap 'rm -f "$bin" "$bin.fast" "$bin.hot"' EXIT
trap 'exit 4' INT TERM
if [ "$1" = --replay ]; then
  [ "$deep" = 1 ] && bin="$bin.fast"
  "$bin" replay "$2"
else
  rm -f "$bin.hot"
  "$bin" check "$1" && { [ "$deep" = 0 ] || "$bin.fast" deep "$1"; }
fi
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
