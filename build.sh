#!/bin/bash
# Builds the simulator from /repo's current working tree: build.sh [variant]
# variant: rel (default) or asan.  Output: /verif/build/<variant>/zsim
# /repo itself is not touched: its sources are copied by content.
set -u
V=${1:-rel}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${ZMDP_REPO:-/repo}
B=$HERE/build/$V
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset MAKEFLAGS MFLAGS DEPEND NO_DEPEND
mkdir -p "$B/tree/src"
exec 9>"$HERE/build/$V.lock"
flock 9
FLAGS="-O2 -g -DZMDP_SIM=1"
[ "$V" = asan ] && FLAGS="-O1 -g -DZMDP_SIM=1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-omit-frame-pointer -fno-sanitize=vptr,alignment"
OS="$(uname -s | tr A-Z a-z)$(uname -r | sed 's/\..*$//')"
log=$B/build.log
: > "$log"

python3 "$HERE/sim/sync.py" "$REPO/src" "$B/tree/src" "$FLAGS" >> "$log" 2>&1 || { tail -20 "$log"; exit 3; }

cd "$B/tree/src" || exit 3
find "$B/tree/include" -type l -delete 2>/dev/null
MK=(make -fMakefile "CC=gcc -fcommon" "USER_CFLAGS=$FLAGS")
ok=1
"${MK[@]}" headerinstall >> "$log" 2>&1 || ok=0
[ $ok = 1 ] && { "${MK[@]}" -j8 DEPEND=1 libinstall >> "$log" 2>&1 || ok=0; }
# the objects of the main program (the simulator is linked below)
if [ $ok = 1 ]; then
  ( cd main && make -j4 DEPEND=1 -fMakefile "CC=gcc -fcommon" "USER_CFLAGS=$FLAGS" obj/$OS/zmdp.o obj/$OS/TestDriver.o obj/$OS/solverUtils.o ) >> "$log" 2>&1 || ok=0
  ( cd pomdpModels/lifeSurvey && make -j4 DEPEND=1 -fMakefile "CC=gcc -fcommon" "USER_CFLAGS=$FLAGS" obj/$OS/gen_LifeSurvey.o obj/$OS/genTargetLocations.o obj/$OS/dumpMap.o ) >> "$log" 2>&1 || ok=0
fi
if [ $ok = 0 ]; then
  echo "BUILD FAILED (repo)"; tail -40 "$log"
  rm -rf "$B/tree/src/parsers/include"
  exit 3
fi
echo "repo libraries built" >> "$log"
cd "$HERE/sim" || exit 3
make -s -j8 -f "$HERE/sim/Makefile" B="$B" V="$V" OS="$OS" REPO="$REPO" >> "$log" 2>&1 || { echo "BUILD FAILED (simulator)"; tail -40 "$log"; exit 3; }
exit 0
