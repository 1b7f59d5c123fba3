#!/bin/bash
# Builds what the checks need: spectralDNS' extensions from /repo's working tree (incrementally,
# by content, in the folders git ignores there) and the TLC override classes in /verif/build.
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build/classes"
exec 9>"$V/build/lock"
flock 9
log=$V/build/build.log
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
src=$(ls "$V"/java/tlc2/module/*.java)
sum=$(cat $src | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/build/classes/stamp" 2>/dev/null)" != "$sum" ]; then
  javac -cp $J -d "$V/build/classes" $src >"$log" 2>&1 || { cat "$log"; exit 2; }
  echo $sum > "$V/build/classes/stamp"
fi
[ "$1" = java ] && exit 0
source /opt/vp/env.sh
# nothing to do when no source has changed since the last build of ours
key=$(cd /repo && cat setup.py spectralDNS/optimization/setup.py spectralDNS/optimization/*.in spectralDNS/optimization/pythran_maths.py spectralDNS/shen/LUsolve.pyx 2>/dev/null | sha256sum | cut -d' ' -f1)
n=$(cat /repo/spectralDNS/optimization/*.so /repo/spectralDNS/shen/*.so 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/build/repo.stamp" 2>/dev/null)" != "$key $n" ]; then
  build_ext >"$log" 2>&1 || { tail -40 "$log"; echo "BUILD-FAILED"; exit 2; }
  n=$(cat /repo/spectralDNS/optimization/*.so /repo/spectralDNS/shen/*.so 2>/dev/null | sha256sum | cut -d' ' -f1)
  echo "$key $n" > "$V/build/repo.stamp"
fi
exit 0
