#!/bin/bash
# check.sh PROPERTY quick|thorough: decide one property with the symbolic executor.
cd "$(dirname "$0")" || exit 2
V=$PWD
prop=$1 tier=${2:-quick}
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
need=1
if [ -x bin/gosym ]; then
  need=0
  for f in engine/*.go engine/go.mod; do [ "$f" -nt bin/gosym ] && need=1; done
fi
if [ $need = 1 ]; then
  mkdir -p bin
  (cd engine && env -u GOROOT /usr/local/bin/go build -o "$V/bin/gosym.$$" .) || { echo "engine build failed"; exit 2; }
  mv -f "bin/gosym.$$" bin/gosym
fi
if [ "$prop" = C12 ]; then
  # the routers and wrappers as the generators would write them now have to pass too, where they differ from the
  # checked-in ones
  gen=$(mktemp -d) || exit 2
  trap 'rm -rf "$gen"' EXIT
  GO123=/opt/veriftools/go1.23.12
  env -u GOROOT PATH=$GO123/bin:$PATH GOROOT=$GO123 harness/c12/regen/regen.sh /repo "$gen" > "$gen/log" 2>&1
  rc=$?
  tail -20 "$gen/log"
  [ $rc -gt 1 ] && exit 2
  bad=0
  if [ $rc = 1 ]; then
    mkdir -p evidence/replay; cp "$gen/log" evidence/replay/C12-generator.txt
    echo "VIOLATION property=C12 replay=$V/evidence/replay/C12-generator.txt"
    bad=1
  elif [ -f "$gen/overlay.json" ]; then
    mkdir -p evidence/generated && cp "$gen"/*.go "$gen/overlay.json" evidence/generated/ && sed -i "s#$gen/#$V/evidence/generated/#g" evidence/generated/overlay.json
    bin/gosym check -prop C12 -tier "$tier" -repo /repo -verif "$V" -overlay "$V/evidence/generated/overlay.json" -out "$V/evidence/generated" -run 'CheckUnary$|CheckStream$|CheckTyped|CheckWrapped' 2>&1 | tee "$gen/log2"
    rc=${PIPESTATUS[0]}
    if [ $rc = 1 ]; then bad=1
    elif [ $rc != 0 ]; then
      mkdir -p evidence/replay; cp "$gen/log2" evidence/replay/C12-generated.txt
      echo "the generated routers and wrappers don't build"
      echo "VIOLATION property=C12 replay=$V/evidence/replay/C12-generated.txt"
      bad=1
    fi
  fi
  bin/gosym check -prop "$prop" -tier "$tier" -repo /repo -verif "$V"
  rc=$?
  [ $rc = 0 ] && rc=$bad
  exit $rc
fi
exec bin/gosym check -prop "$prop" -tier "$tier" -repo /repo -verif "$V"
