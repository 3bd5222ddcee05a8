#!/bin/bash
# Builds the framework once, to fill the build cache; every check rebuilds from /repo's current tree.
cd "$(dirname "$0")/.." || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
for m in drv gover; do
  [ -d "$m" ] && { (cd "$m" && go build -o /dev/null .) || { echo "building $m failed"; exit 1; }; }
done
echo ok
