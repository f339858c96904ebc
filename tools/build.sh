#!/bin/bash
# build.sh [PROPERTY|race|plain]: build the harness; prints the binary's path.
set -e
cd "$(dirname "$0")/.."
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOCACHE="$PWD/build/gocache" GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
repo=/repo
mode=plain
case "$1" in C11|race) mode=race;; esac
mkdir -p build
exec 9>build/.lock
flock 9
goroot=$(go env GOROOT)
modcache=$(go env GOMODCACHE)
ver=$(sed -n 's/^.*golang.org\/x\/crypto \(v[^ ]*\).*$/\1/p' $repo/go.mod | head -1)
python3 overlay/gen.py "$PWD/build" $repo "$goroot" "$modcache/golang.org/x/crypto@$ver" >&2
sed "s#=> ../build/xcrypto#=> $PWD/build/xcrypto#" harness/go.mod > build/go.mod
cp $repo/go.sum build/go.sum
extra=
if [ $mode = race ]; then extra="-race -gcflags=verifharness=-race=false"; fi
cd harness
go build -modfile=../build/go.mod -overlay ../build/overlay.json $extra -o ../build/harness-$mode . >&2
echo "$OLDPWD/build/harness-$mode"
