#!/bin/bash
# exit 0: the property holds here; otherwise nonzero. Runs in the repository.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1 CGO_LDFLAGS_ALLOW='.*'
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/h" "$work/h" && mkdir "$work/lib" || exit 3
sed -i "s#=> /repo#=> $PWD#" "$work/h/go.mod"
gcc -O1 -fPIC -shared -fvisibility=hidden -w -o "$work/lib/libwasmer_linux_amd64.so" "$here/e/miniwasmer.c" -lpthread || exit 3
cd "$work/h" && go build -o "$work/demo" -ldflags "-extldflags '-L$work/lib -Wl,-rpath,$work/lib'" . || exit 3
cd "$work" && timeout 120 ./demo
