#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra arguments of the monitor]
# Builds the engine, the monitors and /repo's current tree, runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
export HOME=${HOME:-/root} LANG=C.UTF-8
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
. "$here/tools/props.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
# the module files are copied: building must not rewrite committed files
cp "$here/harness/go.mod" "$work/go.mod" && cp "$here/harness/go.sum" "$work/go.sum" || exit 2
mkdir "$work/lib"
if ! gcc -O2 -g -fPIC -shared -fvisibility=hidden -w -o "$work/lib/libwasmer_linux_amd64.so" "$here/wasmer/miniwasmer.c" -lpthread; then echo "engine build failed" >&2; exit 2; fi
export CGO_LDFLAGS_ALLOW='.*'
build() { # package, output, extra flags
  (cd "$here/harness" && go build -modfile "$work/go.mod" $3 -o "$2" -ldflags "-extldflags '-L$work/lib -Wl,-rpath,$work/lib'" "$1")
}
pkg=$(prop_pkg "$id"); flags=$(prop_flags "$id")
[ -n "$pkg" ] || { echo "no check for $id" >&2; exit 2; }
build "./cmd/$pkg" "$work/mon" "$flags" || { echo "build failed" >&2; exit 2; }
for x in $(prop_extra "$id"); do build "$x" "$work/$(basename "$x")" "" || { echo "build failed: $x" >&2; exit 2; }; done
export VERIF_LIB="$work/lib" VERIF_WORK="$work" VERIF_HOME="$here" TMPDIR="$work"
"$work/mon" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here/evidence/$id.json" -replays "$here/evidence/replays" -known "$here/known_findings.jsonl" "$@"
exit $?
