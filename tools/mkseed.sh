#!/bin/bash
# mkseed.sh <id>: makes the demonstration folder of a planted bug from the kit;
# main.go and patch.diff are written by hand
set -e
v=$(cd "$(dirname "$0")/.." && pwd)
d=$v/seeded/$1; mkdir -p $d/h/mw $d/h/chain $d/h/kit
cp $v/tools/kit/demo.sh $d/demo.sh; chmod +x $d/demo.sh
mkdir -p $d/e; cp $v/wasmer/miniwasmer.c $d/e/
cp $v/harness/mw/*.go $d/h/mw/; cp $v/harness/chain/chain.go $d/h/chain/
sed 's#"verif/harness/#"demo/#' $v/harness/kit/kit.go > $d/h/kit/kit.go; sed -i 's#"verif/harness/#"demo/#' $d/h/chain/*.go $d/h/mw/*.go
sed 's#^module .*#module demo#' $v/harness/go.mod > $d/h/go.mod; cp $v/harness/go.sum $d/h/
