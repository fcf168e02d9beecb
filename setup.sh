#!/bin/bash
# nothing is installed; only checks that the tools the checks need are there
set -e
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
gcc --version >/dev/null
go version
