#!/bin/bash
# nothing is kept between runs: every check builds what it needs.  This only
# makes sure that the toolchain and the harness build.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
cd "$V/mc"
go vet -composites=false . ./ref
go build -o /dev/null .
