#!/bin/bash
# Generates specs/$1.yaml into .build/dev/src/gen/$1 with /repo's generator (extra flags: $2...).
set -e
. /verif/tools/env.sh
s=$1; shift
mkdir -p /verif/.build/dev/src/gen/$s
cd /repo && go build -o /verif/.build/dev/codegen ./cmd/asyncapi-codegen
/verif/.build/dev/codegen -i /verif/specs/$s.yaml -p $s -o /verif/.build/dev/src/gen/$s/$s.gen.go "$@"
