#!/bin/bash
# Builds the symbolic engine and the native replay binary from /repo's current tree.
set -e
. /verif/env.sh
mkdir -p /verif/.build
(cd /verif/engine && go build -o /verif/.build/engine .)
(cd /verif/harness && go build -o /verif/.build/replay ./cmd/replay)
