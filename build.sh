#!/bin/bash
# Builds the symbolic executor into /verif/bin (not committed).
set -e
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/gosym"
mkdir -p ../bin
GOSUMDB=off go build -o ../bin/gosym .
