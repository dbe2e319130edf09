#!/bin/bash
# Warms the build cache; every check builds what it needs by itself as well.
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 1
go build -o /dev/null ./cmd/mon && go build -o /dev/null ./cmd/mondep && go build -race -o /dev/null ./cmd/mon
