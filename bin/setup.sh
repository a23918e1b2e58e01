#!/bin/bash
# Builds the orchestrator once; the checks build what they need themselves.
VERIF=$(cd "$(dirname "$0")/.." && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local
cd "$VERIF/mc" && GOFLAGS=-mod=readonly go build -o /dev/null ./cmd/run
