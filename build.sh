#!/bin/bash
# Builds bin/checker unless it is up to date.
cd "$(dirname "$0")" || exit 2
mkdir -p bin
if [ -x bin/checker ] && [ -z "$(find checker -newer bin/checker -type f -print -quit)" ]; then exit 0; fi
cd checker && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/checker.$$ . && mv -f ../bin/checker.$$ ../bin/checker
