#!/bin/bash
# check.sh ID: decides property ID on /repo's current source.
cd "$(dirname "$0")" || exit 2
bash build.sh >&2 || exit 2
mkdir -p evidence
exec ./bin/checker -repo /repo -verif "$PWD" -property "$1"
