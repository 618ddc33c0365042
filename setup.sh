#!/bin/bash
# Builds the analyser from the committed, vendored source. Offline.
cd "$(dirname "$0")" || exit 2
exec bash build.sh
