#!/bin/bash
# Builds the checker from the committed (vendored) sources, offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
unset GOFLAGS GOWORK
export GOTOOLCHAIN=local GOPROXY=off
mkdir -p "$here/.bin" "$here/evidence"
(cd "$here/checker" && go build -o "$here/.bin/checker" .)
# warm the build cache for the export data the type checker needs
"$here/.bin/checker" C29 >/dev/null || true
