#!/bin/bash
# run.sh ID [checker flags]: decide one property on /repo's current source.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export PATH="$PATH:/usr/local/go/bin"
unset GOFLAGS GOWORK
export GOTOOLCHAIN=local GOPROXY=off
bin="$here/.bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -not -path '*/vendor/*' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$here/.bin"
	(cd "$here/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "checker does not build" >&2; exit 2; }
fi
exec "$bin" "$@"
