#!/bin/sh
# check.sh PROPERTY [quick|thorough]: verify the contracts of one property against /repo's current tree.
V=$(cd "$(dirname "$0")" && pwd)
export GOVER_VERIF="$V"
export GOROOT=/opt/veriftools/go1.26.10 GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off HOME="${HOME:-/root}"
export PATH="$GOROOT/bin:/opt/veriftools/bin:$PATH"
B="$V/.bin/gover"
if [ ! -x "$B" ] || [ -n "$(find "$V/gover" -newer "$B" -name '*.go' 2>/dev/null | head -1)" ]; then
  mkdir -p "$V/.bin"
  (cd "$V/gover" && go build -o "$B.$$" . && mv "$B.$$" "$B") || exit 2
fi
[ "$1" = setup ] && exit 0
exec "$B" check "$1" "${2:-quick}"
