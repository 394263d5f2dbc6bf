#!/bin/bash
# run.sh check ID    rebuild the monitors from /repo's working tree and run the check of one property
# run.sh replay FILE run one reported case again
# MON_REPO=DIR uses another tree of the library (development only).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
cmd=${1:?}; arg=${2:?}
tmp=$(mktemp -d /tmp/monrun.XXXXXX) || exit 3
trap 'rm -r -f "$tmp"' EXIT
cd "$here/mon" || exit 3
cp go.mod "$tmp/go.mod" && cp go.sum "$tmp/go.sum" || exit 3
if [ -n "${MON_REPO:-}" ]; then
	sed -i "s#=> /repo#=> $MON_REPO#" "$tmp/go.mod"
fi
id=$arg
if [ "$cmd" = replay ]; then
	id=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$arg" | head -1)
fi
race=
case " $(cat "$here/mon/race.ids") " in *" $id "*) race=-race; export CGO_ENABLED=1 ;; esac
if ! go build $race -modfile="$tmp/go.mod" -o "$tmp/mon" . >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "run.sh: build failed" >&2
	exit 3
fi
MON_VERIF=$here "$tmp/mon" "$cmd" "$arg"
