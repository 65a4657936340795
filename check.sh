#!/bin/bash
# check.sh <property> <quick|thorough> [flags of the check binary]
# Builds the check from /repo's working tree and runs it. Exit 0: held; 1: VIOLATION; 2: error.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
unset GODEBUG
prop=$1 tier=$2
shift 2
bin=$(mktemp -d "${TMPDIR:-/tmp}/vhbin.XXXXXX") || exit 2
pid=
trap '[ -n "$pid" ] && kill $pid 2>/dev/null; rm -rf "$bin"' EXIT
trap 'exit 2' INT TERM
cd "$here/harness" || exit 2

build() { # <cmd> [go build flags]
	local c=$1
	shift
	go build "$@" -o "$bin/check" "./cmd/$c" >"$bin/log" 2>&1
}

race=
[ "$prop" = C11 ] && race=-race
case $prop in
C01 | C02 | C05 | C06 | C09 | C10)
	build e2e || { cat "$bin/log" >&2; exit 2; }
	;;
C03 | C04 | C07 | C08 | C11)
	# Without the engines that look inside, should the insides have other names now.
	printf '{"Replace":{"/repo/zz_verif_export.go":"%s"}}' "$here/harness/overlay/export.go.txt" >"$bin/ov.json"
	build tree $race -overlay "$bin/ov.json" || build e2e $race || { cat "$bin/log" >&2; exit 2; }
	;;
C12 | C13 | C14)
	printf '{"Replace":{"/repo/zz_verif_export.go":"%s"}}' "$here/harness/overlay/export.go.txt" >"$bin/ov.json"
	build tree -overlay "$bin/ov.json" || { cat "$bin/log" >&2; exit 2; }
	;;
C15 | C16 | C17)
	mkdir "$bin/plat" && go run ./cmd/mkplat /repo "$here/harness" "$bin/plat" "$bin/ov.json" "/repo/zz_verif_export.go=$here/harness/overlay/export.go.txt" >"$bin/log" 2>&1 || { cat "$bin/log" >&2; exit 2; }
	build plat -tags "${prop,}" -overlay "$bin/ov.json" || { cat "$bin/log" >&2; exit 2; }
	;;
*)
	echo "no check for $prop" >&2
	exit 2
	;;
esac
"$bin/check" -prop "$prop" -tier "$tier" -verif "$here" "$@" &
pid=$!
wait $pid
rc=$?
pid=
exit $rc
