#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and runs the check.
# check.sh build: only builds.  check.sh replay FILE: replays a recorded violation.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$d/go" ] && { export PATH="$d:$PATH"; break; }
done
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin="$here/.build"
mkdir -p "$bin" || exit 3
export TERMSIM_DIR="$bin"
build() {
	(
		flock 9 || exit 3
		cd "$here/sim" || exit 3
		go build -tags verif -o "$bin/termsim" . || exit 3
		if [ "$1" = race ]; then
			go build -race -tags verif -gcflags='termsim=-race=false -l' -o "$bin/termsim-race" . || exit 3
		fi
	) 9>"$bin/lock"
}
case "$1" in
build)
	build race || { echo "error: the simulator does not build" >&2; exit 3; }
	;;
replay)
	build race || exit 3
	exec "$bin/termsim" replay "$2"
	;;
C*)
	what=
	[ "$1" = C15 ] && what=race
	build $what || { echo "error: the simulator does not build" >&2; exit 3; }
	exec "$bin/termsim" check "$1" "$here"
	;;
*)
	exec "$bin/termsim" "$@"
	;;
esac
