# Sourced: builds the simulated engine (worker) and the orchestrator (vsim) from the current working tree of the repository.
# Sets V (this folder), R (the repository) and B (the build folder).
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
export VERIF_ROOT=$V VERIF_BUILD=$B VERIF_REPO=$R
export GOFLAGS= GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GODEBUG=
unset GOMAXPROCS
mkdir -p "$B" || exit 2
exec 9>"$B/lock"
flock 9
vbuild() {
	printf 'go 1.23\n\nuse (\n\t%s\n\t%s/activity/subflow\n\t%s/sim\n)\n' "$R" "$R" "$V" > "$B/go.work.new"
	export GOWORK=$B/go.work
	cp "$B/go.work.new" "$B/go.work"
	cd "$V/sim" || return 1
	local core
	core=$(go list -m -f '{{.Dir}}' github.com/project-flogo/core) || return 1
	go build -o "$B/ovgen" ./cmd/ovgen && go build -o "$B/vsim" ./cmd/vsim || return 1
	"$B/ovgen" core "$core" "$B/core" || return 1
	printf '\nreplace github.com/project-flogo/core => %s\n' "$B/core" >> "$B/go.work"
	"$B/ovgen" "$B/ov" "$R" > "$B/ov.log" || return 1
	go build -overlay "$B/ov/overlay.json" -o "$B/worker" ./cmd/worker || return 1
}
( vbuild ) || { echo "ERROR: the simulated engine does not build" >&2; exit 2; }
