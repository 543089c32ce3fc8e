# Common to the scripts: instrument /repo into a scratch directory and build.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOCACHE=${GOCACHE:-$(go env GOCACHE)}
repo=${VERIF_REPO:-/repo}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
cleanup() { rm -rf -- "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM

build() {
	(cd "$here/instr" && go build -o "$scratch/instr" .) || { echo "cannot build the instrumenter" >&2; return 2; }
	# the instrumented module needs the simulator's runtime; the build list is the simulator's
	sed "s#=> /repo#=> $scratch/lib#" "$here/sim/go.mod" >"$scratch/go.mod" || return 2
	build_level 2 2>"$scratch/err" || build_level 1 || { cat "$scratch/err" >&2; return 2; }
}

build_level() {
	rm -rf -- "$scratch/lib"
	mkdir -p "$scratch/lib" || return 2
	"$scratch/instr" -level "$1" -src "$repo" -dst "$scratch/lib" -sites "$scratch/sites" || { echo "cannot instrument $repo" >&2; return 2; }
	(cd "$here/sim" && go build -modfile="$scratch/go.mod" -o "$scratch/vsim" ./cmd/vsim) || { echo "cannot build the simulation" >&2; return 2; }
}

build_race() {
	(cd "$here/sim" && go build -race -modfile="$scratch/go.mod" -o "$scratch/vsim-race" ./cmd/vsim) || { echo "cannot build with the race detector" >&2; return 2; }
}

needs_race() {
	case $1 in C08 | C10) return 0 ;; esac
	return 1
}
