# sourced: the Go toolchain, offline, with a build cache inside /verif/.build
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${REPO:-/repo}
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
export GOCACHE=$VERIF/.build/cache GOTMPDIR=$VERIF/.build/tmp
export PATH=$GOROOT/bin:$PATH
unset GOOS GOARCH GODEBUG GOEXPERIMENT GOGC GOMEMLIMIT
mkdir -p "$VERIF/.build/cache" "$VERIF/.build/tmp"

# build [race]: compiles the simulator together with the working tree of /repo,
# and with "race" also the one that follows memory accesses
build() (
	exec 9>"$VERIF/.build/lock"
	flock 9
	rm -rf "$VERIF/.build/yield"
	python3 "$VERIF/tools/mkoverlay.py" "$VERIF/.build" "$REPO" "$GOROOT" "$VERIF/sim" || exit 2
	if [ -d "$VERIF/tools/mkyield" ]; then
		(cd "$VERIF/tools/mkyield" && GOFLAGS= go build -o "$VERIF/.build/mkyield" .) || exit 2
		"$VERIF/.build/mkyield" "$REPO" "$VERIF/.build/yield" || exit 2
		python3 "$VERIF/tools/mkoverlay.py" "$VERIF/.build" "$REPO" "$GOROOT" "$VERIF/sim" || exit 2
	fi
	cd "$REPO" && go build -overlay "$VERIF/.build/overlay.json" -o "$VERIF/.build/simcheck.new" ./zz_verif/cmd/simcheck || exit 2
	mv "$VERIF/.build/simcheck.new" "$VERIF/.build/simcheck"
	rm -f "$VERIF/.build/simcheck-race"
	if [ "$1" = race ]; then
		GOEXPERIMENT=nosizespecializedmalloc CGO_ENABLED=1 CC=gcc go build -race -gcflags='github.com/steve-care-software/rodkina/zz_verif/...=-race=0' -overlay "$VERIF/.build/overlay.json" -o "$VERIF/.build/simcheck-race.new" ./zz_verif/cmd/simcheck &&
			mv "$VERIF/.build/simcheck-race.new" "$VERIF/.build/simcheck-race" ||
			echo "the simulator that follows memory accesses cannot be built; the search goes on without it" >&2
	fi
)
