# shared by check.sh, replay.sh, selftest.sh, setup.sh: build the simulator
# from the current working tree of the repository into a scratch directory.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOTELEMETRY=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXXXX")" || exit 3
cleanup() {
  case "$SCRATCH" in
    */verifsim.*) rm -rf -- "$SCRATCH" ;;
  esac
}
trap cleanup EXIT

build_sim() {
  (cd "$VERIF/tools/instr" && go build -o "$SCRATCH/instr" .) || { echo "CHECK-ERROR: cannot build the instrumenter"; exit 3; }
  (cd "$REPO" && "$SCRATCH/instr" -repo "$REPO" -out "$SCRATCH" -sim "$VERIF/sim" -hook "$VERIF/hook") ||
    { echo "CHECK-ERROR: instrumentation failed"; exit 3; }
  (cd "$REPO" && go build -mod=readonly -buildvcs=false -modfile="$SCRATCH/go.mod" -overlay "$SCRATCH/overlay.json" \
      -o "$SCRATCH/vsim" ./verifsim) || { echo "CHECK-ERROR: cannot build the simulator"; exit 3; }
}
