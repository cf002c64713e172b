#!/bin/bash
# check.sh ID            search for violations of a property in /repo's current tree
# check.sh --replay FILE replay a recorded violation
# check.sh --build DIR   only build the simulator into DIR
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export PATH=/opt/vp/bin:/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GO111MODULE=on
export GOPATH=/opt/vp/gopath GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOWORK GODEBUG
work=$(mktemp -d /tmp/baronsim.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/w"
(cd "$here/tool" && GOFLAGS= go build -o "$work/simtool" .) || { echo "check.sh: cannot build the rewriter" >&2; exit 3; }
id=${1:-}
[ "$id" = --replay ] && id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fail() { echo "check.sh: the repository does not build under simulation" >&2; exit 3; }
rewrite() { "$work/simtool" "$repo" "$here/sim" "$work/src" || { echo "check.sh: cannot rewrite the repository for simulation" >&2; exit 3; }; }
buildcli() { (cd "$work/src" && go build -o "$work/sim" ./zz_sim/main); }
buildlib() {
  # entry points that may be called otherwise or not exist are optional
  (cd "$work/src" && { go build -tags opt_write,opt_name -o "$work/sim" ./zz_sim/mainlib 2>/dev/null ||
    go build -tags opt_write -o "$work/sim" ./zz_sim/mainlib 2>/dev/null ||
    go build -tags opt_name -o "$work/sim" ./zz_sim/mainlib 2>/dev/null ||
    go build -o "$work/sim" ./zz_sim/mainlib; })
}
# services generated by the baron of the tree, under the network simulator
buildrpc() {
  local pre="$work/pre" n=24
  [ "${VERIF_TIER:-}" = thorough ] && n=40
  (cd "$here/tool" && GOFLAGS= go build -o "$work/svcgen" ./svcgen) || { echo "check.sh: cannot build svcgen" >&2; exit 3; }
  (cd "$repo" && go build -ldflags "-X main.version=v1.2.3 -X main.date=20200101" -o "$work/baron" ./cmd/baron) || fail
  mkdir -p "$pre" && "$here/tools/mkpre.sh" "$here" "$pre" && cp "$repo/go.sum" "$pre/go.sum" || exit 3
  if [ "$mode" = --replay ]; then
    "$work/svcgen" "$pre" "$work/baron" --from "$file" || exit 3
  else
    "$work/svcgen" "$pre" "$work/baron" "${VERIF_SEED:-1}" "$n" || exit 3
  fi
  rm -rf "$work/src" && mkdir -p "$work/src"
  "$work/simtool" svc "$pre" "$here/sim" "$work/src" || { echo "check.sh: cannot rewrite the services for simulation" >&2; exit 3; }
  cp "$pre/svc.json" "$work/w/svc.json"
  (cd "$work/src" && go build -trimpath -o "$work/sim" ./zz_sim/mainrpc)
}
mode=${1:-} file=${2:-}
case "$id" in
C15 | C16 | C17 | C18 | C19 | C20 | C23 | C24 | C25) buildrpc || fail ;;
C11 | C12 | C13 | C14) rewrite; buildlib || fail ;;
--build*) rewrite; buildlib && mv "$work/sim" "$work/simlib" && buildcli || fail ;;
*) rewrite; buildcli || fail ;;
esac
case "${1:-}" in
--build-only) exit ;;
--build) mkdir -p "$2" && cp "$work/sim" "$work/simlib" "$2/"; exit ;;
--replay)
  "$work/sim" replay "$id" "$2" "$repo" "$work/w"; exit ;;
esac
mkdir -p "$here/evidence"
"$work/sim" drive "$1" "$here" "$repo" "$work/w"
