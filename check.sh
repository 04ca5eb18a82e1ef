#!/bin/bash
# check.sh PROPERTY [-runs N] [-soft SECONDS]  build from /repo's working tree and check the property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE         build and replay a violation
# check.sh setup                warm the build cache
# check.sh build DIR [TAG]     build the harness into DIR
# check.sh selftest PROPERTY N determinism test
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="${GOFLAGS:-} -mod=mod" GOPROXY=off GOTOOLCHAIN=local
fail() { echo "ERROR: $*" >&2; exit 3; }

build() { # DIR TAG
	local dir=$1 tag=$2 lvl
	cp "$repo/go.mod" "$repo/go.sum" "$dir/" || return 1
	if [ ! -x "$here/.build/simgen" ] || [ -n "$(find "$here/simgen" -newer "$here/.build/simgen" -name '*.go')" ]; then
		(cd "$here/simgen" && GOFLAGS=-mod=mod go build -o "$dir/simgen" .) || return 1
		cp "$dir/simgen" "$here/.build/simgen.$$" && mv "$here/.build/simgen.$$" "$here/.build/simgen"
	fi
	for lvl in 3 2 1; do
		"$here/.build/simgen" -repo "$repo" -out "$dir" -sim "$here/zzsim" -sync "$here/zzsync" -fr "$here/zzfr" -harness "$here/harness" \
			-modfile "$dir/go.mod" -level $lvl >"$dir/simgen.log" 2>&1 || { cat "$dir/simgen.log" >&2; continue; }
		if (cd "$repo" && go build -tags "$tag" -overlay "$dir/overlay.json" -modfile "$dir/go.mod" -o "$dir/harness" gkr-mimc/zzverif/harness) >"$dir/build.log" 2>&1; then
			level=$lvl
			return 0
		fi
		head -30 "$dir/build.log" >&2
	done
	return 1
}

mkdir -p "$here/.build"
case "${1:-}" in
build)
	mkdir -p "$2"
	build "$2" "${3:-p_all}" || fail "build"
	exit 0
	;;
setup) # warms the build cache
	dir=$(mktemp -d "$here/.build/b-setup-XXXXXX") || fail "mktemp"
	trap 'rm -rf "$dir"' EXIT
	build "$dir" p_all || fail "the code does not build with the simulator"
	exit 0
	;;
replay)
	prop=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
	;;
selftest)
	prop=$2
	;;
*)
	prop=${1:?property}
	;;
esac
dir=$(mktemp -d "$here/.build/b-$prop-XXXXXX") || fail "mktemp"
trap 'rm -rf "$dir"' EXIT
tag="p_$(echo "$prop" | tr A-Z a-z)"
build "$dir" "$tag" || fail "the code does not build with the simulator"
case "$1" in
replay)
	"$dir/harness" replay -known "$here/known-findings.txt" "$2"
	;;
selftest)
	"$dir/harness" selftest -prop "$prop" -seed "${VERIF_SEED:-1}" -n "${3:-20}" -known "$here/known-findings.txt" ${4:-}
	;;
*)
	"$dir/harness" check -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" -level "$level" "${@:2}"
	;;
esac
exit $?
