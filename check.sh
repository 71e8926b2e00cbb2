#!/bin/bash
# check.sh ID [quick|thorough]   explores property ID on /repo's working tree
# check.sh replay FILE           runs the case of a replay file again
# check.sh build                 builds the harness only
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
REPO=${ZZ_REPO:-/repo}
export VERIF_DIR ZZ_REPO=$REPO
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
id=${1:?usage: check.sh ID [tier]}
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d /tmp/zzcheck.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
umask 022
chmod 711 "$tmp"
export TMPDIR=$tmp
prop=$id
[ "$id" = replay ] && prop=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
cd "$REPO" || exit 2
{
  echo '{"Replace":{'
  case $prop in C23 | C24) bash "$VERIF_DIR/inject/osfault.sh" "$tmp" ;; esac
  sep=
  for f in "$VERIF_DIR"/harness/*.go; do
    printf '%s"%s":"%s"\n' "$sep" "$REPO/internal/zzverif/$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
if [ "$prop" = C15 ]; then
  if [ "$id" = replay ]; then
    bash "$VERIF_DIR/conc.sh" "$tmp" replay "$2"
  else
    bash "$VERIF_DIR/conc.sh" "$tmp" check C15 "$tier"
  fi
  exit $?
fi
if ! go build -overlay "$tmp/overlay.json" -o "$tmp/zz" ./internal/zzverif >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log"
  echo "check.sh: the harness does not build against $REPO"
  exit 2
fi
if [ "$prop" = C24 ]; then
  if ! go build -overlay "$tmp/overlay.json" -o "$tmp/mtex-render" ./cmd/mtex-render >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log"
    echo "check.sh: the command does not build"
    exit 2
  fi
  export ZZ_CMD=$tmp/mtex-render
fi
case $id in
build) exit 0 ;;
replay) "$tmp/zz" replay "$2"; exit $? ;;
esac
"$tmp/zz" check "$id" "$tier"
exit $?
