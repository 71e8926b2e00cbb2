#!/bin/bash
# conc.sh TMP ARGS...: builds the harness with the instrumented packages and the
# race detector, and runs it with ARGS. Called by check.sh.
set -u
tmp=$1
shift
here=$(cd "$(dirname "$0")" && pwd)
cd "$ZZ_REPO" || exit 2
mkdir "$tmp/instr" || exit 2
{
  echo '{"Replace":{'
  go run "$here/inject/instr/main.go" "$ZZ_REPO" github.com/go-latex/latex "$tmp/instr" || echo FAILED
  for p in zzsched zzsync; do
    echo "\"$ZZ_REPO/internal/$p/$p.go\":\"$here/inject/$p/$p.go\","
  done
  sep=
  for f in "$here"/harness/*.go "$here"/conc/*.go; do
    printf '%s"%s":"%s"\n' "$sep" "$ZZ_REPO/internal/zzverif/$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$tmp/conc.json" 2> "$tmp/instr.log"
if ! go build -race -overlay "$tmp/conc.json" -o "$tmp/zzconc" ./internal/zzverif > "$tmp/build.log" 2>&1; then
  cat "$tmp/instr.log" "$tmp/build.log"
  echo "conc.sh: the instrumented harness does not build"
  exit 2
fi
export GORACE="exitcode=0 atexit_sleep_ms=0"
exec "$tmp/zzconc" "$@"
