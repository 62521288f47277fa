#!/bin/bash
# exit 0: the property held in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
pkg=$(cat "$here/pkg")
{ echo '{"Replace":{'; sep=
  for f in "$PWD/$pkg"/*_test.go; do [ -e "$f" ] && { echo "$sep\"$f\": \"\""; sep=,; }; done
  for f in "$here"/*_test.go; do echo "$sep\"$PWD/$pkg/zz_$(basename "$f")\": \"$f\""; sep=,; done; echo '}}'; } > "$d/overlay.json"
cp /opt/vp/mod/zrep.mod "$d/go.mod"; cp /opt/vp/mod/zrep.sum "$d/go.sum"
export GOFLAGS="-mod=mod -modfile=$d/go.mod" TMPDIR="$d" DEMO_DIR="$d" DEMO_REPO="$PWD"
go test -c -o "$d/demo.test" -overlay "$d/overlay.json" -vet=off -tags verif $(cat "$here/flags" 2>/dev/null) "./$pkg" > "$d/out" 2>&1 || { tail -40 "$d/out"; exit 3; }
cd "$d" || exit 3
timeout 250 ./demo.test -test.run '^TestDemo' -test.v > "$d/out" 2>&1
rc=$?
grep -av '^\[debug\]' "$d/out" | tail -40
exit $rc
