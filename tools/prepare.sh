# Sourced by run.sh: builds /repo's binary and the harness into /verif/build.
set -e
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
R=${FIZZ_REPO:-/repo}
B=${VERIF_BUILD:-$V/build}
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
put() { cmp -s "$1" "$2" || cp "$1" "$2"; }
prepare() {
  mkdir -p "$B/bin" "$B/fizz/proto"
  local t; t=$(mktemp -d)
  { cat "$R/go.mod"; printf '\nrequire fizz v0.0.0\nreplace fizz => %s/fizz\n' "$B"; } > "$t/m"
  printf 'module fizz\n\ngo 1.22.4\n\n%s\n' \
    "$(grep -oE 'google.golang.org/protobuf v[^ ]+' "$R/go.mod" | head -1 | sed 's/^/require /')" > "$t/fm"
  put "$t/m" "$B/repo.mod"; put "$R/go.sum" "$B/repo.sum"; put "$t/fm" "$B/fizz/go.mod"
  ( cd "$R" && go build -modfile="$B/repo.mod" -o "$B/bin/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go )
  mkdir "$t/out"
  protoc -I "$R/proto" --plugin="$B/bin/protoc-gen-go" --go_out="$t/out" "$R"/proto/*.proto
  for f in "$t"/out/fizz/proto/*.go; do put "$f" "$B/fizz/proto/${f##*/}"; done
  for f in "$B"/fizz/proto/*.go; do [ -e "$t/out/fizz/proto/${f##*/}" ] || rm -f "$f"; done
  # module file of the harness: the requirements of /repo plus /repo itself
  { printf 'module verif\n\ngo 1.22.4\n\n'
    sed -n '/^require/,$p' "$R/go.mod"
    printf '\nrequire fizz v0.0.0\nreplace fizz => %s/fizz\nrequire github.com/fizzbee-io/fizzbee v0.0.0\nreplace github.com/fizzbee-io/fizzbee => %s\n' "$B" "$R"
  } > "$t/h"
  put "$t/h" "$B/harness.mod"; put "$R/go.sum" "$B/harness.sum"
  ( cd "$R" && go build -modfile="$B/repo.mod" -o "$B/bin/fizzbee" . )
  ( cd "$V/harness" && go build -modfile="$B/harness.mod" -o "$B/bin/vfz" ./cmd/vfz )
  if [ -n "$MBT" ]; then
    # the client library is a module of its own
    local m=$R/mbt/lib/go
    { printf 'module verifmbt\n\ngo 1.23.0\n\n'
      sed -n '/^require/,$p' "$m/go.mod"
      printf '\nrequire verif v0.0.0\nreplace verif => %s/harness\nrequire github.com/fizzbee-io/fizzbee/mbt/lib/go v0.0.0\nreplace github.com/fizzbee-io/fizzbee/mbt/lib/go => %s\n' "$V" "$m"
    } > "$t/mbt"
    put "$t/mbt" "$B/mbt.mod"; put "$m/go.sum" "$B/mbt.sum"
    ( cd "$V/harness/mbt" && go build -modfile="$B/mbt.mod" -o "$B/bin/vfzmbt" . )
  fi
  if [ -n "$MAPRT" ]; then
    local g; g=$(go env GOROOT)
    awk -f "$V/tools/maprt.awk" "$g/src/runtime/map.go" > "$t/map.go"
    put "$t/map.go" "$B/map.go"
    printf '{"Replace":{"%s/src/runtime/map.go":"%s/map.go","%s/verif_maprt.go":"%s/tools/maprt_main.go.txt"}}\n' "$g" "$B" "$R" "$V" > "$B/maprt.json"
    ( cd "$R" && go build -tags maprt -ldflags=-checklinkname=0 -overlay "$B/maprt.json" -modfile="$B/repo.mod" -o "$B/bin/fizzbeemap" . )
    ( cd "$V/harness" && go build -tags maprt -ldflags=-checklinkname=0 -overlay "$B/maprt.json" -modfile="$B/harness.mod" -o "$B/bin/vfzmap" ./cmd/vfz )
  fi
  rm -rf "$t"
}
