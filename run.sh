#!/bin/bash
# usage: run.sh setup | run.sh check <property> [engine flags]
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/svengine"
build() {
  # rebuild when the sources changed
  local sum
  sum=$(cd "$here/engine" && cat go.mod go.sum *.go | sha256sum | cut -d' ' -f1)
  if [ ! -x "$bin" ] || [ "$(cat "$bin.sum" 2>/dev/null)" != "$sum" ]; then
    mkdir -p "$here/bin"
    (cd "$here/engine" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o "$bin.tmp.$$" . ) || { echo "ERROR cannot build the engine"; exit 2; }
    mv "$bin.tmp.$$" "$bin" && echo "$sum" > "$bin.sum"
  fi
}
unset GOFLAGS GOWORK
case "$1" in
  setup)
    build
    echo ok
    ;;
  check)
    build
    prop="$2"; shift 2
    exec "$bin" -verif "$here" -repo "${SV_REPO:-/repo}" -prop "$prop" "$@"
    ;;
  *) echo "usage: $0 setup | check <property>"; exit 2;;
esac
