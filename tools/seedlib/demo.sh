#!/bin/bash
# Runs the Go program beside this script against the modules of the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
for m in blueprint plugins runtime; do
  cp -a "$repo/$m" "$d/$m"
  sed -i '/tracing-framework-go/d' "$d/$m/go.mod"
done
mkdir "$d/demo"
cp "$here"/*.go "$d/demo/"
printf 'module demo\n\ngo 1.22.0\n\nrequire github.com/pkg/errors v0.9.1\n' > "$d/demo/go.mod"
cp "$repo/go.work.sum" "$d/"
printf 'go 1.22.0\n\nuse (\n\t./blueprint\n\t./plugins\n\t./runtime\n\t./demo\n)\n' > "$d/go.work"
cd "$d/demo"
export GOWORK="$d/go.work" GOFLAGS= GOTOOLCHAIN=local GOPROXY=off
go build -o "$d/demo/prog" . || exit 3
timeout 200 "$d/demo/prog"
