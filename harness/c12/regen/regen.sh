#!/bin/bash
# regen.sh REPO OUTDIR: regenerate the routers and wrappers with the repository's generators.
# OUTDIR/overlay.json is there afterwards if some aren't as checked in. Exit 1: a generator doesn't work.
here=$(cd "$(dirname "$0")" && pwd)
repo=$1 out=$2
mkdir -p "$out"
printf '{"Replace":{"%s/internal/verif/zz_regen/main.go":"%s/main.go"}}' "$repo" "$here" > "$out/tool.json"
cd "$repo" || exit 2
go build -overlay "$out/tool.json" -o "$out/regen" ./internal/verif/zz_regen || exit 2
go build -o "$out/router" ./cmd/protoc-gen-router && go build -o "$out/wrapper" ./cmd/protoc-gen-wrapper || exit 2
"$out/regen" "$repo" "$out" "$out/router" "$out/wrapper"
