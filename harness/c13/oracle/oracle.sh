#!/bin/bash
# oracle.sh N: play N random scripts over a real gRPC connection.
v=$(cd "$(dirname "$0")/../../.." && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh
cd /repo
printf '{"Replace":{"/repo/internal/verif/sym/sym.go":"%s/sym/sym.go","/repo/internal/verif/c13/c13.go":"%s/harness/c13/c13.go","/repo/internal/verif/zz/main.go":"%s/harness/c13/oracle/main.go"}}' "$v" "$v" "$v" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/oracle" ./internal/verif/zz && "$t/oracle" "$@"
