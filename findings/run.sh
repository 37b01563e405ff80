#!/bin/bash
# usage: run.sh [repo] [go test flags...]   runs the defect demonstrations against a tree
. /opt/vp/env.sh
H=$(cd "$(dirname "$0")" && pwd); R=${1:-/repo}; shift
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
{ echo '{"Replace":{'; s=
for p in dataframe preprocessing algorithms utils; do
  [ -f "$H/${p}_findings_test.go" ] && { printf '%s"%s":"%s"\n' "$s" "$R/$p/zz_findings_test.go" "$H/${p}_findings_test.go"; s=,; }
done; echo '}}'; } > $T/o.json
cd $R && go test -vet=off -overlay $T/o.json -run 'TestF[0-9]' "$@" ./dataframe ./preprocessing ./algorithms
