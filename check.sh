#!/bin/bash
# check.sh PROPERTY: builds the analyser from the committed sources and decides the property on /repo's current tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS= CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/checker" && go build -mod=vendor -o "$here/bin/raml-check" .) 2>"$here/evidence/build.log"; then
  cat "$here/evidence/build.log"
  echo "VIOLATION property=$1 replay=$here/evidence/build.log"
  exit 1
fi
exec "$here/bin/raml-check" -repo "${RAML_REPO:-/repo}" -verif "$here" -property "$1"
