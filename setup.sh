#!/bin/bash
# Builds the analyser offline from the committed sources.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS= CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && go build -mod=vendor -o "$here/bin/raml-check" .
