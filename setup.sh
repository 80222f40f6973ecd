#!/bin/bash
# Builds the analyser from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
exec go build -o bin/notifysa ./cmd/notifysa
