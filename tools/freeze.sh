#!/bin/bash
# freeze.sh: makes the current /repo tree the reviewed reference program (run by hand, after review)
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"; T=$(mktemp -d); "$V/dump.sh" "$T" /repo
mkdir -p "$V/reference"
(cd "$T" && tar -cJf "$V/reference/program.tar.xz" --sort=name --owner=0 --group=0 --mtime='2026-01-01' *.json)
rm -rf "$T"; ls -la "$V/reference"
