#!/bin/bash
# builds the driver and dumps the program once, so that later runs find warm caches
cd "$(dirname "$0")" && T=$(mktemp -d) && ./dump.sh "$T" /repo; rc=$?; rm -rf "$T"; exit $rc
