#!/bin/bash
# build the extractor (checks rebuild it themselves when it is missing)
here=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d); bash "$here/lib/extract.sh" /repo "$tmp"; rc=$?; rm -rf "$tmp"; exit $rc
