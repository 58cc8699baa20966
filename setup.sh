#!/bin/bash
# Nothing to build: the checks import warcio from /repo's working tree, uncompiled.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo"); import warcio, six, fsspec, brotli'
