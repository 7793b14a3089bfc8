#!/bin/bash
# Checks build their native helpers into their own scratch directories; this
# only proves early that the tools they need are there.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
gcc -O1 -w -shared -fPIC -o "$t/libvf.so" vf/native/shim.c -ldl
gcc -O1 -w -o "$t/zrun" vf/native/zrun.c
/opt/venv/bin/python -B -c 'import aiohttp, lzo, mmh3, structlog, yaml'
rm -rf "$t"
