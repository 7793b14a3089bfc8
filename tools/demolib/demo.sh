#!/bin/bash
# Exits 0 if the behaviour is right, 1 if it is broken.
exec /opt/venv/bin/python -B "$(realpath "$(dirname "$0")")/demo.py"
