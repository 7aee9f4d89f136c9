#!/bin/bash
# Builds the IR dumper used by every check (offline; about 20 s).
set -e
cd "$(dirname "$0")"
python3 -m sa.build
