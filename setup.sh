#!/bin/sh
# Builds the harness once (warms the Go build cache when it is kept) and parses the specifications.
cd "$(dirname "$0")" || exit 3
python3 tools/setup.py
