#!/bin/bash
# Warms the Go build cache: compiles every check's test binary once against /repo.
cd "$(dirname "$0")" || exit 1
exec python3 check.py --build-all
