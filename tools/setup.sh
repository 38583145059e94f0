#!/bin/bash
# Builds the harness once and runs the reference model's self-test.
set -e
cd "$(dirname "$0")/.."
exec python3 check.py --setup
