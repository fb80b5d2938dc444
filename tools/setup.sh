#!/bin/bash
# Builds everything the checks use.
cd "$(dirname "$0")/.." && exec python3 tools/build.py
