#!/bin/bash
# Build the extractor (checks also do this on demand).
cd "$(dirname "$0")" && exec python3 check.py --setup
