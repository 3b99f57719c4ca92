#!/bin/sh
# Builds the fact extractor and caches the facts of the current tree.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec python3 -m cv.facts default ndebug
