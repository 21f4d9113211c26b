#!/bin/bash
# Build the fact extractor and warm the dependency cache (all under /verif/.cache, which git ignores).
cd "$(dirname "$0")/.." || exit 1
bash bin/extract.sh && rm -f .cache/facts/KEY
