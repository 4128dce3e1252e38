#!/bin/bash
# Builds every harness program once from the committed files (fills the build cache).
cd "$(dirname "$0")" || exit 1
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))' || exit 1
exec python3 check.py --setup
