#!/bin/bash
# Nothing needs to be installed: every check builds its own harness from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .work
command -v java >/dev/null
python3 -c 'import json,sys; [json.loads(l) for l in open("properties.jsonl")]'
echo setup ok
