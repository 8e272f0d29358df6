#!/bin/bash
# Nothing is installed; checks that the harness builds against /repo's current tree.
cd "$(dirname "$0")" || exit 1
python3 -c 'import json' && go version && python3 overlay.py "$PWD" /tmp/verif-setup.json C01 && rm -f /tmp/verif-setup.json
