#!/bin/bash
# every check on the current tree, one line each
cd "$(dirname "$0")/.."
ls cemlint/props | grep '^c[0-9]' | sed 's/.py//' | tr c C | xargs -P 8 -I{} sh -c 'python3 check.py {} --no-evidence | cut -c1-${W:-200} | head -4'
