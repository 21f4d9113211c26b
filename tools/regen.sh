#!/bin/bash
# development aid: rewrite every specification from the current tree (to be followed by a review of `git diff lib/rules`)
cd "$(dirname "$0")/.." || exit 1
bash bin/extract.sh >/dev/null || exit 1
python3 tools/base.py 2>&1 | sed -n 1p
grep -l "make(\|SPECS" lib/rules/c??.py | sed 's/.*c\(..\).py/C\1/' | xargs -P 8 -I{} sh -c 'python3 tools/spec.py {} --write 2>&1 | tail -1 | sed "s/^/{} /"'
grep -h "too many" lib/rules/*.spec
