#!/bin/bash
# mkbug.sh ID: records /repo's uncommitted change as seeded/ID/patch.diff, restores /repo, adds the demonstration helpers.
set -e
d=/verif/seeded/$1
mkdir -p "$d"
if ! git -C /repo diff --quiet; then
    git -C /repo diff > "$d/patch.diff"
    git -C /repo checkout -- .
fi
cp /verif/tools/demo/shim.c /verif/tools/demo/demolib.py /verif/tools/demo/demo.sh "$d/"
