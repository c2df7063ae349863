#!/bin/bash
# trybug.sh ID...: demonstration without and with the patch, existing tests with the patch, in a scratch copy of /repo.
for id in "$@"; do
    d=/verif/seeded/$id
    w=$(mktemp -d /tmp/trybug.XXXXXX)
    python3 -c "import json,sys; m=json.load(open('$d/meta.json')); assert set(m)=={'property','needs','what_it_breaks'}" || echo "$id: meta.json"
    git -C /repo apply --check "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && bash "$d/demo.sh") > "$w/o0" 2>&1; a=$?
    git -C /repo apply "$d/patch.diff"
    bash /opt/vp/build.sh > "$w/build" 2>&1; c=$?
    bash /opt/vp/test.sh "$w/t.json" > "$w/t" 2>&1
    (cd /repo && bash "$d/demo.sh") > "$w/o1" 2>&1; b=$?
    git -C /repo checkout -- .
    echo "$id: unpatched=$a build=$c patched=$b $(tail -1 "$w/t")  | $(tail -1 "$w/o0") | $(tail -1 "$w/o1")"
    rm -rf "$w"
done
bash /opt/vp/build.sh >/dev/null 2>&1
