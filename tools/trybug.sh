#!/bin/bash
# trybug.sh ID [PROP]: runs a property's check against a scratch copy of /repo with a planted bug applied
set -e
d=/verif/seeded/$1; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/tryXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; git -C "$w/repo" apply "$d/patch.diff"
cp -a /verif "$w/verif"; rm -rf "$w/verif/evidence"
cd "$w/verif" && VERIF_REPO="$w/repo" python3-vt engine/check.py "$prop" ${V:+-v}; echo "exit $?"
