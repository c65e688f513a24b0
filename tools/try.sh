#!/bin/bash
# try.sh <seeded id> [prop]: check against a scratch copy with the patch applied, verdict terms shown
cd "$(dirname "$0")/.."
t=$(mktemp -d /tmp/try_XXXX); cp -a /repo $t/repo
git -C $t/repo apply /verif/seeded/$1/patch.diff || exit 2
p=${2:-$(python3 -c "import json;print(json.load(open('seeded/$1/meta.json'))['property'])")}
SCAKS_ROOT=$t/repo VERIF_EVIDENCE=$t/ev VERIF_DEBUG=${D:-1} timeout 900 python3 check.py $p 2>&1
rm -rf "$t"
