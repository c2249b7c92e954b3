#!/bin/bash
# runbug.sh BUG [PROP]: run the property's quick check with the planted bug applied (private mount namespace)
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/runbug.XXXX)
cp -a /repo $t/r && git -C $t/r apply $d/patch.diff || { rm -rf $t; exit 3; }
unshare -Urm bash -c "mount --bind $t/r /repo && cd $root && VERIF_STRICT=1 ./check $p quick" | tail -${LINES_OUT:-4}
rm -rf $t
