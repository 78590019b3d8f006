#!/bin/bash
# developer helper: run.sh UNIT[:TAGS] [verus args]
u=$1; shift
n=$(basename ${u%%:*})
mkdir -p /tmp/vxo
/verif/build/vx/release/vx ${VXREPO:-/repo} /verif/units/${u%%:*}.vspec${u/#${u%%:*}/} /tmp/vxo/$n.rs /tmp/vxo/$n.json || exit 2
python3 - <<P
import json
m=json.load(open('/tmp/vxo/$n.json'))
print('lost',m['lost'],'errors',m['errors'],'inlined',m['inlined'])
P
verus /tmp/vxo/$n.rs --triggers-mode silent "$@"
