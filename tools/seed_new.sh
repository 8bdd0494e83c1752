#!/bin/bash
# seed_new.sh ID PROPERTY "needs" "what it breaks": makes /verif/seeded/ID from the current diff of /tmp/w/seedrepo and /tmp/w/main.rs
set -e
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/w/seedrepo diff > $S/patch.diff
cp /verif/tools/seedtpl/demo.sh $S/demo.sh; cp /verif/harness/Cargo.lock $S/Cargo.lock.txt; cp ${MAIN:-/tmp/w/main.rs} $S/main.rs
python3 - "$@" <<'P'
import json,sys
_,i,p,n,w=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
git -C /tmp/w/seedrepo checkout -- .
