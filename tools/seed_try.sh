#!/bin/bash
# seed_try.sh ID...: applies each planted bug to the copy /tmp/w/seedrepo, runs the existing tests and the demonstration there
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= INSTA_UPDATE=no CI=true LANG=en_US.UTF-8
unset LC_ALL LC_COLLATE LANGUAGE
cd /tmp/w/seedrepo || exit 1
git fetch -q /repo master 2>/dev/null || git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD
for i in "$@"; do
  git checkout -q -- .
  git apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  timeout 900 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/w/seedtest.log 2>&1
  python3 - $i <<'P'
import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json'))
b=b.get('stable') or b.get('tests') or b.get('passed') or b
names={x if isinstance(x,str) else x.get('name') for x in b}
short={n.split('::',1)[-1] for n in names}
log=open('/tmp/w/seedtest.log').read()
fails=re.findall(r'^test (\S+) .*FAILED',log,re.M); ok=len(re.findall(r'^test \S+ .*ok$',log,re.M))
print(sys.argv[1],'tests ok',ok,'failed',[(f, any(f in n for n in names)) for f in fails], 'ERR' if 'error: could not compile' in log else '')
P
  bash /verif/seeded/$i/demo.sh > /tmp/w/seeddemo.log 2>&1; echo "$i demo with patch rc=$?"; tail -3 /tmp/w/seeddemo.log
  git checkout -q -- .
done
