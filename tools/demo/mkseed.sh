#!/bin/bash
# mkseed.sh ID PROPERTY: (re)package /verif/seeded/ID from demo.cpp + the diff of scratch tree /tmp/wt; confirm it there
set -e
S=/verif/seeded/$1; W=${W:-/tmp/wt}
mkdir -p "$S"
[ -n "$(git -C $W diff)" ] && git -C $W diff > $S/patch.diff
if [ ! -f $S/custom ]; then
cp /verif/tools/demo/demo.sh $S/demo.sh
tar czf $S/support.tgz --owner=0 --group=0 --mtime=2026-01-01 -C /verif shim -C /verif/harness vsched common
if [ ! -f $S/sources.txt ]; then
  g++ -std=c++17 -O0 -w -I/verif/harness/vsched -I/verif/shim -I/repo -include prelude.h -c $S/demo.cpp -o /tmp/demo_$1.o
  ( cd /tmp; g++ -o /tmp/mk_demo /tmp/demo_$1.o /tmp/vs.o /tmp/stubs.o /tmp/libscore.a -lpthread -Wl,-Map=/tmp/mk.map ) || exit 1
  grep -oE "libscore.a\([^)]*\)" /tmp/mk.map | sort -u | sed 's/.*(\(.*\)\.o)/\1/' > /tmp/mk.x
  python3 -c "
m={l.strip().replace('/','_'):l.strip() for l in open('/tmp/all.txt')}
open('$S/sources.txt','w').write('\n'.join(sorted(m[l.strip()] for l in open('/tmp/mk.x')))+'\n')"
fi
fi
git -C $W checkout -q -- .
echo "--- unchanged:"; (cd $W && bash $S/demo.sh) ; echo "rc=$?"
git -C $W apply $S/patch.diff
echo "--- changed:"; set +e; (cd $W && bash $S/demo.sh); echo "rc=$?"
git -C $W checkout -q -- .
