#!/bin/bash
# dev/ps.sh SEED CHECK: details of one planted bug; keeps /tmp/one
rm -rf /tmp/one; mkdir -p /tmp/one/build; cp -r /repo/include /tmp/one/; (cd /tmp/one; patch -s -p1 < /verif/seeded/$1/patch.diff)
for f in /verif/build/irx-*; do ln -s $f /tmp/one/build/; done
VP_REPO=/tmp/one VP_BUILD=/tmp/one/build VP_EVIDENCE=/tmp/one python3 /verif/check.py $2
grep -E '^(undecided|refuted)' /tmp/one/$2.report.txt | cut -c1-600 | head -${3:-12}
