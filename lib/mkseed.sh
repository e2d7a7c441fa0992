#!/bin/bash
# mkseed.sh ID : take /tmp/wt's diff as patch, copy stubs, verify (build, tests, demo on both trees)
set -e
ID=$1; S=/verif/seeded/$ID
mkdir -p $S
git -C /tmp/wt diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo empty patch; exit 1; }
[ -f $S/demo.cpp ] && [ ! -f $S/nostubs ] && { cp -rT /verif/lib/demostubs $S/stubs; /bin/rm -f $S/stubs/demo.sh; }
[ -f $S/demo.sh ] || cp /verif/lib/demostubs/demo.sh $S/demo.sh
chmod +x $S/demo.sh
(cd /repo && bash $S/demo.sh) && echo "clean: 0" || { echo "clean tree FAILS"; exit 1; }
if (cd /tmp/wt && bash $S/demo.sh); then echo "patched: passes, BAD"; exit 1; else echo "patched: nonzero ok"; fi
