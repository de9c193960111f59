#!/bin/bash
# trial.sh SEED PROPS... : apply to /repo, run checks, undo
cd /verif; S=$1; shift
git -C /repo apply /verif/seeded/$S/patch.diff || exit 9
for p in "$@"; do bin/check $p ${ARGS} > /tmp/trial.$S.$p 2>&1; echo "$S $p exit=$? $(grep -m1 VIOLATION /tmp/trial.$S.$p)"; done
git -C /repo checkout -q -- .
