#!/bin/bash
# apply a seeded bug to /repo, run the given checks, undo it
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in "$@"; do timeout 900 python3 /verif/check.py $p | tail -3 | cut -c1-400; done
