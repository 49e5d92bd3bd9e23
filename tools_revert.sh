#!/bin/bash
# usage: tools_revert.sh COMMIT CHECK... : run checks with a fix commit reverted (scratch only)
c=$1; shift
git -C /repo show $c -- gpkit | git -C /repo apply -R || exit 9
for p in "$@"; do timeout 900 python3 /verif/check.py $p | grep -v "^  " | cut -c1-250 | head -12; done
git -C /repo checkout -q -- .
