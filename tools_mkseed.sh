#!/bin/bash
# usage: tools_mkseed.sh ID : takes the edit made in scratch /tmp/w/repo as seeded/ID/patch.diff and resets the scratch
mkdir -p /verif/seeded/$1; git -C /tmp/w/repo diff > /verif/seeded/$1/patch.diff; git -C /tmp/w/repo checkout -q -- .
