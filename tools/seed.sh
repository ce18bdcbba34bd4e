#!/bin/bash
# usage: seed.sh ID PROPERTY   (reads the edited copy in /tmp/wt, writes seeded/ID)
set -e
id=$1; prop=$2
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
test -s $d/patch.diff
