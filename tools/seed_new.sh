#!/bin/bash
# tools/seed_new.sh ID PROP: takes the uncommitted diff of the scratch clone /tmp/w/repo as the planted bug ID
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/w/repo diff > $d/patch.diff; git -C /tmp/w/repo checkout -q -- .
[ -s $d/patch.diff ]
