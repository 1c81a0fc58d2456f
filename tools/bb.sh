#!/bin/bash
# Development tool: the bug battery on copies of /verif and /repo. usage: bb.sh N [NAME-REGEX...]  -> /tmp/v/bbN/log
n=$1; shift
d=/tmp/v/bb$n; mkdir -p $d/work
rsync -a --delete --exclude seeded --exclude evidence --exclude out /verif/ $d/verif/ 2>/dev/null || { rm -rf $d/verif; cp -a /verif $d/verif; }
mkdir -p $d/verif/evidence $d/verif/out
[ -d $d/repo ] || cp -a /repo $d/repo
git -C $d/repo fetch -q /repo HEAD && git -C $d/repo checkout -qf FETCH_HEAD
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $d/verif/replay/Cargo.toml
cd $d/verif; rm -rf $d/verif/replay/target
BB_REPO=$d/repo BB_WORK=$d/work VP_REPO=$d/repo python3 tools/refactor.py -b "$@" > $d/log 2>&1
