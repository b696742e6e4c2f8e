#!/bin/bash
# confirm_bug.sh ID...: in a scratch copy of /repo, checks that each planted change applies, builds, passes the
# stable tests, and that its demonstration tells it from the unchanged tree.
S=/tmp/confirm_bug
mkdir -p $S
for id in "$@"; do
    D=/verif/seeded/$id
    rm -rf /tmp/confirm_bug/repo
    cp -a /repo $S/repo && cd $S/repo || exit 1
    git checkout -q -- . 
    (bash $D/demo.sh) >$S/clean.log 2>&1; clean=$?
    git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
    (bash $D/demo.sh) >$S/bug.log 2>&1; bug=$?
    echo "$id: demo clean=$clean bug=$bug"
    [ $clean = 0 ] || tail -5 $S/clean.log
    [ $bug != 0 ] && tail -2 $S/bug.log
done
rm -rf /tmp/confirm_bug/repo
