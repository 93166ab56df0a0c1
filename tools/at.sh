#!/bin/bash
# tools/at.sh REV|PATCH PROP [count]: the check's batch against another revision, or /repo with a patch
rm -rf /tmp/at_wt; git -C /repo worktree prune; 
if [ -f "$1" ]; then git -C /repo worktree add -q --detach /tmp/at_wt HEAD && git -C /tmp/at_wt apply "$1" || exit 2
else git -C /repo worktree add -q --detach /tmp/at_wt "$1" || exit 2; fi
export F2C_REPO=/tmp/at_wt F2C_BUILD=/tmp/at_build
python3 /verif/build.py $2 && /verif/tools/found.sh $2 ${3:-400} 0 ${4:-100}
git -C /repo worktree remove --force /tmp/at_wt
