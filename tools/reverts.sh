#!/bin/bash
# reverts.sh [COMMIT-GREP] ID...: undo each matching fix commit in a scratch copy and run the checks on it.
pat=$1; shift
cd /repo
for c in $(git log --format=%h --grep="^fix:" | tac); do
  msg=$(git log -1 --format=%s $c)
  [[ "$msg" =~ $pat ]] || continue
  d=$(mktemp -d /tmp/rev.XXXXXX); cp -a /repo/. $d/
  if git -C $d revert -n $c >/dev/null 2>&1; then
    r=""
    for id in "$@"; do VF_REPO=$d /verif/check.py $id >/tmp/rev.out 2>&1; r="$r $id=$?"; done
    echo "$c $msg:$r"
  else echo "$c $msg: cannot revert"; fi
  rm -rf "$d"
done
