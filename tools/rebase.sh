#!/bin/bash
# rebase.sh OLD ID...: makes seeded patches that applied to the commit OLD of
# /repo apply to its HEAD.
old=$1; shift
for id in "$@"; do
  t=$(mktemp -d)
  git clone -q /repo "$t/r" && cd "$t/r" && git checkout -q "$old" && git apply "/verif/seeded/$id/patch.diff" &&
    git -c user.name=v -c user.email=v@v commit -qam x && c=$(git rev-parse HEAD) && git checkout -q - 2>/dev/null
  git checkout -q "$(git -C /repo rev-parse HEAD)" && git -c user.name=v -c user.email=v@v cherry-pick "$c" >/dev/null && git diff HEAD~1 > "/verif/seeded/$id/patch.diff" && echo "$id ok" || echo "$id conflict"
  cd /; rm -rf "$t"
done
