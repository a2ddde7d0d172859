#!/bin/sh
# regenerate the patches of planted bugs that no longer apply because lines near them changed
cd "$(dirname "$0")/.."
for d in seeded/*/; do
  git -C /repo apply --check "$PWD/$d/patch.diff" 2>/dev/null && continue
  t=$(mktemp -d /tmp/rebase.XXXXXX)
  git clone -q /repo "$t/r"
  if (cd "$t/r" && patch -s -p1 --no-backup-if-mismatch < "$OLDPWD/$d/patch.diff") ; then
    git -C "$t/r" diff > "$d/patch.diff"; echo "$d rebased"
  else echo "$d FAILED"; fi
  rm -rf "$t"
done
