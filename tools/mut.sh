#!/bin/bash
# mut.sh FILE PERL-EXPR CHECK...: runs checks against a scratch copy of /repo with one file edited
f=$1; e=$2; shift 2
w=$(mktemp -d /tmp/mut.XXXXXX)
git -C /repo archive HEAD | tar -x -C $w
cp $w/$f /tmp/mut.before.$$
perl -0pi -e "$e" $w/$f
if cmp -s $w/$f /tmp/mut.before.$$; then echo "NO CHANGE by $e"; rm -rf "$w" /tmp/mut.before.$$; exit 9; fi
diff /tmp/mut.before.$$ $w/$f | grep '^[<>]' | head -${LINES_SHOWN:-6}
cd /verif
for c in "$@"; do VERIF_REPO=$w timeout 900 python3 check.py $c 2>&1 | grep -E "^VIOLATION|^--- |^C[0-9]+:|cannot build|rror" | cut -c1-${WIDTH:-260} | (head -4; tail -1); done
rm -rf "$w" /tmp/mut.before.$$
