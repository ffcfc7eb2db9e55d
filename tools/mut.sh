#!/bin/bash
# tools/mut.sh PROP FILE 'python-expression on s' : try a textual mutation of /repo's FILE, run the quick check, undo
cd /verif
f=/repo/src/komm/$2
cp "$f" /tmp/mut.orig
python3 - "$f" "$3" <<'P'
import sys
f, e = sys.argv[1:]
s = open(f).read()
t = eval(e)
assert t != s, "mutation does not apply"
open(f, "w").write(t)
P
[ $? = 0 ] && { timeout 900 python3 check.py $1 quick | tail -4 | cut -c1-400; }
cp /tmp/mut.orig "$f"; git -C /repo status --short
