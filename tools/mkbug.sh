#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "breaks" < python edits of a scratch copy (cwd = copy; function rep(file, old, new))
set -e
d=/verif/seeded/$1; mkdir -p $d
t=$(mktemp -d); cd $t; git -C /repo archive HEAD | tar x; git init -q .; git add -A; git -c user.name=x -c user.email=x commit -qm x
{ cat <<'P'
def rep(f, a, b, n=1):
    s = open(f).read()
    assert s.count(a) == n, (f, a, s.count(a))
    open(f, "w").write(s.replace(a, b))
P
cat; } | python3 -
git diff > $d/patch.diff; cat $d/patch.diff
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /; rm -rf "$t"
