"""Helper for writing planted bugs: makes seeded/<id>/patch.diff from text replacements in /repo (which is left clean)."""
import json, os, subprocess
DEMO = '''#!/bin/bash
# Builds demo.c against the library and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
gcc -O1 -g -I/repo/include "$here/demo.c" /repo/_build/lib/libalephzero.a -o "$dir/demo" -lpthread -ldl -lstdc++ -lm || exit 2
cd "$dir" && A0_ROOT="$dir" timeout 100 ./demo
'''
def seed(id, prop, needs, breaks, *edits, demo=None):
    for f, a, b in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a))
        open(p, "w").write(s.replace(a, b))
    d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    dd = "/verif/seeded/" + id
    os.makedirs(dd, exist_ok=True)
    open(dd + "/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dd + "/meta.json", "w"), indent=1)
    if not os.path.exists(dd + "/demo.sh"): open(dd + "/demo.sh", "w").write(DEMO)
    if demo: open(dd + "/demo.c", "w").write(demo)
