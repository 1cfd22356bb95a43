"""Write /verif/seeded/<id>/ from a plan file: plant.py PLAN.py (a list BUGS of dicts id, property, edits [(file, old, new)], needs, breaks, demo)."""
import difflib
import json
import os
import sys

REPO = "/repo/"


def write(b):
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = {}
    for f, old, new in b["edits"]:
        if not f.startswith("src/"):
            f = "src/coinflip/" + f
        s = files.setdefault(f, [open(REPO + f).read()] * 2)
        assert s[1].count(old) == 1, (b["id"], f, s[1].count(old), old)
        files[f] = [s[0], s[1].replace(old, new)]
    for f, (a, z) in files.items():
        patch += "diff --git a/%s b/%s\n" % (f, f)
        for l in difflib.unified_diff(a.splitlines(True), z.splitlines(True), "a/" + f, "b/" + f):
            patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)


ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    write(b)
    print(b["id"])
