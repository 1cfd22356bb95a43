"""Try checks on edited copies of the sources:  mut.py PLAN.py CHECK...
PLAN.py: MUTS = [(name, [(file under src/coinflip, old, new), ...]), ...]"""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MUT_REPO", "/repo")


def one(m, checks):
    name, edits = m[0], m[1]
    chk = list(m[2]) if len(m) > 2 and not checks else checks
    d = tempfile.mkdtemp(prefix="vp_mut_")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
        for f, old, new in edits:
            p = os.path.join(d, "src", "coinflip", f)
            s = open(p).read()
            if old not in s:
                return "%s: NO MATCH in %s: %r" % (name, f, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
            if p.endswith(".py"):
                compile(open(p).read(), p, "exec")
        out = []
        for c in chk:
            r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", c], env=dict(os.environ, VP_REPO=d, VP_EVIDENCE=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            keep = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
            und = [l for l in r.stdout.splitlines() if l.startswith(c + ":")]
            keep = keep[:1] + und
            last = r.stdout.strip().splitlines()[-1:] if r.returncode not in (0, 1) else []
            out.append("%s=%d %s" % (c, r.returncode, " | ".join((keep + last)[:2])[:330]))
        return "%s: %s" % (name, "; ".join(out))
    finally:
        shutil.rmtree(d)


muts = runpy.run_path(sys.argv[1])["MUTS"]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda m: one(m, sys.argv[2:]), muts):
        print(r, flush=True)
