"""Analyses in parallel: every job is a forked process, and so is every case of it.

A job is a function of a list of conditions; it returns JSON records, or asks
for a case distinction (`Split`), on which the process forks: one side goes on
under the condition, the other under its negation.
"""
import faulthandler
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import terms as t
from .interp import Split

MAXDEPTH = 14


class Late(BaseException):
    pass


class Runner:
    def __init__(self, width=8, deadline=560):
        self.sem = multiprocessing.Semaphore(width)
        self.dir = tempfile.mkdtemp(prefix="vp_sa_")
        self.end = time.time() + deadline
        self.pids = []
        self.keys = {}
        self.main = os.getpid()

    def submit(self, key, fn):
        """fn(conds) -> list of dicts"""
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            self.pids.append(pid)
            self.keys[key] = 1
            return
        self.child(key, fn, [], "0")

    def child(self, key, fn, conds, path):
        kids = []
        base = os.path.join(self.dir, "%s~%s" % (key.replace("/", "_"), path))
        code = 0
        self.sem.acquire()
        held = True
        try:
            left = self.end - time.time()
            if left <= 1:
                raise Late()

            def alarm(*a):
                raise Late()

            signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, left)
            t0 = time.time()
            open(base + ".start", "w").close()
            n = 0
            while True:
                try:
                    recs = fn(conds)
                    break
                except Split as e:
                    if len(conds) >= MAXDEPTH:
                        recs = [dict(name="*", verdict="undecided", detail="too many cases")]
                        break
                    pid = os.fork()
                    if pid == 0:
                        conds = conds + [t.not_(e.cond)]
                        # a process of its own from here on
                        self.child(key, fn, conds, path + "-%d" % n)
                    kids.append(pid)
                    conds = conds + [e.cond]
                    n += 1
        except Late:
            recs = [dict(name="*", verdict="undecided", detail="out of time")]
        except MemoryError:
            recs = [dict(name="*", verdict="undecided", detail="out of memory")]
        except RecursionError:
            recs = [dict(name="*", verdict="undecided", detail="recursion too deep")]
        except Anchor as e:
            recs = [dict(name="*", verdict="anchor", detail=str(e))]
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
            recs = [dict(name="*", verdict="undecided", detail="analysis: %s: %s at %s" % (type(e).__name__, str(e)[:200], where))]
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            case = [t.pretty(c, 4)[:200] for c in conds]
        except Exception:
            case = ["?"]
        with open(base + ".tmp", "w") as f:
            json.dump(dict(key=key, case=case, records=recs, seconds=round(time.time() - t0, 2) if "t0" in dir() else 0, peak_mb=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024), f)
        os.rename(base + ".tmp", base + ".json")
        self.sem.release()
        for p in kids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        sys.stdout.flush()
        os._exit(0)

    def collect(self):
        for p in self.pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        out = []
        done = set()
        names = sorted(os.listdir(self.dir))
        for f in names:
            if f.endswith(".json"):
                with open(os.path.join(self.dir, f)) as h:
                    out.append(json.load(h))
                done.add(f[:-5])
        for f in names:
            if f.endswith(".start") and f[:-6] not in done:
                key = f[:-6].rsplit("~", 1)[0]
                out.append(dict(key=key, case=["?"], seconds=0, records=[dict(name="*", verdict="undecided", detail="analysis process ended early")]))
        have = {o["key"].replace("/", "_") for o in out}
        for k in self.keys:
            if k.replace("/", "_") not in have:
                out.append(dict(key=k, case=["?"], seconds=0, records=[dict(name="*", verdict="undecided", detail="analysis process ended early")]))
        shutil.rmtree(self.dir, ignore_errors=True)
        return out


class Anchor(Exception):
    """something public the property is about is not there"""
