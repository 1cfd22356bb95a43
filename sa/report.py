"""Evidence, violations and known findings."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VP_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.jsonl")

TRUST = [
    "the analyser's reading of Python, NumPy, pandas, SciPy, rich and click operations (sa/lib.py, sa/interp.py): real numbers for floats, library calls by their documentation",
    "the specification modules under spec/ and the tables they hold",
    "CPython's own parser (ast)",
]


def known(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out[d["id"]] = d
    except OSError:
        pass
    return out


def finish(prop, tier, res, wall, verbose=False):
    """res: rule, outcomes [{key, case, records, seconds}], functions, extra"""
    listed = known(prop)
    counts = {}
    viol, undec, finds, anchors, samples = [], [], [], [], []
    for o in res["outcomes"]:
        for r in o["records"]:
            v = r["verdict"]
            if v == "finding" and r.get("id") not in listed:
                v = "violation"
            counts[v] = counts.get(v, 0) + 1
            e = dict(r, at=o["key"], case=o.get("case", []))
            if v == "violation":
                viol.append(e)
            elif v == "undecided":
                undec.append(e)
            elif v == "finding":
                finds.append(e)
            elif v == "anchor":
                anchors.append(e)
            elif v == "proved" and len(samples) < 6:
                samples.append({k: e[k] for k in ("at", "name", "detail", "case") if k in e})
            if verbose:
                print(o["key"], "|".join(o.get("case", []))[:120], v, r.get("name"), str(r.get("detail"))[:300], r.get("witness", "")[:200], r.get("pos", ""))
    total = sum(counts.values())
    cov = dict(
        explanation=res["rule"],
        obligations=total,
        discharged=counts.get("proved", 0),
        undecided=[{k: e.get(k) for k in ("at", "name", "detail", "case")} for e in undec[:40]],
        undecided_count=len(undec),
        analyses=[dict(at=o["key"], case=o.get("case", []), seconds=o.get("seconds"), peak_mb=o.get("peak_mb")) for o in res["outcomes"]],
        functions_analysed=sorted(set(res.get("functions", ())))[:200],
        samples=samples,
    )
    cov.update(res.get("extra", {}))
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
        coverage=cov, assumptions=TRUST + list(res.get("assumptions", ())), wall_s=round(wall, 2), violations=len(viol),
    )
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    seen = set()
    for e in finds:
        if e["id"] not in seen:
            seen.add(e["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[e["id"]]["what"]))
    print("%s: %d obligations, %d proved, %d undecided, %d violations, %.0f s" % (prop, total, counts.get("proved", 0), len(undec), len(viol), wall))
    if viol:
        path = os.path.join(EVID, prop + ".violation.json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1, ensure_ascii=False)
        for e in viol[:10]:
            print("  %s: %s: %s%s%s" % (e["at"], e.get("pos", ""), e.get("name"), " - ", str(e.get("detail"))[:600]))
            if e.get("witness"):
                print("     witness %s" % str(e["witness"])[:300])
            if e.get("case"):
                print("     case %s" % " and ".join(e["case"])[:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if anchors:
        for e in anchors:
            print("cannot find %s" % e.get("detail"))
        return 2
    return 0
