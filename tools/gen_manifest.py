"""Writes MANIFEST.json."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
AI = "abstract interpretation to value normal forms, compared with specification terms"
NOTE = ("Identity of normal forms is a proof over every sequence, length and parameter value, given the analyser's reading of Python and of the libraries "
        "(reals for floats) and the specification modules. A difference alarms only when a finite model of the two value terms separates them; "
        "constructs the analysis cannot read are reported as undecided in the evidence, not as violations.")
TECH = {}
for p in props:
    TECH[p["id"]] = (AI, NOTE)
AST = "syntax-tree and call-graph rules"
NA = {
    "C31": "A statement about the distribution of results over random inputs; nothing in the source short of the mathematics of each statistic settles it, and no static rule over the code does.",
    "C32": "Rounding-error bounds for erfc, igamc, FFT and long sums over run-time values are not decidable from this source; the analysis reads floats as reals.",
    "C33": "Running time on a million values depends on the interpreter, NumPy and the machine; no static bound in reach is tight enough to mean minutes.",
}
LATER = "No check built yet."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        mod = {}
        src = open(os.path.join(HERE, "checks", i.lower() + ".py")).read()
        tech, note = TECH[i]
        for x in ast.parse(src).body:
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "TECHNIQUE": tech = ast.literal_eval(x.value)
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "NOTE": note = ast.literal_eval(x.value)
        cmd = "/opt/venv/bin/python /verif/check.py %s --tier %s"
        checks.append(dict(property=i, quick_cmd=cmd % (i, "quick"), thorough_cmd=cmd % (i, "thorough"), technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=LATER))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/verif'); import sa.driver\"", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
