"""Rewrites the generated part of DESIGN.md (between the markers) from contracts/, tools/props.py, seeded/ and the last evidence."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from props import PROPS, NOT_APPLICABLE

out = []
for p in PROPS:
    i = p["id"]
    P = importlib.import_module("contracts." + i).P
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    out.append(P.explanation)
    out.append("")
    try:
        cov = json.load(open(os.path.join(ROOT, "evidence", i + ".json")))["coverage"]
        out.append("* Last run: %d obligations on %d paths (%s), %d functions under contract; solver time %.0f s." % (
            cov["obligations"], cov["paths"], ", ".join("%s %d" % kv for kv in sorted(cov["discharged_by"].items())), len(cov["functions_under_contract"]), cov["solver_s"]))
    except (OSError, KeyError):
        pass
    sym = [u.name for u in P.units if u.sym]
    conc = [u.name for u in P.units if not u.sym]
    out.append("* Units proved (%d): %s." % (len(sym), "; ".join(sym)))
    if conc:
        out.append("* Units only evaluated on samples (bounded, not counted as proved): %s." % "; ".join(conc))
    for a in P.assumptions:
        out.append("* Assumed: %s." % a.rstrip("."))
    for b in P.bounded:
        out.append("* Bounded: %s." % b.rstrip("."))
    for key, _ in P.known:
        out.append("* Known finding checked here: `%s`." % key)
    out.append("")
if NOT_APPLICABLE:
    out.append("### Not applicable\n")
    out += ["* %s" % (n,) for n in NOT_APPLICABLE]
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
out.append("### Planted changes (`seeded/`)")
out.append("")
out.append("Each one was written from the property text and the code, confirmed to build and to pass the 1308 stable tests, and comes with a demonstration. "
           "\"missed\" in the last column says what the check did when the change was first tried and how it was strengthened.")
out.append("")
out.append("| change | property | what it breaks | needs | caught by (unit) |")
out.append("|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"], m["needs"], caught.get(k, "not yet tried")))
out.append("")
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
a, b = "<!-- generated by tools/design.py -->", "<!-- end of the generated part -->"
pre, rest = s.split(a)
post = rest.split(b)[1]
open(f, "w").write(pre + a + "\n" + "\n".join(out) + b + post)
