"""Writes properties.jsonl, MANIFEST.json and known_findings.json from one table. Run after editing it: python3 tools/meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "solver-based symbolic execution of the real compiler's LLVM IR (own engine over z3)"
P = []
def prop(id, title, statement, over, text, why, files, mech, check=True, technique=T, note="", na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), check, technique, note, na))
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(V + "/properties.jsonl", "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3-vt checks/run.py %s quick" % p["id"], thorough_cmd="python3-vt checks/run.py %s thorough" % p["id"],
               technique=t, level="other", level_note=n or "bounded symbolic execution; bounds are in the evidence") for p, c, t, n, na in P if c]
json.dump(dict(version=1, setup_cmd="python3-vt checks/setup.py", checks=checks, not_applicable=[dict(property=p["id"], reason=na) for p, c, t, n, na in P if na],
               notes="No hooks in /repo: the encoding is the LLVM IR of the unmodified crate (and of the C that the compiler generates from /repo/lib)."), open(V + "/MANIFEST.json", "w"), indent=1)
json.dump(dict(findings=KNOWN), open(V + "/known_findings.json", "w"), indent=1)
