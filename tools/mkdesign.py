"""Write DESIGN.md from tools/design.md, the checks and seeded/."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import boot  # noqa: E402  pylint: disable=wrong-import-position

boot.set_environment()
boot.ensure_hypothesis()
boot.import_code_under_test()
from vf import core  # noqa: E402  pylint: disable=wrong-import-position

props = {}
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)
        props[p["id"]] = p


def subs(pid):
    """Section head and table of sub-checks."""
    mod = importlib.import_module("checks." + pid.lower())
    rows = []
    for s in mod.SUBS:
        if s.cases is not None:
            n = "enumerated"
        else:
            n = "%d / %d" % (int(s.quick * core.QUICK_FACTOR), s.thorough)
        rows.append("| %s | %s | %s |" % (s.name, n, " ".join(s.rule.split())))
    return rows


text = open(os.path.join(HERE, "tools", "design.md")).read()
parts = re.split(r"<!-- PROPERTY (C\d\d) -->\n", text)
out = [parts[0]]
for pid, body in zip(parts[1::2], parts[2::2]):
    tail = ""
    if "\n## " in body:
        i = body.index("\n## ")
        body, tail = body[:i], body[i:]
    out.append("### %s – %s\n\n%s\n\n| sub-check | cases | what is generated |\n| --- | --- | --- |\n%s\n\n" % (
        pid, props[pid]["title"], body.strip(), "\n".join(subs(pid))))
    out.append(tail)
text = "".join(out)
seeds = []
base = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(base)):
    with open(os.path.join(base, d, "meta.json")) as f:
        m = json.load(f)
    seeds.append("| %s | %s | %s Needs: %s |" % (
        d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
fixes = ", ".join(sorted(os.listdir(os.path.join(HERE, "planted_on_fixes"))))
text = text.replace("<!-- ONFIXES -->", fixes)
text = text.replace("<!-- NSEEDED -->", str(len(seeds)))
text = text.replace("<!-- SEEDED -->", "| change | caught by | what it breaks |\n| --- | --- | --- |\n" + "\n".join(seeds))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
