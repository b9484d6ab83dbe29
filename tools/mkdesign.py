"""Fills the tables of DESIGN.md (between the markers) from seeded/*/meta.json and known_findings.json."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(V + "/DESIGN.md").read()


def fill(s, mark, text):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % mark, lambda m: m.group(1) + text + "\n" + m.group(2), s, flags=re.S)


rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["needs"]))
s = fill(s, "seeds", "| bug | property | manifests with |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (d, p, n) for p, d, n in sorted(rows)))
k = json.load(open(V + "/known_findings.json"))
s = fill(s, "fixed", "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+)", r"\1 `\2`", f) for f in sorted(k["fixed"], key=lambda f: f.split()[1])))
open(V + "/DESIGN.md", "w").write(s)
