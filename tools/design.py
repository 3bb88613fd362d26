#!/usr/bin/env python3
"""Fills the generated parts of /verif/DESIGN.md: the section per property and
the table of planted bugs (from seeded/*/meta.json and tools/matrix.json)."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for f in sorted(glob.glob(os.path.join(here, "harness/props/*.go"))):
    s = open(f).read()
    for m in re.finditer(r'pbt\.Register\(&pbt\.Prop\{(.*?)\n\t\}\)', s, re.S):
        b = m.group(1)
        i = re.search(r'ID:\s*"(\w+)"', b)
        if not i:
            continue
        r = re.search(r'Rule:\s*((?:"(?:[^"\\]|\\.)*"\s*\+?\s*)+)', b)
        rule = "".join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', r.group(1)))
        bud = [re.search(k + r':\s*pbt\.Budget\{Cases: (\d+), MaxSec: (\d+)\}', b).groups() for k in ("Quick", "Thorough")]
        a = re.search(r'Assumptions:\s*((?:"(?:[^"\\]|\\.)*"\s*\+?\s*)+)', b)
        rules[i.group(1)] = (os.path.basename(f), rule, bud, bool(re.search(r'NoBubble:\s*true', b)))
out = []
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    f, rule, bud, real = rules[d["id"]]
    out.append("### %s %s\n" % (d["id"], d["title"]))
    out.append("*Specified:* " + d["statement"] + "\n")
    parts = re.split(r'(?i)[;.] (?=oracle:|non-trivial:)', rule)
    for p in parts:
        k, _, v = p.partition(":")
        out.append("*%s:*%s\n" % (k.strip().capitalize(), v.rstrip(".") + "."))
    out.append("*Quantified over:* %s. *Beyond tests because* %s.\n" % (d["quantifier"]["text"].rstrip("."), d["why_tests_cant"].rstrip(".")))
    out.append("*Bounds and cost:* quick at most %s cases or %s s, thorough %s cases or %s s; %s; `harness/props/%s`.\n" % (
        bud[0][0], bud[0][1], bud[1][0], bud[1][1], "real clock" if real else "virtual time", f))
per = "\n".join(out)
mat = {}
mp = os.path.join(here, "tools/matrix.json")
if os.path.exists(mp):
    mat = json.load(open(mp))
rows = ["| planted bug | property | breaks | caught by (quick) |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    i = m.split("/")[-2]
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), mat.get(i, "?")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
def fill(s, k, v):
    a, b = "<!-- %s -->" % k, "<!-- end %s -->" % k
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + v + "\n" + s[j:]
fixed = [l[7:].strip() for l in open(os.path.join(here, "KNOWN_FINDINGS")) if l.startswith("fixed:")]
rf = "\n".join("- %s: `%s` %s" % (re.search(r'property=(\w+)', x).group(1), x.split()[1], " ".join(x.split()[2:])) for x in fixed)
s = fill(fill(fill(s, "properties", per), "seeded", "\n".join(rows)), "fixed", rf)
open(p, "w").write(s)
