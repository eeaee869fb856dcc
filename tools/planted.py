"""Rewrites the table of planted bugs at the end of DESIGN.md: python3 tools/planted.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# planted bugs that were missed at first, and what was added to the check
LATER = {
    "C02-tiny-zero": "missed at first: family `skew` added",
    "C03-nearly-unobserved": "missed at first: likelihoods 0.97 and 0.999 added",
    "C06-skip-weak": "missed at first: family `weak` and nearly neutral evidence added, tolerance tightened",
    "C25-normalize-small": "missed at first: four magnitudes of entries added",
    "C33-contains-identity": "missed at first: ids above 256, equal ids and labels as distinct objects",
    "C01-fill-four": "missed at first: banded networks and the knot added",
    "C07-close-enough": "missed at first: nudged tables added",
    "C33-names-fold": "missed at first: names that differ in case or blanks added",
    "C37-marks": "missed at first: a network with two cliques added",
    "C31-small-variance": "missed at first: badly scaled variances added",
    "C01-many-values": "missed at first: wide shapes added",
    "C14-gives-up": "missed at first: rare evidence added",
    "C20-many-strata": "missed at first: 100 strata added",
    "C21-long-description": "missed at first: long paths added",
    "C24-twice": "missed at first: 8 and 12 variables added",
    "C25-many-entries": "missed at first: large tables added",
    "C31-many": "missed at first: 5000 and 20011 samples added",
}
rows = []
for name in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{name}/meta.json"))
    rows.append(f"| {name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {LATER.get(name, '')} |")
path = ROOT + "/DESIGN.md"
s = open(path).read()
mark = "## 5. Planted bugs\n"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + """
Every one builds, passes the existing tests, and is caught by the quick check of its property.

| bug | caught by | what it breaks | what it needs | |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(path, "w").write(s)
