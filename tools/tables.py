#!/usr/bin/env python3
"""Refreshes the two tables of DESIGN.md: the checks (from their sources) and
the planted bugs (from seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""c10-uniform-when-flat c17-certain-token c17-16-bits c21-arc-try-lock c23-mut-on-copy c24-hash-order
c27-rsplit c31-counts-by-index c25-bias-from-inf c25-walk-falls-off c25-typical-zero-score c26-post-set-eta
c28-trim-ascii-space c14-len-wraps""".split())
extra = f"{V}/tools/missed.txt"
if os.path.exists(extra):
    MISSED |= set(open(extra).read().split())
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
rows = ["| | q | generated, NT |", "|---|---|---|"]
for p in props:
    src = open(f"{V}/harness/src/bin/{p['id'].lower()}.rs").read()
    rule = re.search(r'const RULE: &\'static str = "(.*)";', src).group(1).replace("Non-trivial:", "**NT:**").replace("|", "\\|")
    q = int(re.search(r"const QUICK: u64 = ([\d_]+);", src).group(1).replace("_", "")) * 8
    rows.append(f"| {p['id']} {p['title']} | {q:,} | {rule} |")
bugs = ["| bug | what it breaks | needs |", "|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    bugs.append(f"| {n}{'*' if n in MISSED else ''} | {m['what_it_breaks']} | {m['needs']} |")
f = f"{V}/DESIGN.md"
s = open(f).read()
for tag, t in (("checks", rows), ("bugs", bugs)):
    s = re.sub(rf"<!-- {tag} -->.*<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n" + "\n".join(t) + f"\n<!-- /{tag} -->", s, flags=re.S)
open(f, "w").write(s)
