#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the rule paragraphs of the analyzer, known_findings.txt,
design_notes.py (hand-written, per property), seeded/*/meta.json, the mutant lists and design_tail.md."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import CLAIMED, NOT_APPLICABLE
from design_notes import NOTES

rules, where = {}, {}
for f in sorted(glob.glob(os.path.join(root, "analyzer", "*.go"))):
    s = open(f).read()
    for m in re.finditer(r'register\(&Rule\{\s*ID:\s*"(C\d\d)",\s*Rule:\s*"((?:[^"\\]|\\.)*)"(.*?)Run:', s, re.S):
        rules[m[1]] = (m[2].replace('\\"', '"'), re.findall(r'"((?:[^"\\]|\\.)*)"', m[3]))
        where[m[1]] = os.path.basename(f)

known, fixed = {}, {}
for l in open(os.path.join(root, "known_findings.txt")):
    m = re.match(r'(known|fixed): property=(C\d\d) (.*)', l)
    if m:
        (known if m[1] == "known" else fixed).setdefault(m[2], []).append(m[3])

mut = {}
def M(i, prop, path, old, new, **k): mut.setdefault(prop, []).append(i)
def R(i, path, old, new, **k): mut.setdefault("refactor", []).append(i)
for f in sorted(glob.glob(os.path.join(here, "mutants", "*.py"))):
    src = open(f).read()
    for m in re.finditer(r'^M\(\s*["\']([^"\']+)["\'],\s*["\'](C\d\d)["\']', src, re.M):
        mut.setdefault(m[2], []).append(m[1])
    for m in re.finditer(r'^R\(\s*["\']([^"\']+)["\']', src, re.M):
        mut.setdefault("refactor", []).append(m[1])

seeds = {}
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))

out = [open(os.path.join(here, "design_head.md")).read()]
for p in sorted(CLAIMED, key=lambda p: p["id"]):
    i = p["id"]
    r, trust = rules[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Rule* (`analyzer/{where[i]}`): {r}\n")
    out.append(f"*Method*: {p['tech']}. *Reach*: {p['note']} *Beyond tests*: {p['why']}\n")
    if trust:
        out.append("*Trusted*: " + "; ".join(trust) + ".\n")
    if i in NOTES:
        out.append(NOTES[i].strip() + "\n")
    if i in known:
        out.append("*Known findings*: " + " | ".join(re.sub(r'^key=(\S+) -- ', r'`\1`: ', k) for k in known[i]) + "\n")
    bits = []
    if i in fixed:
        bits.append("genuine defects found and repaired: " + ", ".join("%s (%s)" % (k.split()[0], " ".join(k.split()[1:])) for k in fixed[i]))
    if i in mut:
        bits.append(f"{len(mut[i])} throw-away mutants")
    if i in seeds:
        bits.append("planted bugs caught: " + ", ".join(n for n, _ in seeds[i]))
    if bits:
        out.append("*Exercised by*: " + "; ".join(bits) + ".\n")
out.append("## Properties this family does not decide here\n")
for p in sorted(NOT_APPLICABLE, key=lambda p: p["id"]):
    out.append(f"- **{p['id']} {p['title']}**: {p['reason']}")
out.append("")
out.append("## Planted bugs and the checks that catch them\n")
out.append("| planted bug | property (check that catches it) | what it needs |\n|---|---|---|")
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append(f"| {n} | {i} | {d['needs'].replace('|', '/')} |")
out.append("")
n = sum(len(v) for k, v in mut.items() if k != "refactor")
out.append(open(os.path.join(here, "design_tail.md")).read().replace("@MUT@", str(n)).replace("@REF@", str(len(mut.get("refactor", [])))))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
print(n, "mutants", len(mut.get("refactor", [])), "refactorings", sum(map(len, seeds.values())), "seeds", len(rules), "rules")
