#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and for each property its entry here, its check module's own statement and the planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
exec(open(os.path.join(V, "tools", "design_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]


def const(src, name):
    m = re.search(r'^%s = ((?:.|\n)*?)\n(?=[A-Z#\n@d])' % name, src, re.M)
    return eval(m.group(1)) if m else None  # noqa: S307 (our own files)


def planted():
    """Seeds and what catches them (tools/planted.json, written by the planting runs)."""
    try:
        got = json.load(open(os.path.join(V, "tools", "planted.json")))
    except FileNotFoundError:
        got = {}
    rows = []
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        sid = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        rows.append((sid, m["property"], m["what_it_breaks"], m["needs"], got.get(sid, "")))
    return rows


out = [HEAD.strip() + "\n"]
out.append("## Properties\n")
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in CLAIMS:
        out.append("*Not claimed.* %s\n" % NOT.get(i, ""))
        continue
    t, level = CLAIMS[i]
    out.append("*Decided by:* %s. *Strength:* %s.\n" % (t, level))
    src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
    out.append("*What is generated and observed:* %s.\n" % const(src, "RULE").strip().rstrip("."))
    a = const(src, "ASSUMPTIONS")
    if a:
        out.append("*Assumed:* " + "; ".join(a) + ".\n")
    if i in NOTES:
        out.append(NOTES[i].strip() + "\n")
out.append(KNOWN.strip() + "\n")
out.append("## Planted bugs\n\n`seeded/<id>/` holds each patch with a demonstration. The last column names the checks that report it (quick tier, seed 1).\n")
out.append("| id | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|")
for r in planted():
    out.append("| " + " | ".join(x.replace("|", "/") for x in r) + " |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "pieces")
