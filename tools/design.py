#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between the markers) from the job
tables, the evidence files and the planted bugs."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")), sys.path.insert(0, os.path.join(V, "tools"))
import jobs
import gen


def table():
    o = ["| id | property | jobs (quick / thorough) | bounds | quick: paths / queries / solver s / wall s |", "|---|---|---|---|---|"]
    for q in gen.P:
        i = q["id"]
        if i not in jobs.TABLES:
            continue
        n = (len(jobs.jobs(i, "quick")), len(jobs.jobs(i, "thorough")))
        c = "-"
        f = os.path.join(V, "evidence", i + ".json")
        if os.path.exists(f):
            d = json.load(open(f))
            if d["tier"] == "quick":
                g = d["coverage"]
                c = "%d / %d / %.0f / %.0f%s" % (g["states"], g["queries"], g["solver_s"], d["wall_s"], "" if g["exhaustive"] else " (incomplete)")
        o.append("| %s | %s | %d / %d | %s | %s |" % (i, q["title"], n[0], n[1], q["note"], c))
    return "\n".join(o)


def seeds():
    caught = {}
    f = os.path.join(V, "tools", "caught.json")
    if os.path.exists(f):
        caught = json.load(open(f))
    o = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        d, i = json.load(open(m)), os.path.basename(os.path.dirname(m))
        o.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], caught.get(i, "-")))
    return "\n".join(o)


def defects():
    return "\n".join("* " + l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.startswith(("fixed:", "finding:")))


p = os.path.join(V, "DESIGN.md")
s = open(p).read()
for name, f in (("TABLE", table), ("SEEDS", seeds), ("DEFECTS", defects)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + f() + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
