#!/usr/bin/env python3
"""Generates DESIGN.md: head, findings, one section per property (from the contracts and evidence), seeds."""
import json,os,re,glob,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=[open(V+"/tools/design_head.md").read()]
for l in open(V+"/known_findings.jsonl"):
    k=json.loads(l)
    if k["status"]=="fixed": out.append("* %s"%k["what"].replace("fixed: property=","").strip())
out.append("\nRecorded, not repaired:\n")
for l in open(V+"/known_findings.jsonl"):
    k=json.loads(l)
    if k["status"]=="known": out.append("* %s (contract %s, obligation \"%s\"): %s"%(k["property"],k["contract"],k["obligation"],k["what"]))
out.append(open(V+"/tools/design_notes.md").read())
out.append("\n## Properties\n\nCost is wall time of the quick check here (8 cores). All contracts are for all inputs unless a bound is named in the note.\n")
m=json.load(open(V+"/MANIFEST.json")); notes={c["property"]:c["level_note"] for c in m["checks"]}
na={n["property"]:n["reason"] for n in m["not_applicable"]}
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    out.append("### %s %s\n\n%s\n"%(i,p["title"],p["statement"]))
    if i in na:
        out.append("Not applicable: "+na[i]+"\n"); continue
    out.append("Over: %s. Why tests cannot: %s.\n"%(p["quantifier"]["text"],p["why_tests_cant"]))
    out.append("Contracts (oracle: the formulas in them; file(s) %s):\n"%", ".join(sorted(os.path.relpath(f,V) for f in glob.glob(V+"/contracts/**/c%s_*.go"%i[1:],recursive=True))))
    for f in sorted(glob.glob(V+"/contracts/**/c%s_*.go"%i[1:],recursive=True)):
        s=open(f).read()
        for mm in re.finditer(r"((?:^//.*\n)+)^func (C\d\d_\w+)\(",s,re.M):
            doc=" ".join(x[2:].strip() for x in mm.group(1).splitlines() if not x.startswith("//verif:"))
            tg=re.findall(r"//verif:(?:target|contract) (.*)",mm.group(1))
            opt=re.findall(r"//verif:opt (unroll=\S+|opaque|pure=\S+|devirt=\S+|peel=\S+)",mm.group(1))
            out.append("* `%s` (%s)%s: %s"%(mm.group(2),", ".join(tg) or "-"," ["+", ".join(opt)+"]" if opt else "",doc))
    e=V+"/evidence/%s.json"%i
    if os.path.exists(e):
        d=json.load(open(e)); c=d["coverage"]
        out.append("\n%d obligations, %d functions of /repo executed symbolically, about %.0f s. %s\n"%(c["obligations"],len([x for x in c["repo_functions_covered"]]),d["wall_s"],notes.get(i) or ""))
out.append("## Planted bugs\n\n| seed | property | needs | reported |\n|---|---|---|---|")
caught={}
if os.path.exists(V+"/tools/caught.txt"):
    for l in open(V+"/tools/caught.txt"):
        a=l.rstrip("\n").split("\t"); caught[a[0]]=a[1]
for d in sorted(glob.glob(V+"/seeded/*")):
    q=json.load(open(d+"/meta.json")); n=os.path.basename(d)
    out.append("| %s | %s | %s | %s |"%(n,q["property"],q["needs"],caught.get(n,"?")))
open(V+"/DESIGN.md","w").write("\n".join(out)+"\n")
