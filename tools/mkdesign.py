#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (status per property, planted bugs) from the ledger and the specifications."""
import json, os, re
V = "/verif"
led = json.load(open(V + "/ledger.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
specs = {}
for root, _, fs in os.walk(V + "/specs"):
    for f in sorted(fs):
        if not f.endswith(".go"):
            continue
        t = open(os.path.join(root, f)).read()
        for b in re.finditer(r"((?:^//.*\n)+)func (Spec\w+)", t, re.M):
            tags = {}
            for line in b.group(1).splitlines():
                m = re.match(r"//gvc:(\w+)\s*(.*)", line)
                if m:
                    tags[m.group(1)] = (tags.get(m.group(1), "") + " " + m.group(2)).strip()
            if "prop" not in tags:
                continue
            doc = " ".join(l[2:].strip() for l in b.group(1).splitlines() if not l.startswith("//gvc"))
            pkg = os.path.relpath(root, V + "/specs")
            pkg = "main" if pkg == "." else pkg.replace("zzgvc/", "")
            specs.setdefault(pkg + "." + b.group(2), (tags, doc, f))
short = {}
for k, v in led.items():
    short[".".join(k.split("/")[-1:])] = v
def status(name):
    p, s = name.rsplit(".", 1)
    key = p.split("/")[-1] + "." + s
    for k, v in led.items():
        if k.split("/")[-1] == key or k == name or k.endswith("/" + key):
            return v
    return {}
out = []
nproved = 0
for p in props:
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    note = ""
    rows = []
    for n, (tags, doc, f) in specs.items():
        if p["id"] not in re.split(r"[ ,]+", tags["prop"]):
            continue
        st = status(n)
        c = tags.get("contract", "").replace("~/", "").replace("|", " ")
        proved = st.get("status") == "proved"
        nproved += proved
        s = "proved, %d obligations" % len(st.get("obligations") or []) if proved else "bounded"
        rows.append("| `%s` | %s | %s | %s |" % (n, ("`" + c + "`") if c else "", s, doc.replace("|", "/")[:240]))
    out.append("| specification | contract of | decided | states |\n|---|---|---|---|")
    out += rows
gen = "\n".join(out) + "\n"
bugs = ["| planted bug | property | needs | breaks |\n|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    bugs.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
t = open(V + "/DESIGN.md").read()
def put(t, mark, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (mark, mark), lambda m: m.group(1) + body + m.group(2), t, flags=re.S)
t = put(t, "status", gen)
t = put(t, "bugs", "\n".join(bugs) + "\n")
open(V + "/DESIGN.md", "w").write(t)
print(len(specs), "specifications,", nproved, "proved")
