#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md."""
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
rows=["<!-- catch -->","| planted bug | caught by | needs |","|---|---|---|"]
for d in sorted(os.listdir(root+"/seeded")):
    m=json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
rows.append("<!-- /catch -->")
t="\n".join(rows)
s=open(root+"/DESIGN.md").read()
if "<!-- catch -->" in s:
    a=s.index("<!-- catch -->"); b=s.index("<!-- /catch -->")+len("<!-- /catch -->")
    s=s[:a]+t+s[b:]
else: s=s.replace("CATCH\n",t+"\n")
open(root+"/DESIGN.md","w").write(s)
