"""Rewrite the table of planted bugs at the end of DESIGN.md (not part of any check)."""
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c09-script-unexpanded": "expanding objects in script/style",
    "c11-name-case": "near names",
    "c12-empty-file": "empty files",
    "c12-nfc-url": "near file names",
    "c12-query": "file names with any character",
    "c12-symlinks": "links in sources",
    "c15-lower": "near names",
    "c18-nfc": "near payloads",
    "c20-dot-name": "more names",
    "c17-hook-name": "blocks that change their tag",
    "c09-repeat-drop": "one object at several places",
    "c08-big-tagify": "magnitude",
    "c08-many-attrs": "magnitude",
    "c12-big-file": "magnitude",
    "c12-many-files": "magnitude",
    "c13-long-serial": "magnitude",
    "c14-many-items": "magnitude",
    "c20-many-props": "magnitude",
}
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    note = f" (missed at first; {MISSED[d]})" if d in MISSED else ""
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {m['property']}{note} |")
s = open("DESIGN.md").read()
head = s.split("| planted | needs | caught by |")[0]
import re
head = re.sub(r"holds \d+ changes", f"holds {len(rows)} changes", head)
open("DESIGN.md", "w").write(head + "| planted | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n")
