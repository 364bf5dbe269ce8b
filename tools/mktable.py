"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- planted bugs: begin -->", "<!-- planted bugs: end -->"

rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    clean = [str(m[k]).replace("|", "/").replace("\n", " ") for k in ("property", "what_it_breaks", "needs")]
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), *clean))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read().replace("@@TABLE@@", BEGIN + "\n" + END)
text = re.sub(re.escape(BEGIN) + ".*?" + re.escape(END), lambda m: "\n".join([BEGIN] + rows + [END]), text, flags=re.S)
open(path, "w").write(text)
