""" writes the table of planted bugs, at the end of DESIGN.md """
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(HERE, "DESIGN.md")
text = open(fn).read()
head = text[:text.index("| change | caught by |")]
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"],
                                      " ".join(m["needs"].split())))
with open(fn, "w") as fd:
    fd.write(head + "| change | caught by | needs |\n|---|---|---|\n" +
             "\n".join(rows) + "\n")
