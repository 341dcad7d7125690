#!/usr/bin/env python3
"Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "r04-module-digits": "file names with several module numbers added to R04",
    "r07-count-before-data": "race detection now sees the stream reads",
    "r07-latest-number": "R07: a later frame completing first",
    "t01-queue-full": "T01: a queued task does not wait for the one before it",
    "s03-max-per-frame": "S03: positions with several frames for max",
    "a02-axis-swap": "A02: values and sizes whose products leave the frame's type",
    "i03-narrow-sum": "I03: frames of more than 65536 pixels",
    "e06-truncated-dark": "E06: darks that are not whole numbers",
    "a07-gain-twice": "A07: gain without dark reference",
}
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |%s" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), " first missed: %s |" % MISSED[i] if i in MISSED else "  |"))
p = V + "/DESIGN.md"
s = open(p).read()
h = "\n| planted bug | caught by | what it breaks | |\n|---|---|---|---|\n"
s = s.split("\n| planted bug |")[0].rstrip("\n") + "\n" + h + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows))
