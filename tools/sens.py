"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.
(A documentation tool; no check reads seeded/.)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# how it was caught: notes for those the checks missed first
NOTE = {
 "c03-small-coefficients": "missed first; coefficients down to 1/30! added",
 "c04-contractions-kept-across-spaces": "missed first; spaces change within a history added",
 "c04-kept-factors": "missed first; campaign *large* (up to 20 legs) added",
 "c05-operators-compared-as-text": "missed first; two-digit leg counts with one label added",
 "c07-factorial-of-int": "campaign *series* (orders up to 40)",
 "c08-packed-index": "missed first; large positions added",
 "c09-more-than-eight-spaces": "missed first; up to 12 spaces added",
 "c10-orderings-kept-after-reset": "rehearsal",
 "c14-names-kept-after-reset": "rehearsal",
 "c11-sorted-blocks": "missed first; operators in any order added",
 "c11-duplicate-equations": "",
 "c16-abbreviated-types": "missed first; mutated type and field words added",
}
EXTRA = os.path.join(V, "tools", "sens_notes.json")
if os.path.exists(EXTRA):
    NOTE.update(json.load(open(EXTRA)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    i = os.path.basename(d[:-1])
    rows.append("| `%s` | %s | %s | %s |" % (i, m["needs"], m["property"], NOTE.get(i, "")))
head = "| planted bug | needs | caught by | note |\n|---|---|---|---|\n"
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + head + "\n".join(rows) + "\n" + s[j:])
print(len(rows), "rows")
