"""Rewrites the list of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("* `%s` (%s): %s. Needs %s." % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
p = root + "/DESIGN.md"
s = open(p).read()
block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", block)
else:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: block, s, flags=re.S)
open(p, "w").write(s)
