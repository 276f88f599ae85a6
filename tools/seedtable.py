"""Writes the table of the seeded changes of DESIGN.md (python3 tools/seedtable.py)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ["| change | what it needs to manifest | caught by |", "|---|---|---|"]
base = os.path.join(root, 'seeded')
for name in sorted(os.listdir(base)):
    meta = json.load(open(os.path.join(base, name, 'meta.json')))
    rows.append("| %s | %s | %s |" % (name, meta['needs'].replace('|', '/'), ", ".join(meta.get('caught_by', [meta['property']]))))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
begin, end = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if begin not in text:
    text += "\n## Seeded changes\n\nEach was written from the text of a property and the code, passes the tests of the repository, and has a demonstration. The last\ncolumn lists the checks that were run on it and report a violation of their property.\n\n" + begin + end
text = re.sub(re.escape(begin) + ".*" + re.escape(end), lambda m: begin + "\n".join(rows) + "\n" + end, text, flags=re.S)
open(path, 'w').write(text)
