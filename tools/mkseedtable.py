#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f)); d = os.path.dirname(f)
    files = re.findall(r'^\+\+\+ b/(\S+)', open(d + "/patch.diff").read(), re.M)
    rows.append(f"| {os.path.basename(d)}: {m['what_it_breaks']} (needs: {m['needs']}) | {m.get('caught_by', m['property'])} | {', '.join(files)} |")
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda _: '<!-- seeds -->\n| bug | caught by | in |\n| --- | --- | --- |\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
# a comment inside of a table would end it
open(p, "w").write(s)
