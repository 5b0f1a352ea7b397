"""table.py: renews the table of planted bugs in DESIGN.md."""
import glob, json, re
p = "/verif/DESIGN.md"
s = open(p).read()
rows = "".join(f"| {m.split('/')[3]} | {json.load(open(m))['what_it_breaks']} |\n" for m in sorted(glob.glob("/verif/seeded/*/meta.json")))
s = re.sub(r"(\| planted bug \| what it breaks \|\n\|---\|---\|\n)(\|.*\n)*", lambda m: m[1] + rows, s)
open(p, "w").write(s)
