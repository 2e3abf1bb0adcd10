"""assemble DESIGN.md from design/*.md, the seeded bugs and what caught them (design/caught.json)"""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open("design/caught.json")) if os.path.exists("design/caught.json") else {}
out = [open(f"design/{n}.md").read() for n in ("head", "props", "tail")]
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = d.split("/")[1]
    m = json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |\n")
open("DESIGN.md", "w").write("".join(out))
