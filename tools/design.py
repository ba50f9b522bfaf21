"""tools/design.py: refresh the generated parts of DESIGN.md (repairs, planted bugs) from known_findings.jsonl and seeded/."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + "/DESIGN.md").read()
def put(tag, text):
    global s
    s = re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n{text}\n<!-- /{tag} -->", s, flags=re.S)
put("fixes", "\n".join("* " + json.loads(l)["what"].replace("fixed: property=", "") for l in open(H + "/known_findings.jsonl") if l.strip()))
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, '?')} |")
put("bugs", "\n".join(rows))
open(H + "/DESIGN.md", "w").write(s)
