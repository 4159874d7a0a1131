"""DESIGN.md from tools/props.py, the planted bugs and the text below:  python3 tools/design.py"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "tools", "mutants")]
import props

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
rule = {}
for p in sorted(glob.glob(os.path.join(V, "rules", "*.py"))):
    for m in re.finditer(r'@check\("(C\d+)"\)', open(p).read()):
        rule[m[1]] = "rules/" + os.path.basename(p)
MORE = {}
cur = None
for ln in open(os.path.join(V, "tools", "design_more.md")):
    m = re.match(r"## (C\d+)", ln)
    if m:
        cur = m[1]
        MORE[cur] = ""
    elif cur:
        MORE[cur] += ln
out = [HEAD]
for d in props.P:
    if d["na"]:
        continue
    out.append("### %s — %s (`%s`)\n" % (d["id"], d["title"], rule.get(d["id"], "?")))
    out.append("*Quantifies over* %s. *Tests cannot settle it*: %s.\n" % (d["qtext"], d["why"].rstrip(".")))
    if d["note"]:
        out.append(d["note"].replace(props.TRUST, "").strip() + "\n")
    if MORE.get(d["id"]):
        out.append(MORE[d["id"]].strip() + "\n")
out.append("## Not applicable\n")
for d in props.P:
    if d["na"]:
        out.append("* **%s %s** — %s" % (d["id"], d["title"], d["na"]))
out.append("\n## Planted bugs kept in `seeded/`\n")
out.append("Each was confirmed in a scratch copy (builds, 10 stable tests pass, demonstration fails with it and passes without it) and is caught by the check named.\n")
out.append("| bug | caught by | needs | breaks |\n|---|---|---|---|")
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
out.append("\n## Source edits tried (`tools/mutants/`, run with `tools/mut.py`)\n")
out.append("Each edit is applied to a scratch copy and all the checks are run on it. *bugs*: edits labelled with the property they break; *same*: edits that keep the behaviour, on which every check has to stay quiet.\n")
out.append("| set | bugs | same | properties |\n|---|---|---|---|")
for p in sorted(glob.glob(os.path.join(V, "tools", "mutants", "*.py"))):
    n = os.path.basename(p)[:-3]
    M = __import__(n).M
    ids = sorted({i for x in M for i in (x[1] or "").split(",") if i.startswith("C")})
    out.append("| %s | %d | %d | %s |" % (n, sum(1 for x in M if x[1]), sum(1 for x in M if not x[1]), " ".join(ids)))
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
