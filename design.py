"""Write DESIGN.md: doc/head.md, then one section per property from the registry, findings and planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def write(registry, na):
    out = [open(os.path.join(HERE, "doc", "head.md")).read().rstrip(), "", "## 4. Properties and how each is decided", ""]
    for pid, p in sorted(registry.items()):
        out += [f"### {pid} {p.title}", "", p.statement, "", f"* **Over**: {p.quant}.", f"* **Why tests cannot settle it**: {p.why}.",
                f"* **Anchors**: {'; '.join(f'`{n}` ({w})' for n, w in p.mechanism)}.",
                f"* **Decided by**: {p.technique}.", f"* **Bounds and strength**: {p.note}"]
        if p.assumptions:
            out.append("* **Assumptions**: " + "; ".join(p.assumptions) + ".")
        out.append("")
    out += ["## 5. Not applicable", "", "Properties of asyncz that were written down but that no sound static argument in reach decides:", ""]
    for n in na:
        out += [f"* **{n['id']} {n['title']}** ({n['statement']}) {n['reason']}"]
    out += ["", "## 6. Genuine defects found", "", "From `KNOWN_FINDINGS.txt` (`fixed:` entries suppress nothing):", ""]
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        if line.startswith(("fixed:", "finding:")):
            out.append("* " + line.strip())
    extra = os.path.join(HERE, "doc", "tail.md")
    if os.path.exists(extra):
        out += ["", open(extra).read().rstrip()]
    out += ["", "## 7. Planted bugs and the checks that catch them", "", "| planted bug | property | caught by | what it breaks |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} |")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
