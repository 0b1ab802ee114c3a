"""writes DESIGN.md."""
import ast, glob, json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import design_text as T, meta
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(i):
    out = {"ENCODED": [], "BOUNDS": "", "ASSUMPTIONS": []}
    for n in ast.parse(open(f"{V}/props/{i.lower()}.py").read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in out:
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    L = [T.HEAD, "\n## 2. Properties\n"]
    for p in meta.P:
        i = p["id"]
        L.append(f"### {i} {p['title']}\n")
        L.append(p["statement"] + "\n")
        if i in meta.NA:
            L.append(f"**Not applicable**: {meta.NA[i]}.\n")
            continue
        c = consts(i)
        L.append(f"*How*: {T.HOW[i]}\n")
        L.append(f"*Why tests cannot settle it*: {p['why']}\n")
        L.append(f"*Encoded*: {', '.join(c['ENCODED'])}.\n")
        L.append(f"*Bounds*: {c['BOUNDS']}.\n")
        if c["ASSUMPTIONS"]:
            L.append("*Assumptions*: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        cost = None
        if os.path.exists(f"{V}/tools/cost.json"):
            cost = json.load(open(f"{V}/tools/cost.json")).get(i)
        if cost:
            L.append(f"*Cost (quick)*: {cost}\n")
    L.append("\n## 3. Defects found and repaired in /repo (unguarded `fix:` commits)\n")
    kf = json.load(open(f"{V}/known_findings.json"))
    for k in kf:
        if k["status"] == "fixed":
            L.append("* " + k["entry"])
    L.append("\n## 4. Known findings (not repaired)\n")
    for k in kf:
        if k["status"] == "known":
            L.append(f"* {k['property']}: instances `{k['instance']}` ({k['failure']}): {k['what']}. {k.get('why', '')}")
    L.append("\n## 5. Alarms that were wrong, and what was corrected\n")
    L += ["* " + x for x in T.FALSE_ALARMS]
    L.append("\n## 6. Planted bugs\n\nEach keeps all stable tests passing; its demonstration fails with it. Caught by = checks (quick) that exit 1.\n\n| bug | needs | caught by |\n|---|---|---|")
    det = json.load(open(f"{V}/tools/detect.json")) if os.path.exists(f"{V}/tools/detect.json") else {}
    for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        b = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        L.append(f"| {b} | {m['needs']} | {det.get(b, m['property'])} |")
    L.append(getattr(T, "DETECT", ""))
    L.append("\n## 7. Limits\n" + T.LIMITS)
    open(f"{V}/DESIGN.md", "w").write("\n".join(L) + "\n")


if __name__ == "__main__":
    main()
