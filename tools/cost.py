"""writes cost.json: cost of the last quick runs, from the evidence files."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(f"{V}/evidence/P??.json")):
    d = json.load(open(f)); c = d["coverage"]
    if d["tier"] == "quick" and c["harness_instances"] > 20:
        out[d["property"]] = (f"{c['harness_instances']} instances ({c['instances_decided']} decided), {c['paths_proved']} paths proved, {c['undecided_count']} undecided, "
                              f"{c['solver_queries']} queries, {c['solver_seconds']:.0f} s solver time over all processes, {d['wall_s']:.0f} s on 8 cores.")
json.dump(out, open(f"{V}/tools/cost.json", "w"), indent=1)
