"""Write SEEDED.md: which check reports which planted change (run after reseed.py or plant.py)."""
import json, os
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(base, "seeded"))):
    m = json.load(open(os.path.join(base, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
open(os.path.join(base, "SEEDED.md"), "w").write(
    "# Planted changes\n\nAll of them are reported by the quick check of the property in the second column\n"
    "(last confirmed with tools/reseed.py), unless a remark says otherwise.\n\n"
    "| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
