"""Lists the seeded bugs as a table for DESIGN.md: which check catches which."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| seeded bug | caught by | needs |\n|---|---|---|")
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    print("| %s | %s | %s |" % (d, m["property"], m["needs"].strip().rstrip(".")))
