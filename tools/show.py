import json, sys
d = json.load(open(sys.argv[1]))
c = d["case"]
c.pop("head", None)
c.pop("tape", None)
print(json.dumps(c)[:3000])
print("\n".join(x[:200] for x in d["trace"][-60:]))
print(d["violation"])
