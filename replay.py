#!/opt/venv/bin/python
"""Re-execute a replay file.  Exit 1 if it violates its property exactly as recorded (same kind, same event trace),
0 if the property holds, 3 if it now fails differently."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import runner  # noqa: E402


def main():
    runner.silence()
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    runner.check_target()
    prop = runner.load_prop(doc["property"])
    env, viol = runner.run_after(prop, doc.get("before", []), doc["case"])
    if "-v" in sys.argv:
        for t in env.trace:
            print(t)
    if viol is None:
        print("property %s holds on this case (digest %s)" % (doc["property"], env.digest()))
        sys.exit(0)
    print("%s: %s: %s" % (doc["property"], viol.kind, viol.msg))
    print("digest %s, recorded %s" % (env.digest(), doc["digest"]))
    print("VIOLATION property=%s replay=%s" % (doc["property"], sys.argv[1]))
    same = doc["violation"] is not None and viol.kind == doc["violation"]["kind"] and env.digest() == doc["digest"]
    sys.exit(1 if same else 3)


if __name__ == "__main__":
    main()
