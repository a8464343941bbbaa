"""Print a replay file readably: keys as text, long keys shortened."""
import json, sys, re
def txt(x):
    if isinstance(x, list):
        if x and all(isinstance(i, int) for i in x) and len(x) != 0:
            s = bytes(i & 255 for i in x).decode("latin1")
            return repr(s if len(s) < 30 else s[:6] + "..%d" % len(s))
        return "[" + " ".join(txt(i) for i in x) + "]"
    if isinstance(x, dict):
        return "{" + " ".join("%s=%s" % (k, txt(v)) for k, v in x.items()) + "}"
    return str(x)
d = json.load(open(sys.argv[1]))
for s in d["replay"].get("script", []): print(s[:150])
for s in d["replay"].get("trace", []):
    try: e = json.loads(s)
    except ValueError: print(s[:300]); continue
    if "R" in e:
        print("%s %s" % (e["op"], e.get("i")))
        for r, v in enumerate(e["R"]): print("   %d %s" % (r, txt(v)))
    else: print(txt(e))
