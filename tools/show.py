"""Human-readable view of a replay file."""
import json, sys
def b(x): return b"".join(bytes([r % 256]) * min(r // 256, 60) + (b"~%d~" % (r // 256) if r // 256 > 60 else b"") for r in x)
def f(o):
    if isinstance(o, list):
        return repr(b(o))[1:] if o and all(isinstance(x, int) for x in o) else [f(x) for x in o]
    if isinstance(o, dict):
        return {k: f(v) for k, v in o.items()}
    return o
if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    print(r["why"])
    print(str({k: v for k, v in f(r["script"]).items() if k != "ops"})[:3000])
    for o in r["script"].get("ops", []):
        print("   ", str(f(o))[:300])
    print("trace")
    if r["trace"]:
        for n, e in enumerate(json.loads(r["trace"])["ev"]):
            print(n + 1, str(f(e))[:400])
