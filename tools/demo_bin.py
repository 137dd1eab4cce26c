import json, os, subprocess, sys

BIN = os.environ["BIN"]


def action(intent, geometry, points, scalars=(), assemble=()):
    return {"intent": intent, "geometry": geometry, "scalars": list(scalars), "assemble": list(assemble),
            "points": [{"x": float(x), "y": float(y), "z": 0.0} for x, y in points]}


def describe(actions, quality=2.0, max_area=100.0):
    return {"name": "demo", "actions": actions, "params": {"quality": quality, "max_area": max_area}}


def run(doc, *args):
    """status, standard output"""
    json.dump(doc, open("in.json", "w"))
    r = subprocess.run([BIN, "-i", "in.json", *args], capture_output=True, text=True, timeout=60)
    return r.returncode, r.stdout


def mesh(doc):
    code, out = run(doc)
    if code != 0:
        return None
    d = json.loads(out)
    p = [(c["x"], c["y"]) for c in d["coordinates"]]
    return [(p[t["v1"]], p[t["v2"]], p[t["v3"]]) for t in d["triangles"]]


def area(ts):
    return sum(((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])) / 2 for a, b, c in ts)


def fault(text):
    print(text)
    sys.exit(1)


