"""Determinism of the simulator: the same seed gives the same runs, whatever
the number of workers and the hash seed of this process."""
import json
import os
import subprocess
import sys

import core

ALL = ["C%02d" % n for n in range(1, 22)]


def digest(prop, seed, runs, workers, hashseed):
    code = ("import sys; sys.path.insert(0, %r)\n"
            "import core, main, json\n"
            "mod = main.module(%r)\n"
            "main.prepare(mod)\n"
            "v, e, aggs = core.run_pool(mod, %r, %d, 'quick', %d, 600, %d)\n"
            "t = sorted(x for a in aggs for x in a['trace'])\n"
            "print(json.dumps([len(v), len(e), len(t), core.sha(t), t]))\n" % (core.HERE, prop, prop, seed, runs, workers))
    path = os.path.join(core.VERIF, "build", "selftest-%s-%d.py" % (prop, os.getpid()))
    with open(path, "w") as f:
        f.write(code)
    try:
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        r = subprocess.run([sys.executable, "-B", path], capture_output=True, text=True, env=env)
    finally:
        os.unlink(path)
    if r.returncode:
        return ["failed", r.stderr[-2000:]]
    return json.loads(r.stdout.splitlines()[-1])


def main(props):
    bad = 0
    for p in props or ALL:
        runs = {"C02": 60, "C11": 40, "C12": 40, "C13": 8, "C05": 100, "C16": 100, "C17": 60, "C18": 60}.get(p, 200)
        a = digest(p, 77, runs, 8, "0")
        b = digest(p, 77, runs, 3, "0")
        c = digest(p, 77, runs, 8, "12345")
        same = a == b == c and a[0] == a[1] == 0
        print("%s runs=%s digest=%s %s" % (p, a[2] if same else "?", a[3] if same else "?", "same" if same else "DIFFERS"))
        if not same:
            bad += 1
            if a[0] == "failed":
                print(a[1])
            elif len(a) == 5:
                for x, y in ((a, b), (a, c)):
                    if len(y) == 5:
                        print([t for t in zip(x[4], y[4]) if t[0] != t[1]][:3], x[:3], y[:3])
        sys.stdout.flush()
    print("SELFTEST %s" % ("failed" if bad else "passed"))
    return 1 if bad else 0
