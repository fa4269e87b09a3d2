"""Entry point: main.py PROPERTY            run the check
               main.py replay FILE           re-execute a recorded violation
               main.py setup                 compile the system call seams
               main.py selftest              determinism of the simulator"""
import importlib
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def module(prop):
    return importlib.import_module("props." + prop.lower())


def known_findings(prop):
    path = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def show(value):
    text = json.dumps(value, indent=1, ensure_ascii=False)
    print(text.encode("utf-8", "backslashreplace").decode("utf-8"))     # lone surrogates cannot be printed


def save_replay(prop, seed, tier, viol, spec, kind):
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s-%d.json" % (prop, seed, tier, viol["index"])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "index": viol["index"], "kind": kind, "spec": spec,
                   "original_spec": viol["spec"]}, f, indent=1)
        f.write("\n")
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = module(d["property"])
    prepare(mod)
    try:
        res = core.run_spec(mod, d["spec"])
    except core.Invalid as e:
        print("REPLAY property=%s outside the domain: %s" % (d["property"], e))
        return 0
    print("replaying property=%s seed=%s index=%s" % (d["property"], d["seed"], d["index"]))
    show(d["spec"])
    if res["ok"]:
        print("REPLAY property=%s: no violation" % d["property"])
        return 0
    print("REPLAY property=%s kind=%s" % (d["property"], res["kind"]))
    show(res["detail"])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def prepare(mod):
    """Bring this process into the pristine state every run starts from."""
    if hasattr(mod, "prepare"):
        mod.prepare()
    else:
        import markdown, cssselect, pygments         # noqa: F401,E401
        import threads
        threads.patch_locks()
        core.load_everything()


def check(prop):
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print("property=%s seed=%d tier=%s repo=%s" % (prop, seed, tier, core.REPO))
    sys.stdout.flush()
    t0 = time.time()
    mod = module(prop)
    try:
        prepare(mod)
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR: the code under test could not be loaded")
        return 2
    total, cap = mod.QUICK if tier == "quick" else mod.THOROUGH
    if "VERIF_RUNS" in os.environ:
        total = int(os.environ["VERIF_RUNS"])
    if "VERIF_CAP" in os.environ:
        cap = float(os.environ["VERIF_CAP"])
    extra = {}

    # known findings: run exactly the recorded cases
    listed = known_findings(prop)
    for k in listed:
        res = core.run_spec(mod, dict(k["spec"], known=True))
        if not res["ok"] and res["kind"] == k["kind"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: known finding no longer reproduces: %s" % k["what"])

    violations, errors, aggs = core.run_pool(mod, prop, seed, tier, total, cap)
    if violations:
        v = min(violations, key=lambda x: x["index"])
        print("violation in run %d (%s); minimising" % (v["index"], v["kind"]))
        sys.stdout.flush()
        spec, execs = core.minimise(mod, v["spec"], v["kind"],
                                    budget_s=float(os.environ.get("VERIF_MIN_S", "20")))
        path = save_replay(prop, seed, tier, v, spec, v["kind"])
        # the replay must fail the same way in a fresh process
        again = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "replay", path],
                               capture_output=True, text=True)
        same = again.returncode == 1 and "kind=%s" % v["kind"] in again.stdout
        if not same:
            # fall back to the unminimised run
            path = save_replay(prop, seed, tier, v, v["spec"], v["kind"])
            again = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "replay", path],
                                   capture_output=True, text=True)
            same = again.returncode == 1 and "kind=%s" % v["kind"] in again.stdout
        print(again.stdout[-6000:] if len(again.stdout) > 6000 else again.stdout)
        core.write_evidence(prop, tier, seed, mod, aggs, time.time() - t0, len(violations), extra)
        if not same:
            show(v["detail"])
            print("ERROR: the violation did not replay; not reported")
            print(again.stderr[-2000:])
            return 2
        print("minimised with %d executions" % execs)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    cov = core.write_evidence(prop, tier, seed, mod, aggs, time.time() - t0, 0, extra)
    if errors:
        print("ERROR: %d worker error(s)" % len(errors))
        print(errors[0][-4000:])
        return 2
    if cov["evaluations"] == 0:
        print("ERROR: nothing was explored")
        return 2
    print("runs=%d distinct=%d outside_domain=%d wall=%.1fs" % (
        cov["evaluations"], cov["distinct_nontrivial"], cov["runs_outside_domain"], time.time() - t0))
    print("faults=%s" % json.dumps(cov["faults_injected"]))
    print("probes=%s" % json.dumps(cov["probes_hit"]))
    print("HELD property=%s" % prop)
    return 0


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a == ["setup"]:
        import clisim
        clisim.build()
        module("C13").prepare()
        print("built")
        return 0
    if len(a) >= 1 and a[0] == "selftest":
        import selftest
        return selftest.main(a[1:])
    if len(a) == 1 and re.match(r"^C\d\d$", a[0]):
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
