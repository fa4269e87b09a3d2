"""C02: renderings in several threads do not interact."""
import os

import core
import docs
import session
import threads

RULE = ("one run = 2-4 sessions (document, configuration, delivery) in real threads under a seeded scheduler that owns "
        "every executed line (some runs: every bytecode) of the package; configuration objects shared or private; "
        "schedules: 1-6 preemptions at chosen lines (every executed line gets an equal share), round robin every k, "
        "random. Non-trivial when at least one switch happened inside library code. Distinct counts distinct "
        "interleavings.")
MEASURE = "distinct sequences of (from thread, to thread, file, function, line) at context switches"
REAL = ["html.parser", "gopher_render (all modules)", "real interpreter threads"]
STUB = ["choice of the running thread", "threading.Lock / RLock (cooperative)"]
ASSUME = ["switches happen between source lines or bytecodes of the package and at its lock operations; C code of the "
          "interpreter is atomic, as under the GIL"]
MEMORY = False
QUICK = (18000, 52)
THOROUGH = (100000, 700)
CPU = 120
SHRINK = ("abs", "at", "doc", "cuts")

RENDS = session.RENDER_SETS


def prepare():
    core.load_target_path()
    import markdown, cssselect, pygments  # noqa
    threads.patch_locks()
    core.load_everything()


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 2, 3, 3, 4])
    opcodes = rng.random() < 0.15
    sessions = []
    base = session.random_cfg(rng)
    if rng.random() < 0.3:                # coloured text: the most state
        base["rend"] = rng.choice(["ansi", "ansifull"])
    same = rng.random() < 0.6
    doc0 = None
    feats = None
    if rng.random() < 0.6:
        feats = rng.sample(docs.FEATURES, rng.randint(3, 9))
    size = 1 if opcodes else rng.choice([1, 1, 1, 1, 2, 3])
    for k in range(n):
        d = docs.any_doc(rng, features=feats, size=size)
        if doc0 is not None and rng.random() < 0.2:
            d = doc0
        doc0 = d
        cfg = base if same and rng.random() < 0.7 else session.random_cfg(rng)
        sessions.append({"cfg": cfg, "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.2 else []})
    plans = [_picks(rng, n) for _ in range(rng.choice([20, 40, 60]) if size == 1 else 12)]
    if not opcodes:
        plans.append(_spread(rng, n))
    return {"sessions": sessions, "share": rng.random() < 0.7, "opcodes": opcodes, "plans": plans,
            "batch": rng.choice([1, 4, 10, 10])}


LONG = 700000                   # steps without any preemption; the limit is 3 million


def _picks(rng, n):
    """Preemptions at chosen places: every executed line gets its share,
    however rarely it is executed. [thread, which line, which of its
    executions, who goes on, in the same function as the pick before]"""
    k = rng.choice([1, 1, 1, 1, 1, 2, 2, 2, 3, 6])
    picks = [[rng.randrange(n), round(rng.random(), 6), 0 if rng.random() < 0.3 else round(rng.random(), 6),
              rng.randrange(64), rng.random() < 0.6] for _ in range(k)]
    return {"order": picks[0][0], "picks": picks}


def _spread(rng, n):
    plan = {"order": rng.randrange(n), "skip": rng.choice([0, 0, 1000, 3000, 10000])}
    if rng.random() < 0.5:
        plan["every"] = rng.choice([1, 2, 3, 5, 7, 11, 23, 50, 101])
    else:
        plan["rnd"] = [rng.randrange(1 << 30), rng.choice([0.5, 0.1, 0.02, 0.005])]
    return plan


def _solo(s):
    with session.StepMeter():
        return session.render(s["cfg"], [s["doc"]])


def _pkg():
    import gopher_render
    return os.path.dirname(os.path.abspath(gopher_render.__file__)) + os.sep


def _simulate(spec, plan, scheduler=False):
    """Executed in a pristine process. Returns outcomes and the trail."""
    shared = {} if spec["share"] else None
    bodies = []
    for s in spec["sessions"]:
        if shared is not None:
            session.parser_args(s["cfg"], shared)      # build the shared objects up front
        session.subclasses()

        def body(s=s):
            return session.render(s["cfg"], session.chunks_of(s["doc"], s["cuts"]), shared)
        bodies.append(body)
    sch = threads.Scheduler(bodies, [_pkg()], plan, spec["opcodes"])
    out = sch.run()
    if scheduler:
        return sch
    files = {}
    for t in sch.trail:
        files[t[3][0]] = files.get(t[3][0], 0) + 1
    return {"outcomes": out, "trail": sch.trail[:400], "switches": len(sch.trail), "steps": sch.step, "files": files,
            "deadlock": sch.deadlock, "sig": core.sha([t[1:] for t in sch.trail]) if sch.trail else None}


def _simulate_all(spec, plans):
    """The first in a pristine process, the others in the one it leaves."""
    return [_simulate(spec, p) for p in plans]


def _resolve(spec):
    """Executed in a pristine process: the steps of each thread at which the
    chosen lines are executed, from a run in which nobody is preempted."""
    sch = _simulate(spec, {"order": 0, "record": True}, scheduler=True)
    places = [(sorted(d), d) for d in sch.recorded()]
    out = []
    for p in spec["plans"]:
        if "picks" not in p:
            out.append(p)
            continue
        at = []
        func = None
        for t, fl, fo, to, near in p["picks"]:
            keys, d = places[t % len(places)]
            if near and func:
                keys = [k for k in keys if k.startswith(func)] or keys
            if keys:
                place = keys[int(fl * len(keys))]
                func = place.rsplit(":", 1)[0] + ":"
                at.append([t % len(places), place, 1 + int(fo * d[place]), to])
        out.append({"order": p["order"], "at": at})
    return out


def _plans(spec):
    if any("picks" in p for p in spec["plans"]):
        return core.in_child(_resolve, spec)
    return spec["plans"]


def _results(spec):
    plans = _plans(spec)
    b = spec.get("batch", 1)
    for k in range(0, len(plans), b):
        for j, sim in enumerate(core.in_child(_simulate_all, spec, plans[k:k + b])):
            yield k + j, sim


def _steps(spec):
    return _simulate(spec, {"order": 0, "record": True}, scheduler=True).step


def execute(spec):
    if not spec["sessions"] or not spec["plans"]:
        raise core.Invalid("no sessions")
    want = [core.in_child(_solo, s) for s in spec["sessions"]]
    stats = {"sessions": len(want), "probe.shared_configuration": int(spec["share"]),
             "probe.bytecode_granularity": int(spec["opcodes"]), "schedules": 0}
    sigs = []
    for n, sim in _results(spec):
        sigs.append(sim["sig"])
        stats["schedules"] += 1
        for k, v in (("scheduler_steps", sim["steps"]), ("fault.preemption", sim["switches"])):
            stats[k] = stats.get(k, 0) + v
        for f, v in sim["files"].items():
            stats["probe.switch_in_" + f] = stats.get("probe.switch_in_" + f, 0) + v
        if sim["deadlock"]:
            return core.bad("deadlock", {"plan": n, "outcomes": sim["outcomes"], "trail": sim["trail"][-20:]},
                            stats, sigs)
        for k, (w, g) in enumerate(zip(want, sim["outcomes"])):
            if w != g:
                if g == ["hang"] and core.in_child(_steps, spec) > LONG:
                    raise core.Invalid("too long to be scheduled step by step")
                kind = "differs" if w[0] == g[0] == "ok" else "outcome:%s/%s" % (w[0], g[0])
                return core.bad(kind, {"plan": n, "session": k, "alone": w, "concurrent": g,
                                       "trail": sim["trail"][:60]}, stats, sigs)
    return core.ok(stats, [x for x in sigs if x], trivial=not stats["fault.preemption"])


def shrink(spec):
    """One schedule, made explicit; then fewer sessions."""
    if len(spec["plans"]) > 1:
        for p in spec["plans"]:
            yield dict(spec, plans=[p], batch=1)
        b = spec.get("batch", 1)
        for k in range(0, len(spec["plans"]), b):
            if b > 1 and len(spec["plans"]) > b:
                yield dict(spec, plans=spec["plans"][k:k + b])
        for k in range(len(spec["plans"])):
            yield dict(spec, plans=spec["plans"][:k] + spec["plans"][k + 1:])
    plan = spec["plans"][0]
    if "picks" in plan:
        yield dict(spec, plans=_plans(spec))
    elif "at" in plan:
        for k in range(len(plan["at"])):
            yield dict(spec, plans=[dict(plan, at=plan["at"][:k] + plan["at"][k + 1:])])
    elif not plan.get("direct") and len(spec["plans"]) == 1:
        try:
            sim = core.in_child(lambda: _simulate(spec, _plans(spec)[0]))
        except Exception:
            sim = None
        if sim and "at" not in plan and sim["switches"] <= 400:
            # the recorded switches, by thread number
            yield dict(spec, plans=[{"order": plan["order"], "abs": [[t[0], t[2]] for t in sim["trail"]], "direct": True}])
    for k in range(len(spec["sessions"])):
        if len(spec["sessions"]) > 2:
            yield dict(spec, sessions=spec["sessions"][:k] + spec["sessions"][k + 1:])
