"""C17: the result of a document appears all at once."""
import core
import docs
import session
import threads
from props import c02, c05

RULE = ("one run = one parser going through 1-3 documents (fed in pieces, closed once or several times, sometimes with a "
        "renderer that fails, reset) in one thread while another thread reads the result; a seeded scheduler decides "
        "after which executed lines the reader gets its turns. Every value read must be allowed at that moment: no text "
        "before close() starts, no text or the complete text while the document is being closed for the first time or has failed to, "
        "the complete text from then on until reset(). Non-trivial when the reader read while a document was being "
        "closed. Distinct counts distinct sequences of places at which the reader was let in.")
MEASURE = "distinct sequences of (file, function, line) at which the reader was let in"
REAL = ["html.parser", "gopher_render (all modules)", "real interpreter threads"]
STUB = ["choice of the running thread", "threading.Lock / RLock (cooperative)", "user-defined renderers that fail"]
ASSUME = ["switches happen between source lines or bytecodes of the package and at its lock operations"]
QUICK = (36000, 50)
THOROUGH = (300000, 600)
MEMORY = False
SHRINK = ("docs", "doc", "cuts", "closes")


def _plan(rng):
    x = rng.random()
    if x < 0.55:
        k = rng.choice([1, 3, 12, 40, 120])
        return {"picks": [[round(rng.random(), 6), 0 if rng.random() < 0.3 else round(rng.random(), 6)] for _ in range(k)]}
    if x < 0.85:
        return {"every": rng.choice([1, 2, 3, 5, 7, 11, 23, 50])}
    return {"rnd": [rng.randrange(1 << 30), rng.choice([0.5, 0.1, 0.02])]}


def gen(rng, tier, i):
    feats = rng.sample(docs.FEATURES, rng.randint(3, 10)) if rng.random() < 0.5 else None
    ds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = docs.any_doc(rng, feats, rng.choice([1, 2, 3]))
        if rng.random() < 0.2:
            d, _ = docs.damage_tags(rng, d, 2)
        if rng.random() < 0.2:
            d = d[:rng.randrange(len(d) + 1)]
        closes = []
        while rng.random() < 0.4 and len(closes) < 3:
            closes.append([rng.choice([1, 1, 2, 3, 5, 9]), rng.choice(["init", "render", "link"]), rng.choice(sorted(session.EXCEPTIONS))])
        ds.append({"doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 3]))],
                   "closes": closes, "again": rng.choice([0, 0, 0, 1, 2])})
    return {"cfg": session.random_cfg(rng), "docs": ds, "plan": _plan(rng), "opcodes": rng.random() < 0.15 and sum(len(x["doc"]) for x in ds) < 700,
            "hooked": sorted(rng.sample(["p", "a", "em", "ul", "li", "h1", "blockquote", "pre", "code", "div", "img", "strong"],
                                        rng.randint(1, 5)))}


def _want(spec, d):
    with session.StepMeter():
        def go():
            from gopher_render import GopherHTMLParser
            p = GopherHTMLParser(**c05._maps(spec, c05._Hook()))
            for c in session.chunks_of(d["doc"], d["cuts"]):
                p.feed(c)
            p.close()
            return p.parsed
        return session.outcome_of(go)


def _simulate(spec, wants, plan, record=False):
    from gopher_render import GopherHTMLParser
    session.subclasses()
    hook = c05._Hook()
    kw = c05._maps(spec, hook)
    st = {"p": None, "phase": None, "allowed": None, "done": False, "bad": None, "reads": {}, "seen": {}}

    def look():
        if st["p"] is None or st["bad"]:
            return
        got = st["p"].parsed
        st["reads"][st["phase"]] = st["reads"].get(st["phase"], 0) + 1
        if got not in st["allowed"]:
            st["bad"] = {"while": st["phase"], "read": got, "allowed": st["allowed"], "step": sch.step}
        elif len(st["allowed"]) > 1:
            k = "text" if got else "no text"
            st["seen"][k] = st["seen"].get(k, 0) + 1

    def phase(name, allowed):
        st["phase"], st["allowed"] = name, allowed
        look()

    def writer():
        try:
            p = GopherHTMLParser(**kw)
            st["phase"], st["allowed"] = "fresh", [""]
            st["p"] = p
            for n, d in enumerate(spec["docs"]):
                want = wants[n]
                phase("feeding", [""])
                for c in session.chunks_of(d["doc"], d["cuts"]):
                    p.feed(c)
                phase("closing", ["", want])
                done = False
                for at, what, exc in d["closes"]:
                    hook.left, hook.what, hook.fired, hook.exc = at, what, False, exc
                    try:
                        p.close()
                        done = True
                    except threads.SimHang:
                        raise
                    except BaseException:
                        if not hook.fired:
                            raise
                        fired.append(exc)
                    hook.what = None
                    if done:
                        break
                    phase("failed", ["", want])
                    st["phase"] = "closing"
                if not done:
                    p.close()
                phase("closed", [want])
                for _ in range(d["again"]):
                    st["phase"] = "closing again"
                    p.close()
                phase("closed", [want])
                st["phase"], st["allowed"] = "resetting", [want, ""]
                p.reset()
                phase("fresh", [""])
            return ["ok", None]
        finally:
            st["done"] = True

    def reader():
        while not st["done"]:
            look()
            sch.hand_over()
        return ["ok", None]
    fired = []
    bodies = [writer] if record else [writer, reader]
    sch = threads.Scheduler(bodies, [c02._pkg()], dict(plan, order=0), spec["opcodes"])
    out = sch.run()
    if record:
        return sch
    return {"outcomes": out, "bad": st["bad"], "reads": st["reads"], "seen": st["seen"], "fired": fired, "steps": sch.step,
            "deadlock": sch.deadlock, "sig": core.sha([t[3] for t in sch.trail if t[1] == 0]) if sch.trail else None}


def _alone(spec, wants):
    return _simulate(spec, wants, {"record": True}, record=True).step


def _resolve(spec, wants):
    d = _simulate(spec, wants, {"record": True}, record=True).recorded()[0]
    keys = sorted(d)
    at = []
    for fl, fo in spec["plan"]["picks"]:
        if keys:
            place = keys[int(fl * len(keys))]
            at.append([0, place, 1 + int(fo * d[place]), 1])
    return {"at": at}


def execute(spec):
    if not spec["docs"]:
        raise core.Invalid("nothing to do")
    wants = []
    for d in spec["docs"]:
        w = core.in_child(_want, spec, d)
        if w[0] != "ok":
            raise core.Invalid("the document alone is not rendered")
        wants.append(w[1])
    plan = spec["plan"]
    if "picks" in plan:
        plan = core.in_child(_resolve, spec, wants)
    sim = core.in_child(_simulate, spec, wants, plan)
    stats = {"documents": len(wants), "scheduler_steps": sim["steps"], "probe.bytecode_granularity": int(spec["opcodes"])}
    for k, v in sim["reads"].items():
        stats["probe.read_while_" + k.replace(" ", "_")] = v
    for k, v in sim["seen"].items():
        stats["probe.either_allowed_saw_" + k.replace(" ", "_")] = v
    for e in sim["fired"]:
        stats["fault.renderer_" + e] = stats.get("fault.renderer_" + e, 0) + 1
    stats["fault.preemption"] = sum(sim["reads"].values())
    if sim["deadlock"]:
        return core.bad("deadlock", {"outcomes": sim["outcomes"]}, stats, sim["sig"])
    if sim["bad"]:
        return core.bad("unfinished" if sim["bad"]["while"] in ("closing", "failed", "feeding") else "not-the-text", sim["bad"],
                        stats, sim["sig"])
    if sim["outcomes"][0] == ["hang"] and core.in_child(_alone, spec, wants) > c02.LONG:
        raise core.Invalid("too long to be scheduled step by step")
    if sim["outcomes"][0] != ["ok", None]:
        return core.bad("outcome:" + ":".join(map(str, sim["outcomes"][0])), {"outcomes": sim["outcomes"]}, stats, sim["sig"])
    return core.ok(stats, sim["sig"], trivial=not sim["reads"].get("closing"))
