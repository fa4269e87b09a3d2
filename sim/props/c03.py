"""C03: a rendering is independent of the history of the process."""
import gc

import core
import docs
import session

RULE = ("one run = a history: 2-5 parsers, each working through 1-4 documents (create, feed pieces, close, reset, drop, "
        "collect garbage, fail, or render another document inside a renderer's callback), interleaved step by step by "
        "a seeded order, configuration objects shared or private. Every completed rendering is compared with the same "
        "document in a pristine process. Non-trivial when at least two renderings completed. Distinct counts distinct "
        "(history, documents, configurations) digests.")
MEASURE = "distinct digests of (order of operations, documents, configurations)"
REAL = ["html.parser", "gopher_render (all modules)", "CPython allocator and garbage collector"]
STUB = ["the application driving several parsers in one process"]
ASSUME = []
QUICK = (9600, 50)
THOROUGH = (100000, 600)
SHRINK = ("order", "slots", "sessions", "doc", "cuts")


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 3, 4, 5])
    base = session.random_cfg(rng, rends=session.MORE_SETS)
    small = rng.random() < 0.5
    feats = rng.sample(docs.FEATURES, rng.randint(3, 10)) if rng.random() < 0.6 else None
    slots = []
    steps = []
    for k in range(n):
        cfg = base if rng.random() < 0.4 else session.random_cfg(rng, rends=session.MORE_SETS)
        sess = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            d = docs.any_doc(rng, feats, rng.choice([1, 2]) if small else None)
            if rng.random() < 0.2:
                d = docs.truncate(rng, d)
            mode = rng.choice(["ok"] * 6 + ["abandon", "fail", "nest", "twice", "fail"])
            s = {"doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 2, 4]))], "mode": mode,
                 "after": rng.choice(["reset", "reset", "new", "drop"])}
            if mode == "fail":
                s["at"] = rng.randint(1, 6)
            if mode == "nest":
                s["inner"] = {"cfg": base if rng.random() < 0.5 else session.random_cfg(rng, rends=session.MORE_SETS),
                              "doc": docs.any_doc(rng, feats, 1)}
                s["at"] = rng.randint(1, 4)
            sess.append(s)
            steps.extend([k] * (len(s["cuts"]) + 4))
        slots.append({"cfg": cfg, "sessions": sess})
    rng.shuffle(steps)
    # a long past: more documents than any table has room for
    past = [rng.randrange(10 ** 6), rng.choice([150, 400, 1200])] if rng.random() < 0.03 else None
    return {"past": past, "slots": slots, "order": steps, "share": rng.random() < 0.7, "gc": rng.choice([0, 0, 0, 1, 1, 300, 3000]),
            "memory": rng.choice(["lifo", "lifo", "lifo", "fifo", "fresh"])}


def _past(seed, n, log):
    """Render many small documents of all kinds, with words, names, targets
    and rules of their own."""
    import random
    from gopher_render import GopherHTMLParser
    from gopher_render import rendering as R
    rng = random.Random(seed)
    g = docs.Gen(rng, None, 1)
    p = None
    for k in range(n):
        if p is None or rng.random() < 0.3:
            rules = {".k%d" % k: (R.AnsiEscapeCodeRenderer, dict(foreground_colour=k % 256, background_colour=(k % 256, k // 256, 7))),
                     "#id%d > em" % k: R.StrongRenderer, "[href='x%d.txt']" % k: (None, dict(template="{%d}" % 0))}
            p = GopherHTMLParser(renderers=rules, link_placement=rng.choice(["footer", "after_block", "inline"]))
        else:
            p.reset()
        p.feed("<p class='k%d' id='id%d'>%s <em>%s</em> <a href='x%d.txt' title='T%d'>%s</a></p>%s" % (
            k, k, g.text(1, 4), g.text(1, 2), k, k, g.text(1, 2), g.inline(3) if rng.random() < 0.3 else ""))
        p.close()
        log["past"] += 1


def _solo(cfg, doc):
    with session.StepMeter():
        return session.render(cfg, [doc])


class _Hook(object):
    """What the renderers of one parser do in their callbacks right now."""

    def __init__(self):
        self.action = None
        self.left = 0

    def __call__(self, what, tag):
        if self.action is None:
            return
        self.left -= 1
        if self.left == 0:
            a, self.action = self.action, None
            a()


def _hooks(hook):
    from gopher_render import rendering as R
    return {"p": session.hook_class(R.ParagraphRenderer, hook),
            "em": session.hook_class(R.EmRenderer, hook),
            "li": session.hook_class(R.ListItemRenderer, hook),
            "ol > li": session.hook_class(R.OrderedListItemRenderer, hook)}


def _solo_hooked(cfg, doc):
    def go():
        p = _make(cfg, None, _Hook())
        p.feed(doc)
        p.close()
        return p.parsed
    with session.StepMeter():
        return session.outcome_of(go)


def _make(cfg, shared, hook):
    from gopher_render import GopherHTMLParser
    kw = session.parser_args(cfg, shared)
    kw["renderers"] = dict(_hooks(hook), **kw.get("renderers", {}))
    return GopherHTMLParser(**kw)


def _program(slot, shared, results, log):
    """A generator: one step per yield."""
    parser = None
    hook = _Hook()
    for n, s in enumerate(slot["sessions"]):
        if parser is None:
            hook = _Hook()
            parser = _make(slot["cfg"], shared, hook)
            log["creations"] += 1
            yield
        for c in session.chunks_of(s["doc"], s["cuts"]):
            out = session.outcome_of(lambda: parser.feed(c))
            if out[0] != "ok":
                results.append((slot["cfg"], s["doc"], out, "feed"))
            yield
        if s["mode"] == "abandon":
            log["abandoned"] += 1
        else:
            if s["mode"] == "fail":
                def boom():
                    raise session.Injected("renderer fault")
                hook.action, hook.left = boom, s["at"]
            elif s["mode"] == "nest":
                inner = s["inner"]

                def nested():
                    out = session.render(inner["cfg"], [inner["doc"]], shared)
                    results.append((inner["cfg"], inner["doc"], out, "nested"))
                    log["nested"] += 1
                hook.action, hook.left = nested, s["at"]
            out = session.outcome_of(parser.close)
            failed = s["mode"] == "fail" and hook.action is None
            hook.action = None
            yield
            if failed:
                log["failed"] += 1
            else:
                if out[0] == "ok":
                    out = ["ok", parser.parsed]
                if s["mode"] == "twice" and out[0] == "ok":
                    again = session.outcome_of(parser.close)
                    yield
                    out = ["ok", parser.parsed] if again[0] == "ok" else again
                results.append((slot["cfg"], s["doc"], out, "hooked"))
            yield
        if s["after"] == "reset":
            parser.reset()
        elif s["after"] == "drop":
            parser = None
            gc.collect()
        else:
            parser = None
        yield


def execute(spec):
    shared = {} if spec["share"] else None
    results = []
    log = {"creations": 0, "abandoned": 0, "failed": 0, "nested": 0, "past": 0}
    # pristine references first: they are forked from this process before
    # anything has been rendered in it
    want = {}

    def ref(cfg, doc, how):
        key = core.sha(cfg, doc, how == "nested")
        if key not in want:
            want[key] = core.in_child(_solo if how == "nested" else _solo_hooked, cfg, doc)
        return key
    for sl in spec["slots"]:
        for s in sl["sessions"]:
            if s["mode"] != "abandon":
                ref(sl["cfg"], s["doc"], "hooked")
            if "inner" in s:
                ref(s["inner"]["cfg"], s["inner"]["doc"], "nested")
    if spec.get("past"):
        _past(spec["past"][0], spec["past"][1], log)
    progs = [_program(sl, shared, results, log) for sl in spec["slots"]]
    alive = list(range(len(progs)))
    steps = switches = 0
    last = None
    with session.StepMeter(12 * session.STEP_LIMIT, spec["gc"] if spec["gc"] > 1 else None):
        try:
            for k in list(spec["order"]) + [x for x in range(len(progs)) for _ in range(10000)]:
                if k not in alive:
                    if not alive:
                        break
                    continue
                steps += 1
                if last is not None and k != last:
                    switches += 1
                last = k
                if spec["gc"]:
                    gc.collect()
                try:
                    next(progs[k])
                except StopIteration:
                    alive.remove(k)
        except session.SimHang:
            return core.bad("hang", {"done": len(results)})
    stats = {"operations": steps, "fault.context_switch": switches, "fault.abandoned": log["abandoned"],
             "fault.renderer_failure": log["failed"], "probe.nested_rendering": log["nested"], "probe.documents_long_past": log["past"],
             "renderings_compared": len(results), "probe.shared_configuration": int(spec["share"]),
             "probe.aggressive_gc": int(spec["gc"] > 0)}
    sig = core.sha(spec)
    for cfg, doc, out, how in results:
        w = want[ref(cfg, doc, how)]
        if how == "feed":
            if w[0] == "ok":
                return core.bad("outcome:ok/feed-" + out[1 if len(out) > 1 else 0], {"doc": doc, "cfg": cfg, "got": out}, stats, sig)
            continue
        if w != out:
            kind = "differs" if w[0] == out[0] == "ok" else "outcome:%s/%s" % (w[0], out[0])
            return core.bad(kind, {"doc": doc, "cfg": cfg, "how": how, "pristine": w, "got": out}, stats, sig)
    return core.ok(stats, sig, trivial=len(results) < 2)
