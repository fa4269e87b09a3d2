"""C14: rendering never modifies the caller's configuration or shared defaults."""
import inspect

import core
import docs
import session

RULE = ("one run = 1-4 parsers built from shared configuration objects (renderer maps, settings, boxes, lists, theme modules, "
        "subclasses), each fed a document and closed, abandoned, reset and reused, interrupted by an exception at the n-th "
        "executed line of the package (during construction, feeding or closing), or failing in a renderer. A deep snapshot of "
        "every configuration object and of the default settings of every renderer class is compared with the one from before "
        "after every step. Non-trivial when a fault fired. Distinct counts distinct (configurations, documents, faults) digests.")
MEASURE = "distinct digests of (configurations, documents, fault positions)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the asynchronous exception (raised from a trace function at a chosen line)", "user-defined renderers that fail"]
ASSUME = ["observed are the objects' public attributes and contents"]
QUICK = (24000, 50)
THOROUGH = (250000, 600)
SHRINK = ("sessions", "doc", "cuts")


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    cfgs = [session.random_cfg(rng) for _ in range(rng.choice([1, 2]))]
    out = []
    for _ in range(n):
        d = docs.any_doc(rng, size=rng.choice([1, 2, 3, 4]))
        if rng.random() < 0.15:
            d, _c = docs.damage_tags(rng, d, 2)
        s = {"cfg": dict(rng.choice(cfgs)), "doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 3]))]}
        if rng.random() < 0.3:
            s["cfg"] = dict(s["cfg"], rend=rng.choice(session.RENDER_SETS), ext=rng.choice(["default", "none", "short", "custom"]))
        s["how"] = rng.choice(["close", "close", "abandon", "again", "line", "line", "line", "fail", "retry"])
        if s["how"] in ("line", "retry"):
            s.update(frac=round(rng.random(), 6), occ=round(rng.random(), 6) if rng.random() < 0.7 else -1,
                     exc=rng.choice(sorted(session.EXCEPTIONS)), where=rng.choice(["create", "feed", "close", "close"]))
        if s["how"] == "fail":
            s.update(at=rng.choice([1, 1, 2, 3, 5, 9]))
        out.append(s)
    return {"sessions": out}


# ---------------------------------------------------------------- snapshots

def _plain(o, depth=0):
    from gopher_render.rendering import Box, Renderer
    if o is None or isinstance(o, (str, int, float, bool, bytes)):
        return repr(o)
    if depth > 8:
        return "..."
    if isinstance(o, dict):
        return ["dict"] + [[_plain(k, depth + 1), _plain(v, depth + 1)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [_plain(v, depth + 1) for v in o]
    if isinstance(o, (set, frozenset)):
        return ["set"] + sorted(repr(_plain(v, depth + 1)) for v in o)
    if isinstance(o, type):
        return "class %s.%s" % (o.__module__, o.__qualname__)
    if isinstance(o, (Box, Renderer)):
        return [type(o).__name__] + [[k, _plain(v, depth + 1)] for k, v in sorted(vars(o).items()) if not k.startswith("_")]
    return "object %s" % type(o).__name__


def _classes():
    from gopher_render.rendering import Renderer
    seen, todo = [], [Renderer]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.append(c)
        todo.extend(c.__subclasses__())
    return seen


def _signature(fn):
    try:
        ps = inspect.signature(fn).parameters
    except (TypeError, ValueError):
        return []
    return [[n, _plain(p.default)] for n, p in ps.items() if p.default is not p.empty and not n.startswith("_")]


class Watch(object):
    """Everything that must stay as it is."""

    def __init__(self, args):
        from gopher_render import GopherHTMLParser
        from gopher_render.rendering import Box
        self.objects = {}
        for n, kw in enumerate(args):
            for k in ("renderers", "extracted_link_renderers", "box"):
                if k in kw:
                    self.objects["%s of configuration %d" % (k, n)] = kw[k]
        import importlib
        for t in session.THEMES:
            self.objects["theme " + t] = importlib.import_module("gopher_render.code_themes." + t).renderers
        self.classes = _classes()
        self.signatures = {"GopherHTMLParser": GopherHTMLParser.__init__, "Box": Box.__init__}
        self.first = self.take()

    def take(self, themes=True):
        out = {k: _plain(v) for k, v in self.objects.items() if themes or not k.startswith("theme")}
        for c in self.classes:
            out["settings of %s" % c.__qualname__] = _plain(dict(c.settings))
        for k, f in self.signatures.items():
            out["defaults of " + k] = _signature(f)
        return out

    def changed(self, themes):
        now = self.take(themes)
        return [[k, self.first[k], now[k]] for k in now if self.first[k] != now[k]]


class _Boom(object):
    def __init__(self, at):
        self.left = at

    def __call__(self, what, tag):
        self.left -= 1
        if self.left == 0:
            raise session.Injected("renderer fault")


def _count(s):
    """Position of the interruption among the lines executed without it."""
    from gopher_render import GopherHTMLParser
    f = session.LineFault((session.package_dir(),))
    f.places = {}
    kw = session.parser_args(s["cfg"])
    with session.StepMeter():
        if s["where"] == "create":
            with f:
                GopherHTMLParser(**kw)
        else:
            p = GopherHTMLParser(**kw)

            def feed():
                for c in session.chunks_of(s["doc"], s["cuts"]):
                    p.feed(c)
            if s["where"] == "feed":
                with f:
                    session.outcome_of(feed)
            else:
                session.outcome_of(feed)
                with f:
                    session.outcome_of(p.close)
    return session.pick_position(f, s["frac"], s["occ"])


def execute(spec):
    from gopher_render import GopherHTMLParser
    from gopher_render import rendering as R
    stats = {}
    if not spec["sessions"]:
        raise core.Invalid("nothing to do")
    ats = {}
    for n, s in enumerate(spec["sessions"]):
        if s["how"] in ("line", "retry"):
            ats[n] = core.in_child(_count, s)
    shared = {}
    booms = {}
    args = []
    for n, s in enumerate(spec["sessions"]):
        kw = session.parser_args(s["cfg"], shared)
        if s["how"] == "fail":
            boom = booms[n] = _Boom(s["at"])
            m = dict(kw.get("renderers", {}))
            for t, c in (("p", R.ParagraphRenderer), ("li", R.ListItemRenderer), ("em", R.EmRenderer), ("a", R.ExtractedLinkRenderer)):
                if t == "a":
                    x = dict(kw.get("extracted_link_renderers", {}))
                    x.setdefault("a", session.hook_class(c, boom))
                    kw["extracted_link_renderers"] = x
                else:
                    m[t] = (session.hook_class(c, boom), dict(margin=[1, 0, 1, 0]))
            kw["renderers"] = m
        args.append(kw)
    w = Watch(args)
    sig = core.sha(spec)
    fired = 0
    step = [""]

    def check(n, what):
        ch = w.changed(what in ("close", "again", "retry") or step[0] == "last")
        if ch:
            return core.bad("modified", {"session": n, "after": what, "changed": [[k, repr(a)[:1500], repr(b)[:1500]] for k, a, b in ch[:3]]}, stats, sig)

    for n, s in enumerate(spec["sessions"]):
        chunks = session.chunks_of(s["doc"], s["cuts"])
        kw = args[n]
        fault = None
        if n in ats:
            fault = session.LineFault((session.package_dir(),), ats[n], session.EXCEPTIONS[s["exc"]])
        p = None
        for what in ("create", "feed", "close"):
            if what == "close" and s["how"] == "abandon":
                stats["fault.abandoned"] = stats.get("fault.abandoned", 0) + 1
                fired += 1
                break
            pieces = [[kw]] if what == "create" else [[c] for c in chunks] if what == "feed" else [[]]
            for a in pieces:
                try:
                    if fault is not None and s["where"] == what:
                        with fault:
                            if what == "create":
                                p = GopherHTMLParser(**kw)
                            else:
                                getattr(p, what)(*a)
                    else:
                        with session.StepMeter():
                            if what == "create":
                                p = GopherHTMLParser(**kw)
                            else:
                                getattr(p, what)(*a)
                except session.SimHang:
                    raise core.Invalid("does not terminate")
                except BaseException:
                    if what == "create" and p is None and fault is None:
                        raise
                b = check(n, what)
                if b:
                    return b
            if p is None:
                break
        if fault is not None and fault.fired:
            fired += 1
            k = "fault.%s_in_%s" % (s["exc"], s["where"])
            stats[k] = stats.get(k, 0) + 1
        if n in booms and booms[n].left <= 0:
            fired += 1
            stats["fault.renderer_failed"] = stats.get("fault.renderer_failed", 0) + 1
        if p is not None and s["how"] in ("again", "retry"):
            if s["how"] == "again":
                p.reset()
            for fn in ([lambda c=c: p.feed(c) for c in chunks] if s["how"] == "again" else []) + [p.close, lambda: p.parsed]:
                session.outcome_of(fn)
            b = check(n, s["how"])
            if b:
                return b
        stats["snapshots"] = stats.get("snapshots", 0) + len(chunks) + 2
    step[0] = "last"
    return check(n, "the end") or core.ok(stats, sig, trivial=not fired)
