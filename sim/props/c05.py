"""C05: a failed close publishes nothing partial and can be retried."""
import core
import docs
import session

RULE = ("one run = one document, then a sequence of close() calls, each with or without a fault: a renderer that raises in "
        "its k-th callback (construction or rendering), or an exception raised at the n-th executed source line of the "
        "package's closing phase. Checked after every call: the fault reached the caller, the published text is empty or "
        "complete; after the last (fault-free) call it equals the fault-free text; further calls leave it. Non-trivial "
        "when at least one fault fired. Distinct counts distinct (document, configuration, fault sequence) digests.")
MEASURE = "distinct digests of (document, configuration, fault positions)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["user-defined renderers that fail", "the asynchronous exception (raised from a trace function at a chosen line)"]
ASSUME = ["faults strike after the tokenizer has handed over its remaining input (an interruption inside html.parser's own "
          "close may lose input, which is not this code's state)"]
QUICK = (13200, 50)
THOROUGH = (150000, 600)
SHRINK = ("faults", "doc", "cuts")

RAISED = sorted(session.EXCEPTIONS)
TAGS = ("p", "li", "ol > li", "em", "strong", "a", "img", "h1", "blockquote", "pre", "code", "ul", "ol", "div", "br", "span", "dd", "*")


def gen(rng, tier, i):
    d = docs.any_doc(rng) if rng.random() < 0.99 else docs.large_doc(rng)
    if rng.random() < 0.2:
        d = docs.truncate(rng, d)
    if rng.random() < 0.15:
        d, _ = docs.damage_tags(rng, d, 2)
    cfg = session.random_cfg(rng, rends=session.MORE_SETS)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if rng.random() < 0.97 else rng.choice([6, 12])):
        x = rng.random()
        if x < 0.45:
            faults.append({"kind": "render", "at": rng.choice([1, 1, 2, 3, 5, 8, 13]), "what": rng.choice(["render", "render", "init"]),
                           "exc": rng.choice(RAISED)})
        elif x < 0.6:
            faults.append({"kind": "link", "at": rng.choice([1, 1, 2, 3]), "exc": rng.choice(RAISED)})
        else:
            faults.append({"kind": "line", "frac": round(rng.random(), 6),
                           "occ": round(rng.random(), 6) if rng.random() < 0.7 else -1,
                           "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "SystemExit"])})
    return {"cfg": cfg, "doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 2]))],
            "faults": faults, "extra": rng.choice([1, 1, 2]) if rng.random() < 0.96 else rng.choice([4, 11]), "hooked": rng.sample(TAGS, rng.randint(1, 6)), **_more(rng, d)}


def _more(rng, d):
    """Sometimes the rest of a document arrives after it has been closed."""
    if rng.random() < 0.6 or not _complete(d):
        return {}
    return {"more": [docs.any_doc(rng, size=rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 1, 2]))]}


def _complete(d):
    """Nothing is open or held back at the end of the stream."""
    p = docs._Ref()
    try:
        p.feed(d)
    except Exception:
        return False
    if p.rawdata or p.cdata_elem:
        return False
    return docs.build_tree(p.events + [("d", "end")])[1][-1][1].tag is None


class _Hook(object):
    def __init__(self):
        self.left = 0
        self.what = None
        self.fired = False
        self.exc = "Injected"

    def __call__(self, what, tag):
        if self.what != what:
            return
        self.left -= 1
        if self.left == 0:
            self.fired = True
            self.what = None
            raise session.EXCEPTIONS[self.exc]("renderer fault")


def _failing(base, hook, kind="render"):
    class Failing(base):
        def __init__(self, tag, **kw):
            if kind == "render":
                hook("init", tag)
            super().__init__(tag, **kw)

        def render(self, content):
            hook(kind, self.tag)
            return super().render(content)
    return Failing


def _maps(spec, hook):
    """The configured maps with the classes of some entries replaced by
    failing subclasses, so that the fault-free output stays the same."""
    from gopher_render import rendering as R
    from gopher_render import GopherHTMLParser
    kw = session.parser_args(spec["cfg"])
    base = GopherHTMLParser().renderers
    rend = dict(kw.get("renderers", {}))
    for t in spec["hooked"]:
        if t == "*":
            continue
        r = rend.get(t, base.get(t))
        if r is None:
            continue
        if isinstance(r, tuple):
            c = r[0] if r[0] is not None else (base[t][0] if isinstance(base[t], tuple) else base[t])
            rend[t] = (_failing(c, hook), r[1])
        else:
            rend[t] = _failing(r, hook)
    ext = dict(kw.get("extracted_link_renderers", {}))
    for t, c in (("a", R.ExtractedLinkRenderer), ("img", R.ExtractedImageLinkRenderer)):
        r = ext.get(t, c)
        if isinstance(r, tuple):
            ext[t] = (_failing(r[0] or c, hook, "link"), r[1])
        else:
            ext[t] = _failing(r, hook, "link")
    kw["renderers"], kw["extracted_link_renderers"] = rend, ext
    return kw


def _fed(spec, hook):
    from gopher_render import GopherHTMLParser
    p = GopherHTMLParser(**_maps(spec, hook))
    for c in session.chunks_of(spec["doc"], spec["cuts"]):
        p.feed(c)
    return p


def _want(spec):
    with session.StepMeter():
        def go():
            p = _fed(spec, _Hook())
            p.close()
            return p.parsed
        return session.outcome_of(go)


def _whole(spec, upto):
    """A new parser that gets the document and what came later in one go."""
    from gopher_render import GopherHTMLParser
    with session.StepMeter():
        def go():
            p = GopherHTMLParser(**_maps(spec, _Hook()))
            p.feed(spec["doc"] + "".join(spec["more"][:upto]))
            p.close()
            return p.parsed
        return session.outcome_of(go)


def _flush(p):
    """What the base class does on closing, ahead of the faults."""
    from html.parser import HTMLParser
    HTMLParser.close(p)


def _position(spec, f):
    p = _fed(spec, _Hook())
    _flush(p)
    lf = session.LineFault((session.package_dir(),))
    lf.places = {}
    with lf:
        session.outcome_of(p.close)
    return session.pick_position(lf, f["frac"], f["occ"])


def execute(spec):
    want = core.in_child(_want, spec)
    if want[0] != "ok":
        raise core.Invalid("the fault-free close does not succeed")
    pos = {n: core.in_child(_position, spec, f) for n, f in enumerate(spec["faults"]) if f["kind"] == "line"}
    stats = {"close_calls": 0}

    def bump(k, v=1):
        stats[k] = stats.get(k, 0) + v
    sig = core.sha(spec)
    hook = _Hook()
    p = _fed(spec, hook)
    if p.parsed != "":
        return core.bad("published-early", {"parsed": p.parsed}, stats, sig)
    if pos:
        _flush(p)
    fired = 0
    for n, f in enumerate(spec["faults"]):
        bump("close_calls")
        raised = None
        done = False
        if f["kind"] == "line":
            lf = session.LineFault((session.package_dir(),), pos[n], session.EXCEPTIONS[f["exc"]])
            try:
                with lf:
                    p.close()
            except BaseException as e:
                raised = type(e).__name__
            hit = lf.fired is not None
            if hit:
                bump("fault.%s_at_line" % f["exc"])
                bump("probe.line_fault_in_" + lf.fired)
                expected = f["exc"]
        else:
            hook.left = f["at"]
            hook.what = "link" if f["kind"] == "link" else f["what"]
            hook.fired = False
            hook.exc = f["exc"]
            try:
                p.close()
            except BaseException as e:
                raised = type(e).__name__
            hit = hook.fired
            hook.what = None
            if hit:
                bump("fault.renderer_%s" % (f["kind"] if f["kind"] == "link" else f["what"]))
                expected = f["exc"]
                bump("fault.raised_" + f["exc"])
        if hit:
            fired += 1
            if raised != expected:
                return core.bad("fault-swallowed", {"fault": f, "raised": raised, "parsed": p.parsed}, stats, sig)
        elif raised is not None:
            return core.bad("raised:" + raised, {"fault": f, "call": n}, stats, sig)
        else:
            done = True
        allowed = [want[1]] if done else ["", want[1]]
        if p.parsed not in allowed:
            return core.bad("partial" if not done else "differs-after-failure",
                            {"fault": f, "call": n, "published": p.parsed, "want": want[1]}, stats, sig)
    for k in range(1 + spec["extra"]):
        bump("close_calls")
        with session.StepMeter():
            got = session.outcome_of(lambda: (p.close(), p.parsed)[1])
        if got != want:
            return core.bad("retry-differs" if k == 0 else "repeat-differs", {"call": k, "want": want, "got": got}, stats, sig)
    so_far = spec["doc"]
    for n, more in enumerate(spec.get("more", ())):
        if not _complete(so_far):
            break
        before = p.parsed
        whole = core.in_child(_whole, spec, n + 1)
        if whole[0] != "ok":
            break
        bump("fault.closed_between")
        bump("close_calls")
        p.feed(more)
        if p.parsed not in ("", before, whole[1]):
            return core.bad("published-early", {"parsed": p.parsed, "whole": whole}, stats, sig)
        with session.StepMeter():
            got = session.outcome_of(lambda: (p.close(), p.parsed)[1])
        if got != whole:
            return core.bad("rest-differs", {"want": whole, "got": got}, stats, sig)
        so_far += more
    return core.ok(stats, sig, trivial=not fired)
