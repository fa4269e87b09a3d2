"""C04: reset() makes a parser as good as new."""
import core
import docs
import session

RULE = ("one run = one parser going through 1-3 cycles of (document abandoned or interrupted at some point, reset), then "
        "a last document rendered to the end. Interruption points: any cut of the stream, before/after closing, or an "
        "exception raised at the n-th executed source line of the package or of html.parser during feeding or closing. "
        "The last document must equal the rendering of a new parser. Non-trivial when at least one cycle left a document "
        "unfinished or was interrupted. Distinct counts distinct (interruption place, kind, documents) digests.")
MEASURE = "distinct digests of (documents, interruption points)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream and the asynchronous exception (raised from a trace function at a chosen line)"]
ASSUME = ["an interruption of reset() itself is outside the domain"]
QUICK = (14400, 50)
THOROUGH = (150000, 600)
SHRINK = ("cycles", "doc", "cuts")


def _session(rng, feats, open_end=False):
    d = docs.any_doc(rng, feats, rng.choice([1, 2, 3])) if rng.random() < 0.985 else docs.large_doc(rng)
    x = rng.random()
    if x < 0.15:
        d, _ = docs.damage_tags(rng, d, 2)
    elif x < 0.25:
        d, _ = docs.damage_bytes(rng, d, 2)
    elif x < 0.33 and open_end:
        # The end of the stream is inside an element of unparsed text
        d = d[:rng.randrange(len(d) + 1)] + rng.choice(["<script>", "<style>", "<textarea>", "<title>", "<SCRIPT src=x>",
                                                        "<!-- never", "<pre>", "<pre><code class='python'>", "<![CDATA[",
                                                        "<a href='x.txt"]) + rng.choice(["", "var a", " b < c "])
    return d


def gen(rng, tier, i):
    feats = rng.sample(docs.FEATURES, rng.randint(3, 10)) if rng.random() < 0.5 else None
    cycles = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        d = _session(rng, feats, True)
        c = {"doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 3]))]}
        x = rng.random()
        if x < 0.45:
            c["stop"] = "cut"
            c["cuts"] = sorted(c["cuts"] + [rng.randrange(len(d) + 1)])
            c["keep"] = rng.randint(1, len(c["cuts"]))      # pieces delivered
        elif x < 0.55:
            c["stop"] = rng.choice(["fed", "closed", "read"])
        else:
            c["stop"] = "fault"
            c["where"] = rng.choice(["feed", "close", "close"])
            c["frac"] = round(rng.random(), 6)
            c["occ"] = round(rng.random(), 6) if rng.random() < 0.7 else -1
            c["exc"] = rng.choice(sorted(session.EXCEPTIONS))
            c["retry"] = rng.random() < 0.2
        cycles.append(c)
    d = _session(rng, feats)
    if rng.random() < 0.12:
        # Two halves of something, in two documents
        a, b = rng.choice((("\r", "\nx"), ("\r", "\n<p>x</p>"), ("&", "amp; x"), ("&am", "p; x"), ("&#6", "5;x"), ("<", "p>x</p>"), ("</", "p>x"), ("<p", ">x</p>"),
                           ("<!-", "- x -->"), ("<!-- x -", "-> y"), ("<a href=", "x.txt>x</a>"), ("<a href='x", ".txt'>y</a>"), ("x", "y"), ("x ", " y"), ("x\n", "\ny"),
                           ("<pre>\n", "\nx"), ("<pre>", "\nx\n y"), ("\x1b", "[0mx"), ("\x1b[1", "mx"), ("x\ty", "\tz")))
        c = cycles[-1]
        for k in ("keep", "where", "frac", "occ", "exc", "retry"):
            c.pop(k, None)
        c["doc"] += a
        c["stop"] = rng.choice(["cut", "fed", "fed"])
        if c["stop"] == "cut":
            c["cuts"] = sorted(c["cuts"] + [len(c["doc"])])
            c["keep"] = len(c["cuts"])
        d = b + d
    unfed = rng.random() < 0.06             # the last document consists of no pieces at all
    if unfed:
        d = ""
    spin = rng.choice([2, 5, 12, 40, 130]) if rng.random() < 0.04 else 0     # that many small documents before
    return {"cfg": session.random_cfg(rng, rends=session.MORE_SETS), "cycles": cycles, "unfed": unfed, "spin": spin,
            "last": {"doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 3]))]},
            "twice": rng.random() < 0.2}


def _fresh(cfg, s, unfed=False):
    with session.StepMeter():
        return session.render(cfg, [] if unfed else session.chunks_of(s["doc"], s["cuts"]))


def _prefixes():
    import html.parser
    return (session.package_dir(), html.parser.__file__, html.parser._markupbase.__file__)


def _position(cfg, cycles, upto):
    """Position of the fault among the lines that the interrupted phase of
    cycle `upto` executes without a fault."""
    c = cycles[upto]
    p = session.make_parser(cfg)
    chunks = session.raw_chunks_of(c["doc"], c["cuts"])
    f = session.LineFault(_prefixes())
    f.places = {}

    def feeding():
        for x in chunks:
            p.feed(x)
    if c["where"] == "feed":
        with f:
            session.outcome_of(feeding)
    else:
        session.outcome_of(feeding)
        with f:
            session.outcome_of(p.close)
    return session.pick_position(f, c["frac"], c["occ"])


def execute(spec):
    cfg = spec["cfg"]
    want = core.in_child(_fresh, cfg, spec["last"], spec.get("unfed"))
    if want[0] == "hang":
        raise core.Invalid("does not terminate")
    at = {}
    for n, c in enumerate(spec["cycles"]):
        if c["stop"] == "fault":
            at[n] = core.in_child(_position, cfg, spec["cycles"], n)
    stats = {"cycles": len(spec["cycles"]), "probe.last_without_pieces": int(bool(spec.get("unfed")))}

    def bump(k, v=1):
        stats[k] = stats.get(k, 0) + v

    p = session.make_parser(cfg)
    interrupted = 0
    for n in range(spec.get("spin", 0)):
        session.outcome_of(lambda: p.feed("<p>x%d <a href=y>z</a>" % n))
        if n % 3:
            session.outcome_of(p.close)
        p.reset()
    stats["probe.documents_before"] = spec.get("spin", 0)
    for n, c in enumerate(spec["cycles"]):
        chunks = session.raw_chunks_of(c["doc"], c["cuts"])
        if c["stop"] == "cut":
            bump("fault.abandoned_mid_stream")
            interrupted += 1
            for x in chunks[:c["keep"]]:
                session.outcome_of(lambda: p.feed(x))
        elif c["stop"] in ("fed", "closed", "read"):
            bump("probe.abandoned_" + c["stop"])
            for x in chunks:
                session.outcome_of(lambda: p.feed(x))
            if c["stop"] != "fed":
                session.outcome_of(p.close)
            if c["stop"] == "read":
                p.parsed
        else:
            f = session.LineFault(_prefixes(), at[n], session.EXCEPTIONS[c["exc"]])
            try:
                if c["where"] == "feed":
                    with f:
                        for x in chunks:
                            p.feed(x)
                else:
                    for x in chunks:
                        p.feed(x)
                    with f:
                        p.close()
            except BaseException:
                pass
            if f.fired:
                interrupted += 1
                bump("fault.%s_in_%s" % (c["exc"], c["where"]))
                bump("probe.interrupted_in_" + f.fired.split(":")[0])
            if c["retry"]:
                session.outcome_of(p.close)
        p.reset()
    s = spec["last"]

    def go():
        for x in [] if spec.get("unfed") else session.chunks_of(s["doc"], s["cuts"]):
            p.feed(x)
        p.close()
        return p.parsed
    stale = p.parsed
    with session.StepMeter():
        got = session.outcome_of(go)
        again = got
        if spec["twice"]:
            p.reset()
            again = session.outcome_of(go)
    sig = core.sha(spec)
    if stale != "":
        return core.bad("stale-result", {"parsed_after_reset": stale}, stats, sig)
    if got != want or again != want:
        g = got if got != want else again
        kind = "differs" if g[0] == want[0] == "ok" else "outcome:%s/%s" % (want[0], g[0])
        return core.bad(kind, {"new_parser": want, "reset_parser": g}, stats, sig)
    return core.ok(stats, sig, trivial=not interrupted)
