"""C21: the work grows in proportion to the document."""
import core
import docs
import session

RULE = ("one run = three documents of n, 2n and 4n copies of the same few blocks (or of the same inline content inside one "
        "paragraph, list, quotation or preformatted block), each delivered whole, per copy, in pieces of one size, or per "
        "character, on a parser of the same configuration that may have rendered or abandoned another document before, and that "
        "may be closed twice or used for the document again. The steps of the interpreter (function starts and backward jumps "
        "of all Python code, standard library included) are counted exactly. From 2n to 4n copies they may grow by at most "
        "2.2 times the growth from n to 2n, plus a small constant. Non-trivial when at least 90 elements or list items were "
        "rendered in the largest document. Distinct counts distinct (copies, delivery, configuration, history) digests.")
MEASURE = "distinct digests of (copies, delivery, configuration, history)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream"]
ASSUME = ["copies with balanced tags, so that their number does not change the depth of nesting",
          "selectors without the general sibling combinator, whose cost is that of looking at every sibling",
          "work is counted in function starts and backward jumps, not inside the built-in functions"]
QUICK = (4500, 50)
THOROUGH = (60000, 600)
SHRINK = ("doc",)
RENDS = tuple(r for r in session.RENDER_SETS if r not in ("sel", "odd", "fault"))
HOLDERS = ("p", "p", "div", "blockquote", "em", "h2", "span", "li", "a", "strong", "td")
LISTS = ("ul", "ol", "ol", "dl")
FEATURES = tuple(f for f in docs.FEATURES if f not in ("unclosed", "mismatched", "cdata"))
STRAY = ("</x9>", "<!-- c -->", "<?x?>", "&amp;", "&", " < ", "<br>", "<img src=x.png>", "<x9></x9>", "</br>")


def gen(rng, tier, i):
    g = docs.Gen(rng, rng.sample(FEATURES, rng.randint(2, 9)))
    x = rng.random()
    before = after = ""
    if x < 0.55:
        copies = "".join(g.block() + g.sep() for _ in range(rng.choice([1, 1, 1, 2])))
        if rng.random() < 0.15:
            t = rng.choice(("div", "blockquote"))
            before, after = "<%s>" % t, "</%s>" % t
    elif x < 0.75:
        t = rng.choice(LISTS)
        item = rng.choice(("dt", "dd")) if t == "dl" else "li"
        copies = "<%s>%s</%s>" % (item, g.inline() if rng.random() < 0.7 else g.text(1, 4), item) + g.sep()
        if rng.random() < 0.15:
            copies += g.inline()
        before, after = "<%s%s>" % (t, rng.choice(["", "", " start=3", " reversed", " class=k1"]) if t == "ol" else ""), "</%s>" % t
    elif x < 0.9:
        t = rng.choice(HOLDERS)
        copies = g.inline(links=t != "a") + " "
        before, after = "<%s%s>" % (t, " href=x" if t == "a" else ""), "</%s>" % t
    else:
        copies = "".join(g.text(1, 4) + "\n" for _ in range(rng.choice([1, 2])))
        before, after = rng.choice((("<pre>", "</pre>"), ("<pre><code>", "</code></pre>"), ("", ""), ("<p>", "</p>")))
    if rng.random() < 0.15:
        copies += rng.choice(STRAY)
    spec = {"cfg": session.random_cfg(rng, rends=RENDS), "doc": copies, "open": before, "end": after,
            "n": rng.choice([8, 12, 16, 24] if len(copies) > 80 else [12, 24, 48, 64]),
            "deliver": rng.choice(["whole", "whole", "copy", "copy", "char", 7, 64, 1000]),
            "again": rng.choice(["", "", "", "", "close", "reset"])}
    if rng.random() < 0.2:
        b = g.block()
        spec["before"] = b[:rng.randrange(len(b) + 1)]
        spec["before_closed"] = rng.random() < 0.5
    return spec


def _chunks(spec, k):
    d, copies, e = spec["deliver"], spec["doc"], spec["end"]
    if d == "copy":
        return [spec["open"]] + [copies] * k + [e]
    s = spec["open"] + copies * k + e
    if d == "whole":
        return [s]
    size = 1 if d == "char" else d
    return [s[i:i + size] for i in range(0, len(s), size)]


def _work(spec, k):
    chunks = _chunks(spec, k)
    with session.StepMeter(8 * session.STEP_LIMIT) as m:
        p = session.make_parser(spec["cfg"])
        if "before" in spec:
            p.feed(spec["before"])
            if spec["before_closed"]:
                p.close()
            p.reset()
        for c in chunks:
            p.feed(c)
        p.close()
        if spec["again"] == "close":
            p.close()
        elif spec["again"] == "reset":
            p.reset()
            for c in chunks:
                p.feed(c)
            p.close()
    return m.count


def execute(spec):
    n = spec["n"]
    ev = docs.tokenize([spec["open"] + spec["doc"] * 2 + spec["end"]])
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    if docs.build_tree(ev)[2] != docs.build_tree(docs.tokenize([spec["open"] + spec["doc"] * 3 + spec["end"]]) or [])[2]:
        raise core.Invalid("copies inside copies")
    elements = sum(e[0] == "s" for e in ev) * 2 * n
    # The first rendering of its kind pays for what Python prepares once
    got = session.outcome_of(lambda: [_work(spec, k) for k in (2, n, 2 * n, 4 * n)][1:])
    if got[0] != "ok":
        raise core.Invalid("not rendered")              # C15's business
    a, b, c = got[1]
    grown, more = b - a, c - b
    stats = {"steps": a + b + c, "copies": 7 * n, "probe.per_character": int(spec["deliver"] == "char"),
             "probe.used_before": int("before" in spec), "probe.used_again": int(bool(spec["again"]))}
    sig = core.sha(spec)
    if more > LIMIT * grown + SLACK:
        return core.bad("work-out-of-proportion", {"copies": [n, 2 * n, 4 * n], "steps": [a, b, c],
                                                   "growth": round(more / max(1, grown), 3)}, stats, sig)
    stats["max.growth_permille"] = 1000 * more // max(1, grown)
    return core.ok(stats, sig, trivial=elements < 90)


LIMIT = 2.2
SLACK = 500
