"""C15: any stream of text is rendered to completion."""
import core
import docs
import session

RULE = ("one run = one document (generated HTML, deep nesting, raw character soup, markup soup) after a sequence of stream "
        "faults (bytes flipped / dropped / inserted / repeated, tags damaged, cut off), delivered in pieces to some "
        "configuration; feeding and closing must raise nothing and stay within the step budget. Non-trivial when a fault "
        "was injected. Distinct counts distinct (stream, configuration) digests.")
MEASURE = "distinct digests of (damaged stream, delivery, configuration)"
REAL = ["html.parser", "gopher_render (all modules)", "cssselect"]
STUB = ["the stream (faults applied before delivery)"]
ASSUME = ["streams that html.parser itself rejects are outside the domain", "nesting at most 100 levels (50 with borders or line prefixes, 12 with renderer settings that indent paragraphs: beyond is the known finding)",
          "work is counted in interpreter steps (function starts and backward jumps)"]
QUICK = (42000, 50)
THOROUGH = (500000, 600)
SHRINK = ("doc", "cuts")
CPU = 25                  # such a run takes a second or two at the very most
HANG = True

SOUP = ["<a", "<a ", "href", "href=", "href='x'", ">", "</a>", "<p>", "</p>", "<li>", "<ol>", "</ol>", "<pre>", "</pre>", "<img ", "src=", "alt", "/>", "<", "</",
        "&", "&amp", "&#", "&#x", ";", "\"", "'", "=", "<!--", "-->", "<!", "<?", "<br>", "</br>", "<div class", "class=", "id=", "title", " ", "\n", "\t", "{}", "{0}",
        "{", "}", "x", "a b", "\x1b[", "\x1b[31m", "m", "<em>", "</em>", "<h1>", "<h9>", "<script>", "</script>", "<style>", "<textarea>", "<title>", "<![CDATA[", "]]>",
        "gopher://", "http://[", "//", ":", "[::1", "%", "-", "--", ".", "1", "é", "\u0301", "\u200b", "\xad", "\xa0", "漢", "\0", "\r", "\x0c", "\u2028", "<dl>", "<dt>", "<dd>",
        "<blockquote>", "<ul>", "<table>", "<x-y:z>", "<A HREF=", "<code>", "</code>", "<span class='k'>", "</span>", "I\u0307", "\ud800", "\udc80", "ß", "ﬁ"]


def gen(rng, tier, i):
    faults = {}
    deep = False
    x = rng.random()
    if x < 0.15:
        d = "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 60)))
        faults["markup_soup"] = 1
    elif x < 0.22:
        d = "".join(rng.choice(docs._FLIPS + "abc <p>li") for _ in range(rng.randint(1, 80)))
        faults["character_soup"] = 1
    elif x < 0.32:
        d = docs.deep_doc(rng, rng.choice([10, 40, 70, 98]))
        deep = True
    else:
        d = docs.any_doc(rng) if rng.random() < 0.98 else docs.large_doc(rng)
        if rng.random() < 0.2:
            k = rng.randrange(len(d) + 1)
            d = d[:k] + "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 10))) + d[k:]
            faults["markup_soup"] = 1
    if rng.random() < 0.6:
        d, c = docs.damage_bytes(rng, d, rng.choice([1, 1, 2, 4, 10]))
        faults.update(c)
    if rng.random() < 0.3:
        d, c = docs.damage_tags(rng, d, rng.choice([1, 2, 5]))
        faults.update(c)
    if rng.random() < 0.3:
        d, c = docs.lose_values(rng, d, rng.choice([1, 3, 20]))
        faults.update(c)
    if rng.random() < 0.35:
        d = docs.truncate(rng, d)
        faults["cut_off"] = 1
    cfg = session.random_cfg(rng)
    if cfg["rend"] in ("boxed", "nones") and d.count("<") > 60:
        cfg["rend"] = "default"
    if deep and cfg["rend"] in session.INDENTED + ("prefix",) and rng.random() < 0.9:
        cfg["rend"] = "default"
    if rng.random() < 0.1 and cfg["rend"] not in session.INDENTED:
        cfg["box"] = {"width": rng.choice([1, 2, 5, 10, 20]), "margin": [0, rng.randrange(3), 0, rng.randrange(6)]}
    return {"cfg": cfg, "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.3 else [], "faults": faults}


def execute(spec):
    doc, cfg = spec["doc"], spec["cfg"]
    chunks = session.chunks_of(doc, spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    root, order, depth = docs.build_tree(ev)
    if depth > 100:
        raise core.Invalid("too deep")
    if session.multiplies(cfg, depth) and not spec.get("known"):
        raise core.Invalid("too much output")
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    stats["characters"] = len(doc)
    sig = core.sha(doc, spec["cuts"], sorted(cfg.items(), key=str))
    meter = session.StepMeter(8 * session.STEP_LIMIT)
    trace = []

    def go():
        p = session.make_parser(cfg)
        trace.append("feed")
        for c in chunks:
            p.feed(c)
        trace.append("close")
        p.close()
        trace.append("read")
        return p.parsed
    detail = None
    with meter:
        try:
            text = go()
        except session.SimHang:
            return core.bad("hang", {"steps": meter.count, "phase": trace[-1:]}, stats, sig)
        except Exception as e:
            detail = {"raised": "%s: %s" % (type(e).__name__, e), "phase": trace[-1] if trace else "create"}
            kind = "raised:" + type(e).__name__
    if detail:
        return core.bad(kind, detail, stats, sig)
    if not isinstance(text, str):
        return core.bad("no-text", {"parsed": repr(text)}, stats, sig)
    stats["interpreter_steps"] = meter.count
    stats["max.interpreter_steps"] = meter.count
    stats["probe.depth_over_50"] = int(depth > 50)
    return core.ok(stats, sig, trivial=not spec["faults"])
