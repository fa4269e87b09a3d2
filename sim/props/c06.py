"""C06: no received text is lost, repeated or reordered."""
import core
import docs
import session

RULE = ("one run = one document with distinct text alphabet, hit by stream faults (cut off, tags dropped / duplicated / "
        "swapped / renamed, bytes damaged), delivered in pieces into a text-preserving configuration. The sequence of text "
        "characters in the output (decoration and whitespace filtered out) must equal the sequence the standard tokenizer "
        "delivers, and words separated by white space within a block must stay separated. Non-trivial when the stream was damaged and at least 5 text characters arrived. Distinct counts distinct "
        "(damaged document, configuration) digests.")
MEASURE = "distinct digests of (damaged stream, delivery, configuration)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream (faults applied before delivery)"]
ASSUME = ["nesting at most 100 levels (50 with borders or line prefixes)", "configurations without capitalisation and without extracted-link entries (they "
          "repeat descriptions by design); link targets drawn from characters that text does not use"]
QUICK = (36000, 50)
THOROUGH = (400000, 600)
SHRINK = ("doc", "cuts")

RENDS = ("default", "full", "center", "right", "boxed", "ansi", "ansifull", "starts", "prefix") + tuple("theme:" + t for t in session.THEMES)

HERE = "\ue000"                  # where the mark goes
MARKS = "..!!--*_~|#=+:()[]'\"0127"


def gen(rng, tier, i):
    faults = {}
    deep = False
    x = rng.random()
    if x < 0.08:
        d = docs.markdown_doc(rng)
    elif x < 0.2:
        d = docs.deep_doc(rng, rng.choice([5, 20, 40, 70, 95]))
        deep = True
    else:
        g = docs.Gen(rng)
        g.plain_hrefs = True
        d = g.doc() if rng.random() < 0.97 else docs.large_doc(rng, g)
    x = rng.random()
    if x < 0.3:
        d, c = docs.damage_tags(rng, d, rng.choice([1, 1, 2, 3, 6]))
        faults.update(c)
    elif x < 0.4:
        d, c = docs.damage_bytes(rng, d, rng.choice([1, 1, 2]))
        faults.update(c)
    if rng.random() < 0.45:
        d = docs.truncate(rng, d)
        faults["cut_off"] = 1
    cfg = session.random_cfg(rng, rends=RENDS, exts=("none",))
    cfg["ext"] = "none"
    if deep and cfg["rend"] in ("boxed", "full", "prefix"):
        cfg["rend"] = "center"          # four bordered lines per level: very long outputs
    mark = None
    if not deep and rng.random() < 0.4:
        # a character that decoration may contain as well, in the text
        mark = rng.choice(MARKS)
        for _ in range(rng.choice([1, 3, 8, 20])):
            k = rng.randrange(len(d) + 1)
            if d.rfind("<", 0, k) <= d.rfind(">", 0, k):
                d = d[:k] + rng.choice([HERE, " " + HERE, " %s " % HERE, " %s " % (3 * HERE), HERE + " "]) + d[k:]
    return {"cfg": cfg, "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.3 else [], "faults": faults, "mark": mark}


def gaps(s, limits):
    """Numbers of the text characters before which there is white space."""
    seq = docs.text_chars([(c, i) for i, c in enumerate(s)])
    out, j = set(), 0
    for k in range(1, len(seq)):
        a, b = seq[k - 1][1], seq[k][1]
        while j < len(limits) and limits[j] <= a:
            j += 1
        if j < len(limits) and limits[j] <= b:
            continue
        if any(c in " \t\n\r\f" for c in s[a + 1:b]):
            out.add(k)
    return out


def _only_text(spec, doc):
    """Is the mark never used for decoration here? Judged by the document
    without the marks put into its text."""
    cfg, mark = spec["cfg"], spec.get("mark")
    plain = spec["doc"].replace(HERE, "x")
    a, b = docs.tokenize([plain]), docs.tokenize([doc])
    if a is None or b is None or [e for e in a if e[0] != "d"] != [e for e in b if e[0] != "d"]:
        return False
    got = session.render(cfg, [plain])
    return got[0] == "ok" and docs.strip_esc(got[1]).count(mark) == sum(e[1].count(mark) for e in a if e[0] == "d")


def execute(spec):
    cfg, mark = spec["cfg"], spec.get("mark")
    doc = spec["doc"].replace(HERE, mark or "")
    if mark:
        with session.StepMeter(5 * session.STEP_LIMIT):
            if HERE not in spec["doc"] or not _only_text(spec, doc):
                mark = None
    chunks = session.chunks_of(doc, spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    root, order, depth = docs.build_tree(ev)
    if depth > 100:
        raise core.Invalid("too deep")
    if session.multiplies(cfg, depth) and not spec.get("known"):
        raise core.Invalid("too much output")
    text = "".join(e[1] for e in ev if e[0] == "d")
    if "\x1b" in text:
        raise core.Invalid("terminal control characters in the text")
    for e in ev:
        if e[0] == "s" and e[1] in ("a", "img"):
            for k, v in e[2]:
                if k in ("href", "src", "title", "alt") and v and (docs.kept(v) or "\x1b" in v):
                    raise core.Invalid("decoration could be taken for text")
    want = docs.text_of(text, mark)
    with session.StepMeter(5 * session.STEP_LIMIT):
        got = session.render(cfg, chunks)
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    stats["text_characters"] = len(want)
    stats["probe.marks_followed"] = int(mark is not None)
    stats["probe.depth_over_20"] = int(depth > 20)
    stats["probe.unclosed_at_end"] = int(sum(1 for e in ev if e[0] == "s") != sum(1 for e in ev if e[0] == "e"))
    sig = core.sha(doc, spec["cuts"], sorted(cfg.items(), key=str))
    if got[0] != "ok":
        return core.bad("outcome:" + got[-1], {"got": got}, stats, sig)
    have = docs.text_of(docs.strip_esc(got[1]), mark)
    if have != want:
        n = 0
        while n < min(len(have), len(want)) and have[n] == want[n]:
            n += 1
        kind = "lost" if len(have) < len(want) else "repeated" if len(have) > len(want) else "changed"
        return core.bad(kind, {"at": n, "want": want[max(0, n - 20):n + 40], "have": have[max(0, n - 20):n + 40],
                               "output": got[1]}, stats, sig)
    # words that white space kept apart stay apart (across the limits of
    # blocks the layout decides)
    pos, limits = 0, []
    for e in ev:
        if e[0] == "d":
            pos += len(e[1])
        elif e[0] in "se" and e[1] not in docs.INLINE:
            limits.append(pos)
    apart, still = gaps(text, limits), gaps(docs.strip_esc(got[1]), [])
    stats["word_gaps"] = len(apart)
    if apart - still:
        n = min(apart - still)
        return core.bad("words-joined", {"at": n, "words": [want[max(0, n - 20):n], want[n:n + 20]], "output": got[1]}, stats, sig)
    return core.ok(stats, sig, trivial=len(want) < 5 or not spec["faults"])
