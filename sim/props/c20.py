"""C20: preformatted text arrives line for line."""
import re

import core
import docs
import session

RULE = ("one run = one document with preformatted blocks (code with spans, blank lines, runs of spaces, tabs, every kind of line "
        "ending) among other blocks, cut off or damaged in transit, delivered in pieces, on a parser that may have rendered or "
        "abandoned another document before, with pieces of another document going to another parser in between. Each "
        "preformatted block must appear in the output, in order, as the same lines behind one common prefix, apart from "
        "white space at the end of lines. Non-trivial when a block with at least two lines was checked. Distinct counts "
        "distinct (stream, delivery, configuration, history) digests.")
MEASURE = "distinct digests of (stream, delivery, configuration, other sessions)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream and the other sessions"]
ASSUME = ["preformatted blocks at the top level or inside div and blockquote elements (paragraphs and list items wrap what they "
          "contain), with text, code and inline elements in them and a matching end tag or the end of the stream",
          "no borders at the right-hand side"]
QUICK = (36000, 50)
THOROUGH = (300000, 600)
SHRINK = ("doc", "cuts", "before", "other_doc")
RENDS = ("default", "full", "center", "right", "headers", "subs", "starts", "prefix", "ansi", "ansifull") + \
    tuple("theme:" + t for t in session.THEMES)
OUTER = ("div", "blockquote")
INNER = ("code", "span", "x1", "kbd", "sub")
DECORATED = ("em", "strong", "i", "b", "u", "ins", "s", "del")
SEPARATORS = re.compile("[\v\f\x1c\x1d\x1e\x85\u2028\u2029]")


def _pre(rng, g):
    lines = []
    deco = 0.2 if rng.random() < 0.15 else 0
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        x = rng.random()
        if x < 0.2:
            lines.append(rng.choice(["", "", " ", "\t", "    "]))
            continue
        parts = []
        for _ in range(rng.randint(1, 4)):
            w = g.word()
            x = rng.random()
            if x < 0.05:
                t = rng.choice(INNER[2:])
                w = "<%s>%s</%s>" % (t, w, t)
            elif x < 0.05 + deco:
                t = rng.choice(DECORATED)
                w = "<%s>%s</%s>" % (t, w, t)
            elif x < 0.3:
                w = "<span class='%s'>%s</span>" % (rng.choice(("k", "s", "nf", "c1", "mi", "o", "k1", "x")), w)
            parts.append(w)
        s = parts[0]
        for w in parts[1:]:
            s += rng.choice([" ", "  ", "\t", "     ", ""]) + w
        lines.append(rng.choice(["", "", " ", "    ", "\t", "  \t"]) + s + rng.choice(["", "", " ", "  "]))
    x = rng.random()
    if x < 0.15:
        # all of it moved to the right
        by = rng.choice([" ", "    ", "\t"])
        lines = [by + l if l or x < 0.05 else l for l in lines]
    elif x < 0.22:
        lines = [rng.choice(["# ", "> ", "* ", "| ", "- ", "1. ", "` "]) + l for l in lines]
    elif x < 0.28:
        lines += [rng.choice(lines) for _ in range(rng.choice([1, 2, 3]))]
    nl = rng.choice(["\n", "\n", "\n", "\r\n", "\r"])
    body = nl.join(lines)
    if rng.random() < 0.3:
        body = nl * rng.choice([1, 1, 2]) + body
    if rng.random() < 0.5:
        body += nl * rng.choice([1, 1, 2])
    if rng.random() < 0.25 and len(lines) > 1:
        k = rng.randrange(len(body))
        if rng.random() < 0.5:                  # after white space
            k = rng.choice([m.end() for m in re.finditer(r"\s", body)] or [k])
        if body.rfind("<", 0, k) <= body.rfind(">", 0, k):
            body = body[:k] + rng.choice(("<!-- c -->", "<!---->", "<?x?>")) + body[k:]
    x = rng.random()
    if x < 0.35:
        body = "<code%s>%s</code>" % (rng.choice(["", " class='language-x'"]), body)
    elif x < 0.6:
        # code, and preformatted text around it
        cut = [m.start() for m in re.finditer(r"\s", body) if body.rfind("<", 0, m.start()) <= body.rfind(">", 0, m.start())]
        if len(cut) > 1:
            i, j = sorted(rng.sample(cut, 2))
            if rng.random() < 0.5:
                i = 0
            part = body[i:j]
            if part.count("<") == 2 * part.count("</") + part.count("<!") + part.count("<?"):
                body = body[:i] + "<code>" + part + "</code>" + body[j:]
    s = "<pre>%s</pre>" % body
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        t = rng.choice(OUTER)
        s = "<%s%s>%s%s%s</%s>" % (t, rng.choice(["", " class=highlight"]), rng.choice(["", "\n", "<p>%s</p>" % g.text(1, 3)]), s,
                                   rng.choice(["", "\n", "<p>%s</p>" % g.text(1, 3), s]), t)
    return s


def _doc(rng):
    g = docs.Gen(rng, rng.sample(docs.FEATURES, rng.randint(2, 8)))
    out = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        out.append(_pre(rng, g) if rng.random() < 0.65 else g.block())
        out.append(g.sep())
    return "".join(out)


def gen(rng, tier, i):
    d = _doc(rng)
    faults = {}
    x = rng.random()
    if x < 0.15:
        d, faults = docs.damage_tags(rng, d, rng.choice([1, 1, 2]))
    elif x < 0.25:
        d, faults = docs.damage_bytes(rng, d, rng.choice([1, 1, 2]))
    if rng.random() < 0.3:
        d = docs.truncate(rng, d)
        faults = dict(faults, cut_off=1)
    spec = {"cfg": session.random_cfg(rng, rends=RENDS), "doc": d,
            "cuts": docs.random_cuts(rng, d) if rng.random() < 0.6 else [], "faults": faults}
    if rng.random() < 0.3:
        b = _doc(rng)
        spec["before"] = b[:rng.randrange(len(b) + 1)] if rng.random() < 0.7 else b
        spec["before_closed"] = rng.random() < 0.5
    if rng.random() < 0.3:
        o = _doc(rng)
        spec["other_doc"] = o
        spec["other_cfg"] = session.random_cfg(rng)
        spec["other_at"] = sorted(round(rng.random(), 4) for _ in range(rng.choice([1, 2, 4])))
    return spec


def blocks(ev):
    """The preformatted blocks: their texts, whether they can be checked,
    and whether parts of them are decorated."""
    out = []
    stack = []
    places = []
    pre = None                          # [depth, text, good, decorated, place]
    for e in ev:
        if e[0] == "s":
            if pre and e[1] in DECORATED:
                pre[3] = True
            elif pre and (e[1] not in INNER or e[1] == "code" and stack[-1] != "pre"):
                pre[2] = False
            if e[1] in docs.VOID:
                continue
            if e[1] == "pre" and not pre:
                pre = [len(stack), [], all(t in OUTER for t in stack), False, list(places)]
            stack.append(e[1])
            places.append([e[1], sorted((k, v or "") for k, v in e[2])])
        elif e[0] == "e":
            if e[1] in docs.VOID:
                continue
            if stack and stack[-1] == e[1]:
                stack.pop()
                places.pop()
                if pre and len(stack) == pre[0]:
                    out.append(("".join(pre[1]),) + tuple(pre[2:]))
                    pre = None
            elif pre:
                pre[2] = False
        elif e[0] == "d" and pre:
            if pre[1] and pre[1][-1].endswith("\r") and e[1].startswith("\n"):
                pre[2] = False          # a line ending with a tag in the middle
            pre[1].append(e[1])
    if pre:
        out.append(("".join(pre[1]),) + tuple(pre[2:]))
    return [(t, g and not SEPARATORS.search(t), l, repr(w)) for t, g, l, w in out]


def _plain(s):
    """Without anything that may be decoration."""
    return "".join(c for c in s.upper().casefold() if docs.keep(c) or c in " \t")


def _lines(t):
    t = t.replace("\r\n", "\n").replace("\r", "\n")
    ls = t.split("\n")
    if ls[-1] == "":
        ls.pop()
    return ls


def execute(spec):
    chunks = session.chunks_of(spec["doc"], spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    depth = docs.build_tree(ev)[2]
    if depth > 12:
        raise core.Invalid("too deep")
    if any("\x1b" in e[1] for e in ev if e[0] == "d"):
        raise core.Invalid("terminal control characters in the text")
    with session.StepMeter(5 * session.STEP_LIMIT):
        got = session.outcome_of(lambda: session.run_scenario(spec))
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    stats.update({"probe.document_before": int("before" in spec), "probe.other_parser": int("other_doc" in spec)})
    sig = core.sha(spec)
    if got[0] != "ok":
        raise core.Invalid("not rendered")              # C15's business
    shown = docs.strip_esc(got[1]).split("\n")
    at = 0
    checked = most = 0
    common = {}
    for text, good, deco, place in blocks(ev):
        lines = _lines(text)
        show = shown
        if deco:
            lines, show = [_plain(l) for l in lines], [_plain(l) for l in shown]
        key = next((k for k, l in enumerate(lines) if l.strip()), None)
        if not good or key is None:
            continue
        checked += 1
        most = max(most, len(lines))
        stats["probe.decorated_blocks"] = stats.get("probe.decorated_blocks", 0) + int(deco)
        tail = lines[key].rstrip()
        found = None
        prefixes = set()
        for p in range(at + key, len(show) - (len(lines) - key) + 1):
            if not show[p].rstrip().endswith(tail):
                continue
            prefix = show[p].rstrip()[:-len(tail)]
            if any(c.isalpha() for c in prefix):
                continue
            if all(show[p - key + k].rstrip() == (prefix + l).rstrip() for k, l in enumerate(lines)):
                found = p - key if found is None else found
                prefixes.add(prefix)
        if found is None:
            return core.bad("not-line-for-line", {"block": lines, "output": shown[at:at + 60]}, stats, sig)
        at = found + len(lines)
        if not deco:
            # Blocks at places of the same kind are moved by the same
            both = prefixes & common.get(place, prefixes)
            if not both:
                return core.bad("moved", {"block": lines, "prefixes": sorted(prefixes), "others": sorted(common[place]), "output": shown[:at + 10][-60:]},
                                stats, sig)
            stats["probe.blocks_compared"] = stats.get("probe.blocks_compared", 0) + int(place in common)
            common[place] = both
    stats["preformatted_blocks"] = checked
    return core.ok(stats, sig, trivial=most < 2)
