"""C07: every extracted link is numbered once and resolved to its own target."""
import re
from urllib.parse import urlparse

import core
import docs
import links
import session

RULE = ("one run = one document with links/images, delivered in pieces, possibly cut off or with damaged tags, on a parser "
        "that may have rendered (and reset) or abandoned another document before, while pieces of another document go to "
        "another parser in between. The markers in the text (number, place) and the entries (number, order, target) are "
        "compared with a model that numbers the tokenizer's events. Non-trivial when the document has at least two "
        "extracted links. Distinct counts distinct (stream, delivery, configuration, history) digests.")
MEASURE = "distinct digests of (stream, delivery, configuration, other sessions)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream and the other sessions"]
ASSUME = ["entries placed after blocks are checked for documents without links inside links",
          "text uses no brackets, so that markers can be recognised"]
QUICK = (30000, 50)
THOROUGH = (300000, 600)
SHRINK = ("doc", "cuts", "other_doc", "before")

CASED = ("headers", "subs", "sel")          # sets that change the case of text


RENDS = tuple(r for r in session.RENDER_SETS if r not in ("sel", "odd"))   # "sel" gives links other renderers


def gen(rng, tier, i):
    feats = ["links", "imgs"] + rng.sample([f for f in docs.FEATURES if f not in ("links", "imgs", "longwords")],
                                           rng.randint(2, 12))
    cfg = session.random_cfg(rng, exts=("default", "custom", "short", "mapped"), rends=RENDS)
    if rng.random() < 0.6:
        cfg["lp"] = "footer"
        cfg["ip"] = rng.choice(["footer", "inline"])
    elif rng.random() < 0.3:
        cfg["lp"], cfg["ip"] = ("inline", "footer") if cfg["fmt"] == "text" else ("footer", "footer")
    else:
        cfg["lp"], cfg["ip"] = rng.choice([("after_block", "after_block"), ("after_block", "inline"),
                                           ("after_block", "footer"), ("footer", "after_block")])
        cfg["fmt"] = "text"
    if cfg["box"] and cfg["box"]["width"] < 60:
        cfg["box"]["width"] = 67
    if "after_block" in (cfg["lp"], cfg["ip"]) and cfg["rend"] in ("headers", "boxed", "nones"):
        cfg["rend"] = "default"
    g = docs.Gen(rng, feats)
    g.plain_hrefs = cfg["ip"] == "inline" or cfg["lp"] == "inline"
    x = rng.random()
    d = g.doc() if x < 0.92 else docs.markdown_doc(rng) if x < 0.98 else docs.large_doc(rng, g)
    faults = {}
    if rng.random() < 0.35:
        d = docs.truncate(rng, d)
        faults["cut_off"] = 1
    if "after_block" not in (cfg["lp"], cfg["ip"]) and rng.random() < 0.3:
        d, c = docs.damage_tags(rng, d, rng.choice([1, 2, 4]))
        faults.update(c)
    s = {"cfg": cfg, "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.4 else [], "faults": faults}
    if rng.random() < 0.35:
        s["before"] = docs.Gen(rng, feats, 1).doc()
        s["before_closed"] = rng.random() < 0.6
    if rng.random() < 0.35:
        s["other_doc"] = docs.Gen(rng, feats, rng.choice([1, 2])).doc()
        s["other_cfg"] = cfg if rng.random() < 0.5 else session.random_cfg(rng)
        s["share"] = rng.random() < 0.5
        s["other_at"] = [rng.random() for _ in range(4)]
        if not s["cuts"]:
            s["cuts"] = sorted(rng.randrange(len(d) + 1) for _ in range(3))
    return s


def _fail(kind, stats, sig, **detail):
    return core.bad(kind, detail, stats, sig)


def execute(spec):
    cfg = spec["cfg"]
    chunks = session.chunks_of(spec["doc"], spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    text = "".join(e[1] for e in ev if e[0] == "d")
    if "[" in text or "]" in text or "\x1b" in text:
        raise core.Invalid("brackets in the text")
    for e in ev:
        if e[0] == "s" and e[1] in ("a", "img"):
            if "class" in dict(e[2]) and cfg["rend"].startswith(("theme", "ansi")):
                raise core.Invalid("link styled by another renderer")
            for k, v in e[2]:
                if v and ("[" in v or "]" in v or "\n" in v or (k == "alt" or k == "title" and not (cfg["lp"] == cfg["ip"] == "footer")) and docs.kept(v) or
                          (k in ("href", "src") and docs.kept(v) and "inline" in (cfg["lp"], cfg["ip"]))):
                    raise core.Invalid("unusable attribute")
    refs, markers, blocks, footer, depth = links.model(ev, cfg["lp"], cfg["ip"])
    if depth > 100:
        raise core.Invalid("too deep")
    if blocks and any(r.tag == "a" and links.contains_links(r.node) for r in refs):
        raise core.Invalid("link inside a link")
    with session.StepMeter(3 * session.STEP_LIMIT):
        got = session.outcome_of(lambda: session.run_scenario(spec))
    stats = {"links": len(refs)}
    for k, v in spec["faults"].items():
        stats["fault." + k] = v
    stats["fault.pieces"] = len(chunks) - 1
    stats["probe.other_session"] = int("other_doc" in spec)
    stats["probe.reset_before"] = int("before" in spec)
    stats["probe.placement_%s_%s" % (cfg["lp"], cfg["ip"])] = 1
    sig = core.sha(spec)
    if got[0] != "ok":
        return core.bad("outcome:" + got[-1], {"got": got}, stats, sig)
    out = docs.strip_esc(got[1])
    cased = cfg["rend"] in CASED
    gm = cfg["fmt"] == "gophermap"
    trivial = len(refs) < 2
    mixed = blocks and footer
    if blocks and not footer:
        return _after_block(spec, out, markers, blocks, stats, sig, trivial)

    # ---- entries in the footer
    lead = "[%d] "
    sep = ": "
    if cfg["ext"] in ("short", "mapped") and not gm:
        lead, sep = None, ": "

    def lead_of(r):
        return "<%d> " % r.n if lead is None and r.tag == "a" else "[%d] " % r.n

    def sep_of(r):
        return "" if lead is None and r.tag == "a" else ": "
    body = out
    if footer:
        first = re.escape(lead_of(footer[0]))
        starts = list(re.finditer(r"(?m)^%s%s" % (r"\S" if gm else " *", first), out))
        if not starts:
            return _fail("entry-missing", stats, sig, n=1, output=out)
        start = starts[-1].start()
        body = out[:start]
        pos = start
        for k, r in enumerate(footer):
            m = re.compile(r"\s*" + (r"\S" if gm else "") + re.escape(lead_of(r))).match(out, pos)
            if not m:
                return _fail("entry-missing", stats, sig, n=r.n, at=out[pos:pos + 80], output=out)
            pos = m.end()
            if gm:
                end = out.find("\n", pos)
                line = out[pos:end if end >= 0 else len(out)]
                f = line.split("\t")
                href = str(r.href)
                try:
                    path = urlparse(r.href or "").path
                except ValueError:
                    path = ""
                if len(f) != 4 or not (f[1] == path or f[1] == "URL:" + href):
                    return _fail("wrong-target", stats, sig, n=r.n, line=line, href=href, output=out)
                pos = end if end >= 0 else len(out)
                continue
            want = sep_of(r) + str(r.href)
            nxt = footer[k + 1] if k + 1 < len(footer) else None
            j = pos
            while True:
                j = out.find(want, j)
                if j < 0 or (sep_of(r) == "" and j != pos):
                    return _fail("wrong-target", stats, sig, n=r.n, href=r.href, at=out[pos:pos + 80], output=out)
                e = j + len(want)
                t = ' "%s"' % r.title if sep_of(r) else " (%s)" % r.title
                if r.title and out.startswith(t, e):
                    e += len(t)
                tail = re.compile(r"[ \t]*(?:\n|$)").match(out, e)
                if tail and (nxt is None or re.compile(r"\s*" + re.escape(lead_of(nxt))).match(out, e)):
                    pos = e
                    break
                j += 1
        if out[pos:].strip():
            return _fail("extra-entry", stats, sig, rest=out[pos:][:200], output=out)
    if mixed:
        return _after_block(spec, body, markers, blocks, stats, sig, trivial)
    # ---- markers in the text
    flat = links.compact(body)
    have = [int(x) for x in re.findall(r"\]\[(\d+)\]", flat)]
    want = [r.n for r in markers]
    if have != want:
        return _fail("markers", stats, sig, have=have, want=want, output=out)
    if not cased:
        for m, r in zip(re.finditer(r"\]\[(\d+)\]", flat), markers):
            at = len(docs.text_of(flat[:m.start()]))
            if at != r.pos:
                return _fail("marker-misplaced", stats, sig, n=r.n, have=at, want=r.pos, output=out)
        stats["markers_placed"] = len(markers)
    return core.ok(stats, sig, trivial=trivial)


def _after_block(spec, out, markers, blocks, stats, sig, trivial):
    cfg = spec["cfg"]
    if re.search(r"\S{40,}", out):
        raise core.Invalid("words close to the width")
    short = cfg["ext"] in ("short", "mapped")
    # a marker follows its content's bracket directly; an entry does not
    have = [int(x) for x in re.findall(r"\]\[(\d+)\]", out)]
    want = [r.n for r in markers]
    if have != want:
        return _fail("markers", stats, sig, have=have, want=want, output=out)
    entries = list(re.finditer(r"<(\d+)>\s|(?<!\])\[(\d+)\]\s", out))
    nums = [int(m.group(1) or m.group(2)) for m in entries]
    if nums != [r.n for r in blocks]:
        return _fail("entries", stats, sig, have=nums, want=[r.n for r in blocks], output=out)
    for k, (m, r) in enumerate(zip(entries, blocks)):
        if short != (m.group(1) is not None) and r.tag == "a":
            return _fail("entries", stats, sig, n=r.n, output=out)
        end = entries[k + 1].start() if k + 1 < len(entries) else len(out)
        seg = links.compact(out[m.end():end]).lower()
        if links.compact(str(r.href)).lower() not in seg:
            return _fail("wrong-target", stats, sig, n=r.n, href=r.href, segment=out[m.start():end], output=out)
    return core.ok(stats, sig, trivial=trivial)
