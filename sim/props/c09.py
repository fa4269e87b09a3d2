"""C09: ANSI styling never leaks out of its element."""
import re

import core
import docs
import session

RULE = ("one run = one document with elements styled by ANSI escape codes (random combination of effects per selector, or "
        "a shipped theme), cut off or damaged in transit, wrapped at some width. A terminal emulator follows the output: "
        "every escape sequence complete, every text character that belongs to no styled element (by the tokenizer's "
        "element structure) in the default style, entries' targets in the default style, default style at the end. "
        "Non-trivial when the output has escape sequences and the stream was cut or damaged. Distinct counts distinct "
        "(stream, configuration) digests.")
MEASURE = "distinct digests of (stream, style and layout configuration)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream (faults applied before delivery)", "the terminal (SGR emulator)"]
ASSUME = ["the text itself has no terminal control characters", "nesting at most 100 levels"]
QUICK = (30000, 50)
THOROUGH = (300000, 600)
SHRINK = ("doc", "cuts", "styles")

EFFECTS = ("bold", "faint", "italic", "fraktur", "underline", "slow_blink", "rapid_blink", "invert", "conceal",
           "crossed_out", "framed", "encircled", "overlined")
COLOURS = ("red", "bright_cyan", "black", 7, 200, 255, [1, 2, 3], [255, 0, 10], "#fff", "#102030", "abc")
TAGS = ("em", "strong", "span", "u", "s", "b", "i", "del", "ins", "code", "a", "h2", "x1")
RENDS = tuple(r for r in session.RENDER_SETS if r not in ("sel", "odd", "subs", "headers"))


def gen(rng, tier, i):
    feats = ["styled"] + rng.sample([f for f in docs.FEATURES if f != "styled"], rng.randint(3, 14))
    g = docs.Gen(rng, feats)
    g.plain_hrefs = True
    entries = rng.random() < 0.3
    if entries:
        g.f.add("links")
    d = g.doc() if rng.random() < 0.9 else docs.markdown_doc(rng)
    faults = {}
    x = rng.random()
    if x < 0.3:
        d, faults = docs.damage_tags(rng, d, rng.choice([1, 1, 2, 4]))
    elif x < 0.4:
        d, faults = docs.damage_bytes(rng, d, rng.choice([1, 2]))
    if rng.random() < 0.5:
        d = docs.truncate(rng, d)
        faults["cut_off"] = 1
    cfg = session.random_cfg(rng, rends=RENDS, exts=("none", "default", "custom", "short"))
    cfg["ext"] = rng.choice(["none", "none", "default", "custom"])
    if rng.random() < 0.5:
        cfg["rend"] = rng.choice(["ansi"] + ["theme:" + t for t in session.THEMES])
    if rng.random() < 0.3:
        cfg["box"] = {"width": rng.choice([5, 10, 20, 30, 45]), "margin": [0, 0, 0, rng.randrange(3)]}
    if entries:
        cfg["lp"] = cfg["ip"] = "footer"
        cfg["ext"] = rng.choice(["default", "custom"])
    styles = []
    if not cfg["rend"].startswith("ansi") and not (cfg["rend"].startswith("theme") and rng.random() < 0.7):
        for t in rng.sample(TAGS, rng.randint(1, 5)):
            st = {e: True for e in rng.sample(EFFECTS, rng.choice([0, 0, 1, 1, 2, 4]))}
            if rng.random() < 0.5:
                st["foreground_colour"] = rng.choice(COLOURS)
            if rng.random() < 0.35:
                st["background_colour"] = rng.choice(COLOURS)
            if rng.random() < 0.15:
                st["font"] = rng.randint(1, 9)
            if rng.random() < 0.2:
                st["normalise"] = True
            styles.append([t, st])
    return {"cfg": cfg, "doc": d, "styles": styles, "faults": faults,
            "cuts": docs.random_cuts(rng, d) if rng.random() < 0.2 else []}


class Terminal(object):
    """What a terminal's character attributes are after some SGR sequences."""
    OFF = {22: ("1", "2"), 23: ("3", "20"), 24: ("4",), 25: ("5", "6"), 27: ("7",), 28: ("8",), 29: ("9",),
           54: ("51", "52"), 55: ("53",), 39: ("fg",), 49: ("bg",), 10: ("font",), 59: ("ul",)}

    def __init__(self):
        self.on = {}

    def sgr(self, params):
        ps = [int(p) if p else 0 for p in params.split(";")]
        k = 0
        while k < len(ps):
            p = ps[k]
            if p == 0:
                self.on.clear()
            elif p in (38, 48, 58):
                name = {38: "fg", 48: "bg", 58: "ul"}[p]
                if ps[k + 1:k + 2] == [5]:
                    self.on[name] = tuple(ps[k:k + 3])
                    k += 2
                elif ps[k + 1:k + 2] == [2]:
                    self.on[name] = tuple(ps[k:k + 5])
                    k += 4
                else:
                    return
            elif p in self.OFF:
                for n in self.OFF[p]:
                    self.on.pop(n, None)
            elif 30 <= p <= 37 or 90 <= p <= 97:
                self.on["fg"] = p
            elif 40 <= p <= 47 or 100 <= p <= 107:
                self.on["bg"] = p
            elif 11 <= p <= 19:
                self.on["font"] = p
            else:
                self.on[str(p)] = True
            k += 1


SEQ = re.compile(r"\x1b\[([\d;]*)m")


def _extra(styles):
    from gopher_render import rendering as R
    out = {}
    for t, st in styles:
        st = dict(st)
        for c in ("foreground_colour", "background_colour"):
            if isinstance(st.get(c), list):
                st[c] = tuple(st[c])
        out[t] = (R.AnsiEscapeCodeRenderer, st)
    return out


_ANSI_TAGS = []


def _ansi_tags():
    if not _ANSI_TAGS:
        _ANSI_TAGS.extend(k for k in session.render_set("ansi") if not k.startswith("."))
    return _ANSI_TAGS


def _maybe_styled(node, cfg, styles):
    """True if the element could match a styling selector."""
    while node is not None:
        if node.tag in [t for t, _ in styles]:
            return True
        if cfg["rend"].startswith("ansi") and (node.tag in _ansi_tags() or node.attrs.get("class")):
            return True
        if cfg["rend"].startswith("theme") and (node.attrs.get("class") or node.tag == "span"):
            return True
        node = node.parent
    return False


def execute(spec):
    cfg = spec["cfg"]
    chunks = session.chunks_of(spec["doc"], spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    if any("\x1b" in e[1] for e in ev if e[0] == "d") or any("\x1b" in (v or "") for e in ev if e[0] == "s" for k, v in e[2]):
        raise core.Invalid("terminal control characters in the document")
    root, order, depth = docs.build_tree(ev)
    if depth > 100:
        raise core.Invalid("too deep")

    def go():
        p = session.make_parser(cfg, extra=_extra(spec["styles"]))
        for c in chunks:
            p.feed(c)
        p.close()
        return p.parsed
    with session.StepMeter():
        got = session.outcome_of(go)
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    sig = core.sha(spec["doc"], sorted(cfg.items(), key=str), spec["styles"])
    if got[0] != "ok":
        return core.bad("outcome:" + got[-1], {"got": got}, stats, sig)
    out = got[1]
    nseq = len(SEQ.findall(out))
    stats["escape_sequences"] = nseq
    if re.search(r"\x1b(?!\[[\d;]*m)", out):
        m = re.search(r"\x1b(?!\[[\d;]*m)", out)
        return core.bad("incomplete-sequence", {"at": out[max(0, m.start() - 20):m.start() + 30], "output": out}, stats, sig)
    # characters with the style they are shown in
    term = Terminal()
    shown = []
    pos = 0
    for m in SEQ.finditer(out):
        style = dict(term.on)
        shown.extend((c, style) for c in out[pos:m.start()])
        term.sgr(m.group(1))
        pos = m.end()
    style = dict(term.on)
    shown.extend((c, style) for c in out[pos:])
    if term.on:
        return core.bad("not-reset-at-end", {"style": term.on, "output": out}, stats, sig)
    # text outside every styled element
    want = []
    for e in order:
        if e[0] == "data":
            s = _maybe_styled(e[1], cfg, spec["styles"])
            want.extend((c, s) for c in e[2])
    wk = docs.text_chars(want)
    if cfg["ext"] == "none" and cfg["lp"] != "inline" and cfg["ip"] != "inline":
        hk = docs.text_chars(shown)
        if [c for c, _ in hk] == [c for c, _ in wk]:
            stats["characters_checked"] = len(hk)
            stats["probe.characters_outside_style"] = sum(1 for c, s in wk if not s)
            for k, ((c, style), (_, styled)) in enumerate(zip(hk, wk)):
                if style and not styled:
                    return core.bad("leak", {"text": "".join(x for x, _ in wk[max(0, k - 15):k + 10]), "style": style,
                                             "output": out}, stats, sig)
        else:
            stats["unaligned"] = 1
    # targets of the entries in the footer stand outside every element
    if cfg["ext"] in ("default", "custom") and cfg["lp"] == "footer" and cfg["ip"] == "footer" and "a" not in [t for t, _ in spec["styles"]] \
            and not any(c.isupper() for e in order if e[0] == "data" for c in e[2]):
        plain = docs.LOOSE_WORDS.sub(lambda m: "." * len(m.group()), "".join(c for c, _ in shown))
        m = re.search(r"(?m)^\s*\S?\[1\] ", plain)
        if m:
            stats["probe.entries_checked"] = 1
            for k in range(m.start(), len(shown)):
                if plain[k] in "IN" and cfg["fmt"] == "gophermap" and "\t" not in plain[plain.rfind("\n", 0, k) + 1:k]:
                    continue              # of a description cut off within the words above
                if plain[k].isupper() and shown[k][1]:
                    return core.bad("leak-into-entry", {"at": plain[max(0, k - 30):k + 20], "style": shown[k][1], "output": out}, stats, sig)
    return core.ok(stats, sig, trivial=not nseq or not spec["faults"])
