"""C08: gophermap entries stay well-formed whatever arrives in the stream."""
import re

import core
import docs
import links
import session

RULE = ("one run = one document with links/images, bytes injected into attribute values and link text (tabs, every kind of "
        "line break, control characters), bytes damaged, tags damaged, stream cut off; rendered as a gophermap with links "
        "collected in the footer under any box margin, or, outside any element, after their block. Every line with a tab must be a well-formed entry, their numbers "
        "must be 1..N with N from the tokenizer. Non-trivial when at least one link and one fault. Distinct counts distinct "
        "(damaged stream, configuration) digests.")
MEASURE = "distinct digests of (damaged stream, configuration)"
REAL = ["html.parser", "gopher_render (all modules)", "urllib.parse"]
STUB = ["the stream (faults applied before delivery)"]
ASSUME = ["preformatted text contains no tab of its own (tabs there are kept as text)", "nesting at most 100 levels"]
QUICK = (36000, 50)
THOROUGH = (400000, 600)
SHRINK = ("doc", "cuts")

INJECT = ("\t", "\n", "\r", "\r\n", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\0", "\t\t", "&#9;", "&#10;",
          "&#13;", "&Tab;", "&NewLine;", "&#x2028;", "&#133;", "\t70\n1X\t/X\tH\t70\n", ":", "[", "]", "//", "@", "%09", "%0A", "?", "#", ":99999", ":X", " ", "&#x0b;")
SCHEMES = ("", "", "gopher:", "gopher://", "gopher://H.O", "gopher://H.O:70", "http://X.Y/", "https:", "mailto:", "X:", "ftp://", "//", "/", "gopher://[", "gopher://H O")


def gen(rng, tier, i):
    feats = ["links", "imgs"] + rng.sample([f for f in docs.FEATURES if f not in ("links", "imgs")], rng.randint(0, 10))
    cfg = session.random_cfg(rng, fmts=("gophermap",), rends=RENDS, exts=("default", "custom", "short", "indented"))
    cfg["lp"] = "footer"
    cfg["ip"] = rng.choice(["footer", "footer", "inline"])
    if cfg["box"] is None and rng.random() < 0.5:
        cfg["box"] = {"width": 67, "margin": [rng.randrange(3), rng.randrange(3), rng.randrange(3), rng.randrange(6)]}
    d = docs.Gen(rng, feats, rng.choice([1, 1, 2, 4])).doc()
    if rng.random() < 0.12:              # entries after blocks: links outside any element
        cfg["lp"], cfg["ip"] = "after_block", rng.choice(["after_block", "footer", "inline"])
        if cfg["box"]:
            cfg["box"]["margin"][3] = 0
        g = docs.Gen(rng, [f for f in feats if f not in ("links", "imgs", "unclosed", "mismatched")], 1)
        d = "".join(rng.choice([lambda: g.link(9), g.img, lambda: "<p>%s</p>" % g.text(), g.text, g.doc])() for _ in range(rng.randint(2, 7)))
    faults = {}

    def count(k, v=1):
        faults[k] = faults.get(k, 0) + v
    # into attribute values
    def inject():
        x = rng.choice(INJECT)
        if rng.random() < 0.08:          # beyond any number of words or characters
            x = " ".join(rng.choice(("w", "ww", "word", "w" * 20)) for _ in range(rng.choice([20, 45, 70, 140, 400]))) + x + rng.choice(INJECT)
        return x
    for _ in range(rng.choice([0, 1, 2, 4])):
        vals = list(re.finditer(r"(href|src|title|alt)=([\"'])([^\"'<>]*)\2", d))
        if not vals:
            break
        m = rng.choice(vals)
        v = m.group(3)
        if m.group(1) in ("href", "src") and rng.random() < 0.5:
            v = rng.choice(SCHEMES) + v
            count("target_rewritten")
        k = rng.randrange(len(v) + 1)
        v = v[:k] + inject() + v[k:]
        d = d[:m.start(3)] + v + d[m.end(3):]
        count("injected_into_attribute")
    # into link text
    for _ in range(rng.choice([0, 0, 1, 2])):
        txt = list(re.finditer(r"<a [^<>]*>([^<>]*)<", d))
        if not txt:
            break
        m = rng.choice(txt)
        k = rng.randint(m.start(1), m.end(1))
        d = d[:k] + inject() + d[k:]
        count("injected_into_link_text")
    if rng.random() < 0.3:
        d, c = docs.damage_bytes(rng, d, rng.choice([1, 2, 5]))
        for k, v in c.items():
            count(k, v)
    if rng.random() < 0.2:
        d, c = docs.damage_tags(rng, d, 2)
        for k, v in c.items():
            count(k, v)
    if rng.random() < 0.2:
        d, c = docs.lose_values(rng, d, rng.choice([1, 3]))
        for k, v in c.items():
            count(k, v)
    if rng.random() < 0.25:
        d = docs.truncate(rng, d)
        count("cut_off")
    return {"cfg": cfg, "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.2 else [], "faults": faults}


RENDS = tuple(r for r in session.RENDER_SETS if r not in ("sel", "odd"))

BREAKS = re.compile("[\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029]")
ENTRY = re.compile(r"\S\[(\d+)\] ([^\t]*)\t([^\t]*)\t([^\t\s][^\t]*)\t(\d{1,5})")


_P = r"[A-Za-z0-9_~-][A-Za-z0-9_~.-]*"
PLAIN_PATH = re.compile(r"/?%s(?:/%s)*/?" % (_P, _P))
PLAIN_GOPHER = re.compile(r"gopher://([A-Za-z][A-Za-z.]*[A-Za-z])(?::([1-9]\d{1,3}))?(/(?:%s(?:/%s)*/?)?)" % (_P, _P))
PLAIN_WEB = re.compile(r"(?:https?|ftp)://[A-Za-z][A-Za-z.]*[A-Za-z](?:/%s)+/?" % _P)


def _plain(href, cfg):
    """(selector, host, port) for targets that leave no room for doubt."""
    if PLAIN_PATH.fullmatch(href):
        return href, cfg["host"], cfg["port"]
    m = PLAIN_GOPHER.fullmatch(href)
    if m:
        return m.group(3), m.group(1), int(m.group(2) or 70)
    if PLAIN_WEB.fullmatch(href):
        return "URL:" + href, None, None
    return None


def _squeeze(s):
    """Without white space and control characters, and without capitals."""
    return "".join(c for c in s.lower() if c > " " and c not in "\x7f\x85\u2028\u2029")


def execute(spec):
    cfg = spec["cfg"]
    chunks = session.chunks_of(spec["doc"], spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    refs, markers, blocks, footer, depth = links.model(ev, cfg["lp"], cfg["ip"])
    if depth > 100:
        raise core.Invalid("too deep")
    if not spec.get("known"):
        inside = any(r.node.parent is not None and r.node.parent.tag is not None for r in refs
                     if (cfg["ip"] if r.tag == "img" else cfg["lp"]) == "after_block")
        if inside or ("after_block" in (cfg["lp"], cfg["ip"]) and cfg["box"] and cfg["box"]["margin"][3]):
            raise core.Invalid("entries inside blocks: known finding")
        if any(e[0] == "s" and e[1] == "pre" for e in ev) and any(e[0] == "d" and "\t" in e[1] for e in ev):
            raise core.Invalid("tab in preformatted text")
    if cfg["ip"] == "inline" and any(e[0] == "s" and e[1] == "img" and any(v and "\t" in v for k, v in e[2]) for e in ev):
        raise core.Invalid("tab in an image shown in the text")
    if any(e[0] == "s" and e[1] == "img" and any(k == "alt" and v and "\t" in v for k, v in e[2]) for e in ev) and \
            any(e[0] == "s" and e[1] == "pre" for e in ev):
        raise core.Invalid("tab in preformatted text")
    with session.StepMeter():
        got = session.render(cfg, chunks)
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    stats["entries"] = len(refs)
    stats["probe.entries_after_blocks"] = sum(1 for r in refs if (cfg["ip"] if r.tag == "img" else cfg["lp"]) == "after_block")
    sig = core.sha(spec["doc"], sorted(cfg.items(), key=str))
    if got[0] != "ok":
        return core.bad("outcome:" + got[-1], {"got": got}, stats, sig)
    lines = got[1].split("\n")
    menu = [l for l in lines if "\t" in l]
    for l in menu:
        if not ENTRY.fullmatch(l) or BREAKS.search(l):
            return core.bad("malformed", {"line": l, "output": got[1]}, stats, sig)
    nums = [int(ENTRY.fullmatch(l).group(1)) for l in menu]
    if sorted(nums) != list(range(1, len(refs) + 1)):
        return core.bad("entries", {"have": nums, "want": len(refs), "output": got[1]}, stats, sig)
    for l in menu:
        n, selector, host, port = (ENTRY.fullmatch(l).group(k) for k in (1, 3, 4, 5))
        plain = _plain(refs[int(n) - 1].href or "", cfg)
        if plain:
            stats["probe.plain_targets"] = stats.get("probe.plain_targets", 0) + 1
            if selector != plain[0] or (plain[1] and host.lower() != plain[1].lower()) or (plain[2] and int(port) != plain[2]):
                return core.bad("other-target", {"line": l, "target": refs[int(n) - 1].href, "want": plain, "output": got[1]}, stats, sig)
        target = _squeeze(refs[int(n) - 1].href or "")
        if not (host == cfg["host"] or _squeeze(host) in target):
            return core.bad("foreign-host", {"line": l, "target": refs[int(n) - 1].href, "output": got[1]}, stats, sig)
        if not (int(port) in (70, cfg["port"]) or port in target):
            return core.bad("foreign-port", {"line": l, "target": refs[int(n) - 1].href, "output": got[1]}, stats, sig)
        if target and _squeeze(selector[4:] if selector.startswith("URL:") else selector) not in target:
            return core.bad("foreign-selector", {"line": l, "target": refs[int(n) - 1].href, "output": got[1]}, stats, sig)
    return core.ok(stats, sig, trivial=not refs or not spec["faults"])
