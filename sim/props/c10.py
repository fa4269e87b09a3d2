"""C10: ordered list items are numbered by position."""
import re

import core
import docs
import session

RULE = ("one run = a document of nested ordered/unordered lists with a distinct first word per item or items that look the same, noise (whitespace, "
        "comments, stray end tags, processing instructions) arriving between the items, delivered in pieces, possibly cut "
        "off, with other documents rendered before on the same parser or interleaved on another one. The number printed "
        "in front of each item's word must be start + position * step, position counted in the tokenizer's element "
        "structure. Non-trivial with at least two ordered items. Distinct counts distinct (stream, delivery, configuration, "
        "history) digests.")
MEASURE = "distinct digests of (stream, delivery, configuration, other sessions)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream and the other sessions"]
ASSUME = ["items are direct children of their list (unclosed items nest, which is the library's documented element structure)"]
QUICK = (30000, 50)
THOROUGH = (300000, 600)
SHRINK = ("doc", "cuts", "other_doc", "before")

RENDS = ("default", "subs", "full", "center", "right", "boxed", "starts", "ansi", "theme:iced_gopher", "theme:monokai")
NOISE = (" ", "\n", "\n\n  ", "\t", "<!-- c -->", "<!---->", "<!-- <li>x</li> -->", "</b>", "</p>", "</zzz>", "</br>", "\n</em>\n",
         "<?pi x?>", "\r\n", "", "<!doctype html>", "<br>", "\n<!-- a -->\n")


ALIKE = ("%s", "\n  %s\n", " <p>%s</p>", "\n<p>%s</p>\n", "<p>%s</p>", "<em>%s</em>", " <em>%s</em> ", "<p><strong>%s</strong></p>",
         "<!-- c -->%s", "\n<p class=k>%s</p>", "<p>%s</p><p>a</p>")


LIST_ATTRS = (" start=3", " start='5'", " start=\"0\"", " start", " type=a", " type='1'", " reversed", " compact", " class='zz'", " id=I", " start=4 type=I", " value=9")
ITEM_ATTRS = (" value=7", " value='0'", " value=\"-2\"", " value", " hidden", " class='zz'", " id=I", " type=i", " aria-hidden='true'", " style='display:none'", " start=5")


class Lists(object):
    def __init__(self, rng):
        self.r = rng
        # attributes, which have no part in the numbering
        self.attrs = rng.choice((0, 0, 0.3, 0.8))
        self.n = 0
        # items that look the same, in parts or altogether
        self.alike = rng.choice((1, 1, 2, 3)) if rng.random() < 0.25 else None
        self.shape = rng.choice(ALIKE)

    def word(self):
        self.n += 1
        k = self.n
        if self.alike:
            return "x" + "bcd"[k % self.alike] + "q"
        s = ""
        while k:
            s += "bcdfghjklm"[k % 10]
            k //= 10
        return "x" + s + "q" + "".join(self.r.choice("aeiou") for _ in range(self.r.randint(0, 3)))

    def filler(self):
        r = self.r
        return " ".join("".join(r.choice("aeiourst") for _ in range(r.randint(1, 8))) for _ in range(r.choice([0, 1, 3, 12])))

    def noise(self):
        r = self.r
        if r.random() < self.noisy:
            return "".join(r.choice(NOISE) for _ in range(r.choice([1, 1, 2, 4])))
        return ""

    def item(self, depth):
        s = self._item(depth)
        if self.r.random() < self.attrs:
            s = "<li" + self.r.choice(ITEM_ATTRS) + s[3:]
        return s

    def _item(self, depth):
        r = self.r
        w = self.word()
        if self.alike and r.random() < 0.9:
            return "<li>%s</li>" % (self.shape % w)
        t = (w + " " + self.filler()).strip()
        x = r.random()
        if x < 0.15:
            t = "<p>%s</p>%s" % (t, r.choice(("", "\n", "<p>%s</p>" % self.filler())))
        elif x < 0.3:
            t = "<%s>%s</%s> %s" % ("em", w, "em", self.filler())
        elif x < 0.36:
            t = "<strong>%s</strong>" % t
        elif x < 0.45:
            t = "\n  " + t + "\n"
        elif x < 0.5:
            t = ""
        if depth < 4 and r.random() < self.nest:
            t += self.r.choice(("", "\n", " ")) + self.list(depth + 1)
            if r.random() < 0.3:
                t += " " + self.filler()
        return "<li>%s</li>" % t

    def list(self, depth, count=None):
        r = self.r
        k = r.choice(("ol", "ol", "ol", "ul"))
        n = count or r.choice([1, 2, 3, 3, 4, 5])
        out = [self.noise()]
        for _ in range(n):
            out.append(self.item(depth))
            out.append(self.noise())
        return "<%s%s>%s</%s>" % (k, r.choice(LIST_ATTRS) if r.random() < self.attrs else "", "".join(out), k)

    def doc(self):
        r = self.r
        self.noisy = r.choice([0, 0.3, 0.6, 1])
        self.nest = r.choice([0, 0, 0.2, 0.4])
        if r.random() < 0.15:
            return self.list(1, r.choice([9, 10, 11, 12, 25, 60, 60, 105, 260]))
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.3:
                out.append("<p>%s</p>" % self.filler())
            s = self.list(1)
            if r.random() < 0.2:
                s = "<%s>%s</%s>" % ("div", s, "div")
            elif r.random() < 0.1:
                s = "<blockquote>%s</blockquote>" % s
            out.append(s)
        return r.choice(("", "\n")).join(out)


def gen(rng, tier, i):
    d = Lists(rng).doc()
    cfg = session.random_cfg(rng, rends=RENDS)
    faults = {}
    if rng.random() < 0.35:
        # cut off after some item, or anywhere
        ends = [m.end() for m in re.finditer("</li>", d)]
        d = d[:rng.choice(ends)] if ends and rng.random() < 0.6 else docs.truncate(rng, d)
        faults["cut_off"] = 1
    s = {"cfg": cfg, "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.6 else [], "faults": faults,
         "rules": None}
    if cfg["rend"] not in ("subs", "starts") and rng.random() < 0.6:
        s["rules"] = {"how": rng.choice(["map", "class"]),
                      "outer": [rng.choice([0, 1, 5, 10, 99, -3, 995, 99998]), rng.choice([1, 1, 2, 10, -1])],
                      "inner": [rng.choice([0, 1, 3, 100]), rng.choice([1, 5])] if rng.random() < 0.5 else None}
    if rng.random() < 0.4:
        s["before"] = Lists(rng).doc()
        if rng.random() < 0.5:
            s["before"] = docs.truncate(rng, s["before"])
        s["before_closed"] = rng.random() < 0.5
    if rng.random() < 0.4:
        s["other_doc"] = Lists(rng).doc()
        s["other_cfg"] = cfg if rng.random() < 0.5 else session.random_cfg(rng)
        s["share"] = rng.random() < 0.6
        s["other_at"] = [rng.random() for _ in range(4)]
        if not s["cuts"]:
            s["cuts"] = sorted(rng.randrange(len(d) + 1) for _ in range(3))
    return s


def _extra(rules):
    if not rules:
        return None
    from gopher_render import rendering as R
    out = {}
    for sel, v in (("ol > li", rules["outer"]), ("ol ol > li", rules["inner"])):
        if v is None:
            continue
        if rules["how"] == "map":
            out[sel] = (R.OrderedListItemRenderer, dict(start_index=v[0], step=v[1]))
        else:
            out[sel] = type("Items", (R.OrderedListItemRenderer,), dict(settings=dict(start_index=v[0], step=v[1])))
    return out


def _first_word(node):
    """First word of an item's own text in front of any list inside it."""
    for c in node.children:
        if isinstance(c, str):
            m = re.match(r"\s*([a-z]+)(?![a-z])", c)
            if m:
                return m.group(1)
            if c.strip():
                return None
        else:
            if c.tag in ("ol", "ul", "li"):
                return None
            w = _first_word(c)
            if w is not None:
                return w
            if any(isinstance(x, str) and x.strip() for x in c.children):
                return None
    return None


def _numbers(spec, root):
    """[(word, number)] for the items of ordered lists."""
    cfg = spec["cfg"]
    out = []

    def params(node):
        nested = False
        p = node.parent
        while p is not None:
            nested = nested or p.tag == "ol"
            p = p.parent
        if cfg["rend"] == "subs":
            return 5, 3
        if cfg["rend"] == "starts":
            return 7, 2
        if spec["rules"]:
            r = spec["rules"]
            return tuple(r["inner"] if nested and r["inner"] else r["outer"])
        return 1, 1

    def walk(node):
        if node.tag == "ol":
            start, step = params(node)
        k = 0
        for c in node.children:
            if isinstance(c, str):
                continue
            if node.tag == "ol" and c.tag == "li":
                out.append((_first_word(c), start + k * step))
                k += 1
            walk(c)
    walk(root)
    return out


def execute(spec):
    chunks = session.chunks_of(spec["doc"], spec["cuts"])
    ev = docs.tokenize(chunks)
    if ev is None:
        raise core.Invalid("rejected by the tokenizer")
    root, order, depth = docs.build_tree(ev)
    text = " ".join(e[1] for e in ev if e[0] == "d")
    words = re.findall(r"[a-z]+", text)
    with session.StepMeter(3 * session.STEP_LIMIT):
        got = session.outcome_of(lambda: session.run_scenario(spec, _extra(spec["rules"])))
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    stats["fault.pieces"] = len(chunks) - 1
    stats["probe.other_session"] = int("other_doc" in spec)
    stats["probe.reset_before"] = int("before" in spec)
    sig = core.sha(spec)
    if got[0] != "ok":
        return core.bad("outcome:" + got[-1], {"got": got}, stats, sig)
    out = docs.strip_esc(got[1])
    checked = 0
    everything = _numbers(spec, root)
    numbers = [x for x in everything if x[0]]
    if not re.search(r"\d", text):
        # Every item has its number in front, also those that say nothing
        want = [n for w, n in everything]
        have = [int(m) for m in re.findall(r"(?<![\d-])(-?\d+)[.)]", out)]
        if have != want:
            return core.bad("wrong-numbers", {"want": want, "have": have, "output": out}, stats, sig)
        stats["probe.items_without_text"] = len(everything) - len(numbers)
    for w in sorted(set(w for w, n in numbers)):
        want = [n for v, n in numbers if v == w]
        if words.count(w) != len(want) or not w.startswith("x"):
            continue
        # (a word longer than the room left for it goes on in the next line)
        have = [int(m) for m in re.findall(r"(?i)(-?\d+)[.)][\s_*~!'>|]*(?<![a-z])%s(?![a-z])" % r"(?:[\s>|]*\n[\s>|]*)?".join(w), out)]
        if len(have) != len(want):
            return core.bad("number-missing", {"word": w, "want": want, "have": have, "output": out}, stats, sig)
        if have != want:
            return core.bad("wrong-number", {"word": w, "want": want, "have": have, "output": out}, stats, sig)
        checked += len(want)
        stats["probe.items_alike"] = stats.get("probe.items_alike", 0) + (len(want) if len(want) > 1 else 0)
    stats["items_checked"] = checked
    return core.ok(stats, sig, trivial=checked < 2)
