"""C18: memory and work do not accumulate over documents."""
import array
import gc
import os
import sys
import threading

import core
import docs
import session

RULE = ("one run = a cycle of 1-4 sessions (a document and a configuration each; completed, abandoned mid-stream, dropped "
        "unclosed, failing in a renderer, interrupted by an exception at an executed line, or going through one long-lived parser "
        "that is reset) repeated until caches have filled, then some more times. The live memory blocks, collectable "
        "objects, descriptors and threads of the process and the interpreter steps of a cycle must not keep growing. In "
        "'varied' runs every repetition has other words and targets, so that contents kept from earlier documents show "
        "as well. Non-trivial when at least one session was not simply completed, or contents were varied. Distinct counts distinct (sessions, "
        "configurations, faults) digests.")
MEASURE = "distinct digests of (sessions, configurations, faults)"
REAL = ["html.parser", "gopher_render (all modules)", "CPython allocator and garbage collector"]
STUB = ["the application driving the sessions", "asynchronous exceptions", "user-defined renderers that fail"]
ASSUME = ["caches may fill up: growth counts only if it goes on, at a block of memory or more per session, after the warm-up "
          "(4 repetitions of the same contents, 700 sessions with varied contents)",
          "collectable garbage is collected before memory is measured"]
QUICK = (18000, 50)
THOROUGH = (100000, 600)
MEMORY = False
CPU = 120
SHRINK = ("sessions", "doc", "cuts")
HOW = ("complete", "complete", "twice", "cut", "unclosed", "fail", "interrupt", "reset", "reset", "reset_cut", "again")


def gen(rng, tier, i):
    feats = rng.sample(docs.FEATURES, rng.randint(3, 10)) if rng.random() < 0.5 else None
    varied = rng.random() < 0.4
    ss = []
    for _ in range(1 if varied else rng.choice([1, 2, 2, 3, 4])):
        if varied:
            d = docs.Gen(rng, feats, 1).doc()[:160]
        else:
            d = docs.any_doc(rng, feats, rng.choice([1, 1, 2]))
            if rng.random() < 0.3:
                d, _ = docs.damage_tags(rng, d, 2)
            if rng.random() < 0.2:
                d, _ = docs.lose_values(rng, d, 2)
        cfg = session.random_cfg(rng, rends=session.MORE_SETS)
        if varied and rng.random() < 0.4:
            d, cfg["rend"], cfg["lp"] = _rich(rng), "rich", rng.choice(["footer", "footer", "after_block"])
            cfg["ip"], cfg["ext"] = cfg["lp"], rng.choice(["custom", "default", "indented"])
        ss.append({"doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 3]))],
                   "cfg": cfg, "how": rng.choice(HOW), "frac": round(rng.random(), 6),
                   "exc": rng.choice(sorted(session.EXCEPTIONS)), "at": rng.randint(1, 6),
                   "share": rng.random() < 0.5})
    return {"sessions": ss, "varied": varied}


RICH = ("<p>%s <em>%s</em> %s</p>", "<p><strong>%s <em>%s</em></strong> %s</p>", "<h1>%s <em>%s</em></h1>", "<h2><em>%s</em> %s</h2>", "<h3><u>%s</u></h3>",
        "<p><a href='%s'><em>%s %s</em> %s</a></p>", "<p><img src='%s' alt='%s'></p>", "<a href='x/%s' title='%s'>%s %s</a>", "<ul><li><s>%s</s> %s</li></ul>",
        "<dl><dt>%s</dt><dd><em>%s</em></dd></dl>", "<div><u>%s</u></div>", "<blockquote><p>%s <em>%s</em></p></blockquote>", "<pre>%s  <em>%s</em>\n%s</pre>",
        "<p class='%s' id='%s'>%s</p>", "<span lang='%s'>%s</span>", "<code>%s</code>", "%s <em>%s</em>", "<ol><li>%s</li></ol>", "<p>%s&amp;%s <!-- %s --></p>",
        "<pre><code class='python'>%s</code></pre>")


def _rich(rng):
    """A few pieces of markup, few enough to be repeated often."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = rng.choice(RICH)
        out.append(s % tuple("".join(rng.choice("abcdefghij") for _ in range(rng.choice([3, 6, 14]))) for _ in range(s.count("%s"))))
    return "".join(out)


def _vary(doc, n):
    """Other words and targets, of the same length: the letters of text and
    attribute values move on, those of the markup stay."""
    out = []
    k = [n // 23 ** j % 23 for j in range(5)]
    i = 0
    quote = None
    tag = False
    for c in doc:
        if not tag:
            tag = c == "<"
        elif quote:
            if c == quote:
                quote = None
        elif c in "'\"":
            quote = c
        elif c == ">":
            tag = False
        if c == "&":
            i = -12                     # leave character references alone
        if (not tag or quote) and c.isascii() and c.isalpha() and i >= 0:
            c = chr((ord(c) - 97 + k[i % 5]) % 26 + 97) if c.islower() else chr((ord(c) - 65 + k[i % 5]) % 26 + 65)
        i += 1
        out.append(c)
    return "".join(out)


class _Boom(object):
    left = 0

    def __call__(self, what, tag):
        self.left -= 1
        if self.left == 0:
            raise session.EXCEPTIONS[self.exc]("renderer fault")


class _Cycle(object):
    def __init__(self, spec):
        from gopher_render import GopherHTMLParser
        self.spec = spec
        self.boom = _Boom()
        base = GopherHTMLParser().renderers
        self.failing = {t: session.hook_class(base[t], self.boom) for t in ("p", "em", "a", "ul", "li", "h1", "strong", "pre")}
        self.shared = [{} if s["share"] else None for s in spec["sessions"]]
        self.kept = {}
        self.at = {}
        self.prefixes = (session.package_dir(),)

    def _parser(self, n, s, extra=None):
        return session.make_parser(s["cfg"], self.shared[n], extra)

    def run(self, count):
        for n, s in enumerate(self.spec["sessions"]):
            doc = s["doc"]
            if self.spec["varied"]:
                # at other positions as well
                doc = "<!--%s%s-->%s" % ("\n" * (count // 40), " " * (count % 40), _vary(doc, count))
            try:
                self.one(n, s, session.raw_chunks_of(doc, s["cuts"]))
            except session.SimHang:
                raise
            except BaseException as e:
                e.__traceback__ = None

    def one(self, n, s, chunks):
        how = s["how"]
        if how in ("reset", "reset_cut", "again"):
            p = self.kept.get(n)
            if p is None:
                p = self.kept[n] = self._parser(n, s)
            elif how != "again":
                p.reset()
            else:
                p.close()               # closed over and over again
                return
        elif how == "fail":
            self.boom.left, self.boom.exc = s["at"], s["exc"]
            p = self._parser(n, s, self.failing)
        else:
            p = self._parser(n, s)
        if how in ("cut", "reset_cut"):
            chunks = session.raw_chunks_of("".join(chunks)[:int(s["frac"] * sum(map(len, chunks)))], s["cuts"])
        if how == "interrupt":
            f = session.LineFault(self.prefixes, self.at.get(n), session.EXCEPTIONS[s["exc"]])
            try:
                with f:
                    for c in chunks:
                        p.feed(c)
                    p.close()
            finally:
                if n not in self.at:
                    self.at[n] = 1 + int(s["frac"] * f.count)
            return
        for c in chunks:
            p.feed(c)
        if how in ("unclosed", "cut", "reset_cut"):
            return
        p.close()
        if how == "twice":
            p.close()


def _measure(into, at):
    """Into an array, so that the measurements do not show up in themselves."""
    gc.collect()
    gc.collect()
    sys._clear_type_cache()             # holds names that C code looked up
    into[at + 1] = len(gc.get_objects())
    into[at + 2] = len(os.listdir("/proc/self/fd"))
    into[at + 3] = threading.active_count()
    into[at] = sys.getallocatedblocks()


def _go(spec):
    c = _Cycle(spec)
    varied = spec["varied"]
    warm, window, last = (700, 120, 3) if varied else (4, 6, 3)
    n = 0
    if varied:
        # the machinery itself costs the same in every run
        with session.StepMeter() as m:
            c.run(0)
        cost = m.count
        if cost > (6000 if spec["sessions"][0]["cfg"]["rend"] == "rich" else 3000):
            raise core.Invalid("too long to be repeated so often")
        n = 1
    rows, work = array.array("q", [0] * 4 * (last + 1)), [0, 0]
    for _ in range(warm):
        c.run(n)
        n += 1
    with session.StepMeter() as m:
        c.run(n)
        n += 1
    work[0] = m.count
    _measure(rows, 0)
    _measure(rows, 0)
    for w in range(last):
        for _ in range(window):
            c.run(n)
            n += 1
        _measure(rows, 4 * w + 4)
    with session.StepMeter() as m:
        c.run(n)
    work[1] = m.count
    return {"rows": [list(rows[k:k + 4]) for k in range(0, len(rows), 4)], "work": work, "window": window, "sessions": n}


def execute(spec):
    if not spec["sessions"]:
        raise core.Invalid("nothing to do")
    for s in spec["sessions"]:
        ev = docs.tokenize([s["doc"]])
        if ev is None or docs.build_tree(ev)[2] > 12:
            raise core.Invalid("rejected by the tokenizer or too deep to be repeated so often")
    res = _go(spec)
    stats = {"sessions": res["sessions"] * len(spec["sessions"]), "probe.varied_contents": int(spec["varied"])}
    for s in spec["sessions"]:
        stats[("probe." if s["how"] in ("complete", "twice", "again", "reset") else "fault.") + "session_" + s["how"]] = res["sessions"]
    sig = core.sha(spec)
    grown = [[b - a for a, b in zip(x, y)] for x, y in zip(res["rows"], res["rows"][1:])]
    per = res["window"]
    for k, name in ((1, "objects"), (0, "memory"), (2, "descriptors"), (3, "threads")):
        if all(g[k] >= per for g in grown):
            return core.bad("growing-" + name, {"per_window": [g[k] for g in grown], "cycles_per_window": per}, stats, sig)
    if res["work"][1] > 1.5 * res["work"][0] + 200 and not spec["varied"]:
        return core.bad("growing-work", {"steps": res["work"]}, stats, sig)
    return core.ok(stats, sig, trivial=not (spec["varied"] or any(s["how"] not in ("complete", "twice") for s in spec["sessions"])))
