"""Building parsers from JSON configurations, and running documents through
them. Everything here uses the public interface of the library only."""
import dis
import gc
import re
import sys

STEP_LIMIT = 4_000_000


class SimHang(BaseException):
    """Raised inside the code under test when it exceeds its step budget."""


class StepMeter(object):
    """Counts function starts and backward jumps of all Python code, so that
    a run that does not terminate is cut at an exactly repeatable point."""
    TOOL = 4

    def __init__(self, limit=STEP_LIMIT, collect_every=None):
        self.limit = limit
        self.collect_every = collect_every
        self.count = 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "steps")

        def tick(*a):
            self.count += 1
            if self.count > self.limit:
                m.set_events(self.TOOL, 0)
                raise SimHang()
            if self.collect_every and self.count % self.collect_every == 0:
                gc.collect()
        ev = m.events
        m.register_callback(self.TOOL, ev.PY_START, tick)
        m.register_callback(self.TOOL, ev.JUMP, tick)
        m.set_events(self.TOOL, ev.PY_START | ev.JUMP)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.register_callback(self.TOOL, m.events.JUMP, None)
        m.free_tool_id(self.TOOL)
        return False


# ---------------------------------------------------------------- renderers

THEMES = ("monokai", "monokai_ansi", "darkly", "darkly_ansi", "github",
          "iced_gopher", "autumn", "tomorrow", "tomorrow_night")

_subclasses = {}


def subclasses():
    """User-defined renderer classes, created once per process."""
    if _subclasses:
        return _subclasses
    from gopher_render import rendering as R

    class LoudStrong(R.StrongRenderer):
        settings = dict(template="!!{}!!", capitalized=True)

    class QuietEm(R.EmRenderer):
        settings = dict(template="'{}'")

    class StepItem(R.OrderedListItemRenderer):
        settings = dict(start_index=5, step=3)

    class ParenItem(R.OrderedListItemRenderer):
        settings = dict(line_template="{0}) {1}", start_index=0, step=10)

    class IndentedParagraph(R.ParagraphRenderer):
        settings = dict(initial_indent=2, justification='full')

    class Boxed(R.BlockRenderer):
        settings = dict(border=['-', '|', '=', '|'], padding=[1, 2, 1, 2], margin=[1, 1, 1, 1])

    class ShortLink(R.ExtractedLinkRenderer):
        settings = dict(templates=["\n<{link_reference}> {href}", "\n<{link_reference}> {href} ({title})"])

    _subclasses.update(LoudStrong=LoudStrong, QuietEm=QuietEm, StepItem=StepItem,
                       ParenItem=ParenItem, IndentedParagraph=IndentedParagraph,
                       Boxed=Boxed, ShortLink=ShortLink)
    return _subclasses


RENDER_SETS = ("default", "full", "center", "right", "boxed", "headers", "subs",
               "sel", "odd", "ansi", "ansifull", "starts", "prefix", "nones") + tuple("theme:" + t for t in THEMES)
MORE_SETS = RENDER_SETS + ("rich",)         # for checks that compare renderings


def render_set(name):
    """A renderer map of that name (a new object each time, except for the
    themes, which are the module's own dictionary, as a user would pass it)."""
    from gopher_render import rendering as R
    s = subclasses()
    if name == "default":
        return {}
    if name.startswith("theme:"):
        import importlib
        return importlib.import_module("gopher_render.code_themes." + name[6:]).renderers
    if name == "full":
        return {"p": (R.ParagraphRenderer, dict(justification="full", initial_indent=3)),
                "li": (R.ListItemRenderer, dict(justification="full"))}
    if name == "center":
        return {"p": (R.ParagraphRenderer, dict(justification="center", margin=[0, 2, 1, 2])),
                "h1": (R.HeaderRenderer, dict(centered=True, underlined=True, underline_full=True))}
    if name == "right":
        return {"p": (R.ParagraphRenderer, dict(justification="right")), "dd": (R.DefinitionListItemRenderer, dict(justification="right"))}
    if name == "boxed":
        return {"div": s["Boxed"], "blockquote": (R.BlockQuoteRenderer, dict(padding=[0, 1, 0, 1], margin=[1, 2, 1, 2])),
                "p": (R.ParagraphRenderer, dict(margin=[1, 1, 1, 1], padding=[0, 1, 0, 1]))}
    if name == "headers":
        return {"h1": (R.HeaderRenderer, dict(underlined=True, capitalized=True, spread=1)),
                "h2": (R.HeaderRenderer, dict(underlined=True, underline_char="-", centered=True)),
                "h3, h4": (R.HeaderRenderer, dict(template="~ {} ~"))}
    if name == "subs":
        return {"strong": s["LoudStrong"], "em": s["QuietEm"], "p": s["IndentedParagraph"],
                "ol > li": s["StepItem"]}
    if name == "starts":
        return {"ol > li": (R.OrderedListItemRenderer, dict(start_index=7, step=2)), "ul ol > li": s["ParenItem"]}
    if name == "prefix":
        return {"p": (R.ParagraphRenderer, dict(line_template="| {}")), "pre": (R.PreRenderer, dict(line_template="# {}", indent=2)),
                "code": (R.CodeRenderer, dict(inline_template="<{}>"))}
    if name == "sel":
        return {
            "p + p": (None, dict(subsequent_indent=2)),
            "h1 ~ p": (None, dict(initial_indent=1)),
            "div > p:first-child": (None, dict(margin=[0, 0, 0, 0])),
            "li:nth-child(2)": (None, dict(margin=[0, 0, 0, 2])),
            "li:nth-last-child(1)": (None, dict(margin=[0, 0, 1, 0])),
            ".k1": R.StrongRenderer,
            "#id1": (None, dict(capitalized=True)),
            "span.k2": R.EmRenderer,
            "a[href^=http]": (None, dict(capitalized=True)),
            "em em, strong em": R.StrikethroughRenderer,
            "*:not(.k1)[title]": R.UnderlineRenderer,
        }
    if name == "odd":
        # selectors of every kind, also ones that match nothing by design
        return {
            "[class~='k1']": (None, dict(capitalized=True)),
            "*[title*='T']": (None, dict(template="<<{}>>")),
            "a[href*='/']": (None, dict(inline_template="<{}>")),
            "[href$='TXT'], [src^='A']": (None, dict(spread=1)),
            "[lang|='en'], p[class='']": (None, dict(margin=[1, 0, 1, 2])),
            "[x]": R.EmRenderer, "[y='']": R.StrongRenderer,
            "p::before": (None, dict(capitalized=True)), "a:hover": (None, dict(capitalized=True)),
            "li:only-child": (None, dict(template="{}")), "p:lang(en)": (None, dict(capitalized=True)),
            "*|b": R.EmRenderer, "li:not(:first-child)": (None, dict(margin=[0, 0, 0, 1])),
            ":root": (None, dict(capitalized=True)), ":where(p)": R.EmRenderer,
            "p:empty": R.EmRenderer, "p:contains('x')": R.EmRenderer, "em:nth-child(7)": R.StrongRenderer,
            "div:nth-last-child(9)": R.BlockQuoteRenderer, "ol.k1 ol li > p ~ p + p": R.EmRenderer,
            "*:nth-of-type(2)": R.EmRenderer, "x1": (R.StrikethroughRenderer, dict(template="/{}/")),
        }
    if name == "ansifull":
        full = dict(justification="full")
        return dict(render_set("ansi"), p=(R.ParagraphRenderer, full), li=(R.ListItemRenderer, full),
                    **{"ol > li": (R.OrderedListItemRenderer, full), "dd": (R.DefinitionListItemRenderer, full)})
    if name == "ansi":
        A = R.AnsiEscapeCodeRenderer
        return {
            "em": (A, dict(bold=True, foreground_colour="red")),
            "strong": (A, dict(underline=True, background_colour="#123")),
            "span": (A, dict(foreground_colour=200, italic=True)),
            "u": (A, dict(invert=True, normalise=True)),
            ".k1": (A, dict(crossed_out=True)),
            "code": (A, dict(foreground_colour=(1, 2, 3))),
            "i": (A, dict(foreground_colour="#abcdef", background_colour=52)),
            "b": (A, dict(background_colour=(10, 20, 30), foreground_colour="#fff", bold=True)),
            "cite": (A, dict(background_colour="blue")),
            # the colours used above, each the other way round
            "del": (A, dict(background_colour="red", foreground_colour="#123")),
            "ins": (A, dict(background_colour=200, foreground_colour=52)),
            "s": (A, dict(background_colour=(1, 2, 3), foreground_colour=(10, 20, 30))),
        }
    if name == "rich":
        # every way of working on text that has escape codes in it
        A = R.AnsiEscapeCodeRenderer
        full = dict(justification="full")
        return {"em": (A, dict(bold=True, foreground_colour="red", font=1)), "strong": (None, dict(capitalized=True)),
                "u": (A, dict(underline=True, font=9)), "a": (None, dict(capitalized=True)), "s": (A, dict(font=0, background_colour=7)),
                "h1": (R.HeaderRenderer, dict(underlined=True, capitalized=True, spread=1)),
                "h2": (R.HeaderRenderer, dict(underlined=True, underline_full=True, centered=True, capitalized=True)),
                "h3": (R.HeaderRenderer, dict(spread=2, centered=True)),
                "p": (R.ParagraphRenderer, full), "li": (R.ListItemRenderer, full), "ol > li": (R.OrderedListItemRenderer, full),
                "dd": (R.DefinitionListItemRenderer, dict(justification="center")),
                "div": (R.BlockRenderer, dict(border=["-", "|", "-", "|"], padding=[0, 1, 0, 1])),
                "blockquote": (None, dict(justification="right"))}
    if name == "nones":
        # settings that are left open, a default renderer, and borders that
        # look different backwards
        return {"": (R.InlineRenderer, dict(template="{}")), "p": (None, dict(margin=None, padding=None)),
                "div": (R.BlockRenderer, dict(border=["-=", "| ", "=-", " |"], padding=None, margin=[1, 0, 1, 0])),
                "blockquote": (None, dict(padding=None)), "ul": (R.ListRenderer, dict(margin=None)),
                "dd": (None, dict(padding=[0, 1, 0, 1], margin=None)), "h2": (None, dict(margin=None))}
    raise KeyError(name)


# Sets in which paragraphs indent their own text: rewrapping the output of
# nested paragraphs then multiplies its lines (see known_findings.json, C15).
INDENTED = ("full", "subs", "sel")


def multiplies(cfg, depth):
    """Whether a document of that depth is outside the domain (too much
    output to render many times) or left to the known finding."""
    narrow = cfg.get("box") is not None and cfg["box"]["width"] < 40
    if cfg["rend"] in ("prefix", "boxed", "nones", "rich"):
        return depth > 50            # every level adds its prefix to every line: slow, but not endless
    return cfg["rend"] in INDENTED and (narrow or depth > 12)


def ext_set(name):
    from gopher_render import rendering as R
    if name == "default":
        return {}
    if name == "none":
        return {"a": R.NonRenderer, "img": R.NonRenderer}
    if name == "short":
        return {"a": subclasses()["ShortLink"]}
    if name == "mapped":                 # as "short", by settings in the map
        return {"a": (R.ExtractedLinkRenderer, dict(templates=["\n<{link_reference}> {href}", "\n<{link_reference}> {href} ({title})"]))}
    if name == "indented":
        return {"a": (R.ExtractedLinkRenderer, dict(margin=[0, 1, 0, 3], padding=[0, 2, 0, 2])),
                "img": (R.ExtractedImageLinkRenderer, dict(margin=[1, 0, 1, 2]))}
    if name == "custom":
        return {"a": (R.ExtractedLinkRenderer, dict(max_link_description=30)),
                "a.k1": (None, dict(max_link_description=3)),
                "img": (None, dict(max_link_description=5))}
    raise KeyError(name)


def make_box(spec):
    from gopher_render.rendering import Box
    if spec is None:
        return None
    return Box(width=spec["width"], margin=list(spec["margin"]))


def parser_args(cfg, shared=None):
    """Keyword arguments for a parser. With `shared` (a dict), objects for
    equal sub-configurations are shared between the parsers built with it."""
    def obj(kind, key, build):
        if shared is None:
            return build()
        k = (kind, repr(key))
        if k not in shared:
            shared[k] = build()
        return shared[k]
    kw = dict(
        output_format=cfg["fmt"],
        link_placement=cfg["lp"],
        image_placement=cfg["ip"],
        optimise=cfg["opt"],
    )
    if cfg["fmt"] == "gophermap":
        kw["gopher_host"] = cfg.get("host", "my.gopher.host")
        kw["gopher_port"] = cfg.get("port", 70)
    if cfg.get("box") is not None:
        kw["box"] = obj("box", cfg["box"], lambda: make_box(cfg["box"]))
    if cfg["rend"] != "default":
        kw["renderers"] = obj("rend", cfg["rend"], lambda: render_set(cfg["rend"]))
    if cfg["ext"] != "default":
        kw["extracted_link_renderers"] = obj("ext", cfg["ext"], lambda: ext_set(cfg["ext"]))
    return kw


def make_parser(cfg, shared=None, extra=None):
    from gopher_render import GopherHTMLParser
    kw = parser_args(cfg, shared)
    if extra:
        r = dict(kw.get("renderers", {}))
        r.update(extra)
        kw["renderers"] = r
    return GopherHTMLParser(**kw)


def chunks_of(doc, cuts):
    """Cut the document at the given offsets. Equal offsets give empty pieces.
    Where the tokenizer itself depends on the cuts (inside scripts and style
    sheets), the document is left in one piece."""
    pieces = raw_chunks_of(doc, cuts)
    if len(pieces) > 1 and _CDATA.search(doc):
        import docs
        if docs.tokenize(pieces) != docs.tokenize([doc]):
            return [doc]
    return pieces


_CDATA = re.compile(r"<(script|style|textarea|title)", re.I)


def raw_chunks_of(doc, cuts):
    pts = sorted(min(max(0, c), len(doc)) for c in cuts)
    out = []
    prev = 0
    for p in pts:
        out.append(doc[prev:p])
        prev = p
    out.append(doc[prev:])
    return out


def outcome_of(fn):
    """['ok', text] / ['exc', type] / ['hang'] of a rendering."""
    try:
        return ["ok", fn()]
    except SimHang:
        return ["hang"]
    except Exception as e:
        return ["exc", type(e).__name__]


def render(cfg, chunks, shared=None, extra=None):
    def go():
        p = make_parser(cfg, shared, extra)
        for c in chunks:
            p.feed(c)
        p.close()
        return p.parsed
    return outcome_of(go)


def render_metered(cfg, chunks, limit=STEP_LIMIT):
    with StepMeter(limit):
        return render(cfg, chunks)


def random_cfg(rng, fmts=("text", "gophermap"), rends=RENDER_SETS, exts=("default", "none", "short", "custom"),
               lps=("footer", "after_block", "inline"), ips=("footer", "after_block", "inline"), boxes=True):
    fmt = rng.choice(fmts)
    lp = rng.choice(lps)
    if fmt == "gophermap":
        lp = rng.choice([x for x in lps if x != "inline"])
    box = None
    if boxes and rng.random() < 0.5:
        box = {"width": rng.choice([40, 50, 60, 67, 67, 80, 100]),
               "margin": [rng.randrange(3), rng.randrange(4), rng.randrange(3), rng.randrange(5)]}
    return {
        "fmt": fmt, "lp": lp, "ip": rng.choice(ips), "opt": rng.random() < 0.6,
        "box": box,
        "rend": rng.choice(rends) if rng.random() < 0.7 else "default",
        "ext": rng.choice(exts) if rng.random() < 0.4 else "default",
        "host": rng.choice(["my.gopher.host", "example.org"]),
        "port": rng.choice([70, 70, 7070]),
    }


def run_scenario(spec, extra=None):
    """Render spec['doc'] in pieces, on a parser that may have rendered or
    abandoned spec['before'] earlier, while another parser works through
    pieces of spec['other_doc'] in between."""
    shared = {} if spec.get("share") else None
    p = make_parser(spec["cfg"], shared, extra)
    if "before" in spec:
        p.feed(spec["before"])
        if spec["before_closed"]:
            p.close()
        p.reset()
        gc.collect()
    chunks = chunks_of(spec["doc"], spec["cuts"])
    q = pieces = None
    if "other_doc" in spec:
        q = make_parser(spec["other_cfg"], shared, extra)
        o = spec["other_doc"]
        pieces = chunks_of(o, [int(f * len(o)) for f in spec["other_at"]])
    for c in chunks:
        p.feed(c)
        if q is not None:
            if pieces:
                q.feed(pieces.pop(0))
            else:
                q.close()
                q = None
    if q is not None:
        for x in pieces:
            q.feed(x)
    p.close()
    return p.parsed


# ---------------------------------------------------------------- faults

class Injected(Exception):
    """The failure a renderer of the user raises."""


EXCEPTIONS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
              "RecursionError": RecursionError, "OSError": OSError, "Injected": Injected,
              "SystemExit": SystemExit, "UnicodeError": UnicodeError, "ValueError": ValueError,
              "KeyError": KeyError, "IndexError": IndexError, "TypeError": TypeError, "AttributeError": AttributeError,
              "AssertionError": AssertionError, "RuntimeError": RuntimeError, "NotImplementedError": NotImplementedError,
              "ZeroDivisionError": ZeroDivisionError, "ImportError": ImportError, "TimeoutError": TimeoutError,
              "SyntaxError": SyntaxError, "NameError": NameError, "BaseException": BaseException}


def package_dir():
    import os
    import gopher_render
    return os.path.dirname(os.path.abspath(gopher_render.__file__)) + os.sep


_POP_EXCEPT = dis.opmap["POP_EXCEPT"]


class LineFault(object):
    """Counts the executed source lines of the given files while active and,
    if `at` is set, raises there (once). The position is exactly repeatable."""

    def __init__(self, prefixes, at=None, exc=MemoryError, names=None):
        self.prefixes = tuple(prefixes)
        self.names = names
        self.at = at
        self.exc = exc
        self.count = 0
        self.fired = None
        self.places = None           # set to {} to record line -> occurrences

    def _global(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.prefixes):
            return None
        if self.names is not None and f.rsplit("/", 1)[-1] not in self.names:
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.places is not None:
                k = "%s:%d" % (frame.f_code.co_filename, frame.f_lineno)
                self.places.setdefault(k, []).append(self.count)
            if self.count == self.at and self.fired is None:
                if frame.f_code.co_code[frame.f_lasti] == _POP_EXCEPT:
                    # No exception can come between the end of a handler and
                    # this instruction (the interpreter would go on handling
                    # the first one for ever); the next line will do
                    self.at += 1
                    return self._local
                self.fired = "%s:%s" % (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_code.co_name)
                raise self.exc("injected")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def pick_position(fault, f1, f2):
    """A position among the recorded ones: f2 < 0 means uniformly over the
    executed lines, otherwise first a source line, then one of its
    occurrences (so that rare lines get their share)."""
    if f2 < 0:
        return 1 + int(f1 * fault.count)
    keys = sorted(fault.places, key=lambda k: (k.rsplit("/", 1)[-1].rsplit(":", 1)[0], int(k.rsplit(":", 1)[1])))
    if not keys:
        return 1
    occ = fault.places[keys[int(f1 * len(keys))]]
    return occ[int(f2 * len(occ))]


def hook_class(base, hook):
    """A user's renderer class: as `base`, with hook(tag) called first
    whenever it is constructed and rendered."""
    class Hooked(base):
        def render(self, content):
            hook("render", self.tag)
            return super().render(content)
    return Hooked
