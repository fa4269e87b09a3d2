"""Document generator, stream faults, and the reference view of a document
(the standard library's tokenizer only, none of the code under test)."""
import re
from html.parser import HTMLParser

INLINE = ("em", "strong", "i", "b", "u", "ins", "s", "del", "span", "code")
VOID = ("br", "img")

FEATURES = ("lists", "nested", "pre", "code", "links", "imgs", "entities",
            "comments", "crlf", "unicode", "unclosed", "mismatched", "voids",
            "pretty", "upper", "deflists", "quotes", "headers", "styled",
            "longwords", "roottext", "punct", "br", "tables", "blanks", "attrs", "cdata", "rare")
# Elements that the shipped renderers do not know
RARE = ("sub", "sup", "q", "cite", "kbd", "var", "samp", "small", "big", "mark", "abbr", "font", "tt", "time", "label", "button", "dfn",
        "strike", "center", "section", "article", "header", "footer", "nav", "main", "aside", "figure", "figcaption", "address",
        "details", "summary", "form", "fieldset", "legend", "caption", "thead", "tbody", "th", "body", "html", "head", "svg", "math",
        "template", "noscript", "object", "video", "select", "option", "x-y", "o:p", "h7", "h0", "l", "p1", "xmp", "listing", "menu")
RARE_VOID = ("wbr", "col", "embed", "link", "base", "area", "param", "source", "track", "meta", "hr", "input", "basefont", "isindex")

_LOW = "abcdefghijklmnopqrstuvwxyz"
_UNI = "αβγδεζηθλμξπστφψωбвгджзклмнпрстфцчшщюя漢字語文書山川水火木ßéèüñøåçłžđ𐐨𐐩"
_PUNCT = (";", ",", "?", "%", "$", "@", "/", "^", "{}", "{0}", "{content}", "'", "=", "+", "\\", "%s", "{", "}")


class Gen(object):
    def __init__(self, rng, features=None, size=None, wordmax=9):
        self.rng = rng
        if features is None:
            k = rng.randint(3, len(FEATURES))
            features = rng.sample(FEATURES, k)
        self.f = set(features)
        self.size = size or rng.choice([1, 2, 3, 4, 6, 8])
        self.wordmax = wordmax
        self.links = 0
        self.serial = 0
        self.link_hrefs = []
        self.plain_hrefs = False
        self.simple = False                     # links with nothing but an ordinary target

    # -- text
    def word(self):
        r = self.rng
        if "longwords" in self.f and r.random() < 0.03:
            n = r.randint(30, 120)
        else:
            n = r.randint(1, self.wordmax)
        alpha = _LOW
        if "unicode" in self.f and r.random() < 0.3:
            alpha = _UNI
        w = "".join(r.choice(alpha) for _ in range(n))
        if "punct" in self.f and r.random() < 0.15:
            w += r.choice(_PUNCT)
        if "entities" in self.f and r.random() < 0.12:
            w += r.choice(("&amp;", "&lt;", "&gt;", "&eacute;", "&#xe9;", "&#233;", "&nbsp;",
                           "&amp", "&copy", " & ", "&notin;", "&hellip;", "&unknown;", "& ", "&lt;b&gt;", "&quot;"))
        if r.random() < 0.08:
            w += r.choice((".", "!", ".", "-x", "--y", "...", "--", "'s"))
        if "unicode" in self.f and r.random() < 0.1:
            w += r.choice(("e\u0301", "\u0301", "o\u0323\u0308", "\u200d", "\u00ad", "\u0301x", "\ufeff", "\u200b"))
        return w

    def ws(self):
        r = self.rng
        if r.random() < 0.75:
            return " "
        opts = [" ", "\n", "  ", "\n  ", " \n", "\t", " \t ", "\n\n", "\n\t "]
        if "crlf" in self.f:
            opts += ["\r\n", " \r\n  ", "\r\n\r\n"]
        return r.choice(opts)

    def text(self, lo=1, hi=8):
        r = self.rng
        n = r.randint(lo, hi)
        s = self.word()
        for _ in range(n - 1):
            s += self.ws() + self.word()
        if r.random() < 0.3:
            s = self.ws() + s
        if r.random() < 0.3:
            s += self.ws()
        return s

    def name(self, n):
        if "upper" in self.f and self.rng.random() < 0.2:
            return n.upper()
        return n

    def attrs(self, klass=True):
        r = self.rng
        out = ""
        if klass and "styled" in self.f and r.random() < 0.5:
            out += r.choice((' class="%s"', " class='%s'", ' CLASS="%s"')) % r.choice(
                ("k1", "k2", "k1 k2", "k", "s", "nf", "c1", "mi", "o", "kd nc"))
        if "attrs" in self.f and r.random() < 0.2:
            out += r.choice((' id="id1"', ' id=id2', ' title="T&amp;T"', " data-x", " lang='en'",
                             ' class', ' title="A > B"', " x='<'", ' y=""'))
        if "attrs" in self.f and r.random() < 0.08:
            out += r.choice((' start', ' start="4"', " start='-2'", ' start="\u00b2"', ' start=""', ' value=7', ' value', ' type="A"', ' type=I', ' reversed',
                             ' start="4" reversed', ' width="10"', ' width', ' align=RIGHT', ' align="CENTER"', ' style="X: Y"', ' hidden', ' dir=RTL',
                             ' href="Q.TXT"', ' href', ' src=Q.GIF', ' name="N"', ' colspan=2', ' role="R"', ' id=""', ' id', ' title', ' title=""', ' alt', ' cite="C"',
                             ' lang', ' xml:lang="EN"', ' on=1 on=2', ' class="K1" class="k2"', ' aria-hidden="true"', ' data-x="{}"'))
        return out

    def tag(self, name, inner, attrs=None):
        a = self.attrs() if attrs is None else attrs
        n = self.name(name)
        end = "</%s>" % (n if self.rng.random() < 0.95 else n + " ")
        if "unclosed" in self.f and self.rng.random() < 0.06:
            end = ""
        s = "<%s%s>%s%s" % (n, a, inner, end)
        if "mismatched" in self.f and self.rng.random() < 0.06:
            s += "</%s>" % self.rng.choice(("b", "p", "div", "zzz", "a", "pre", "li", "br"))
        return s

    def noise(self):
        r = self.rng
        if "comments" in self.f and r.random() < 0.15:
            return r.choice(("<!-- c -->", "<!---->", "<!-- a > b -->", "<!-- <p> -->", "<!doctype html>", "<?php x ?>"))
        return ""

    def sep(self):
        if "pretty" in self.f:
            return self.rng.choice(("\n", "\n", "\n  ", "\n\n", " ", "\t\n", ""))
        return ""

    # -- inline
    def href(self):
        r = self.rng
        self.links += 1
        k = self.links
        h = r.choice(("HTTP://X.Y/%d", "http://X.Y/A%d", "https://X.Y/%d?Q=1", "A%d.TXT", "/D/A%d", "gopher://H.O/%d",
                      "gopher://H.O:71/%d", "mailto:A%d@B.C", "#A%d", "A%d.HTML")) % k
        if self.plain_hrefs:
            h = r.choice(("A%d.TXT", "D-A%d", "#A%d", "A%d.HTML")) % k
        if not self.plain_hrefs and r.random() < 0.3:
            h += r.choice(("&amp;Z", "&amp;Z" if "entities" in self.f else "", "#F%d" % k, "?Q=%d&amp;R=2" % k, "&amp;AMP;%d" % k, "&amp;lt;%d" % k, "?",
                           "/", "/A%d.", ".A%d" % k, "/A.B/C%d" % k, "%%41%d" % k, "//A%d" % k, ";P=%d" % k, ":%d" % k, " A%d" % k, "#", "#A%d.TXT" % k,
                           "?A%d.GIF" % k))
        elif r.random() < 0.1:
            h += r.choice(("#F%d", ".A%d", " A%d", "-", ".")).replace("%d", str(k))
        if not self.plain_hrefs and not self.simple and r.random() < 0.03:
            h = r.choice(("gopher://H.O:99999/A%d", "gopher://H.O:A%d/", "gopher://[A%d", "gopher:///A%d", "gopher:A%d", "gopher://:71/%d", "http://[A%d]:B/", "//H.O:P%d/",
                          "gopher://H.O:-1/%d", "gopher://H.O:/A%d", "gopher://U@H.O/%d", "GOPHER://H.O/A%d", ":%d", "gopher://H.O:0/%d",
                          "ftp://X.Y/A%d", "ftp://X.Y/A%d", "tel:%d", "data:,A%d", "news:A%d", "file:///A%d")) % k
        if r.random() < 0.15 and self.link_hrefs:
            h = r.choice(self.link_hrefs)
        self.link_hrefs.append(h)
        return h

    def quote(self, v):
        q = self.rng.choice(('"%s"', '"%s"', "'%s'"))
        return q % v

    def link(self, depth):
        r = self.rng
        h = self.href()
        a = " href=" + self.quote(h)
        if r.random() < 0.3:
            a += " title=" + self.quote(r.choice(("TITLE", "A TITLE", "LONGER TITLE TEXT", "TITLE" if self.simple else "T&amp;T",
                                                  "TITLE" if any(map(keep, h)) else h)))
        if not self.simple and r.random() < 0.2:
            a = self.attrs() + a
        inner = self.text(1, 4) if r.random() < 0.8 or depth > 3 else self.inline(depth + 1, links=False)
        return self.tag("a", inner, a)

    def img(self):
        r = self.rng
        a = " src=" + self.quote(self.href())
        if r.random() < 0.8:
            a += " alt=" + self.quote(r.choice(("ALT", "AN ALT", "LONGER ALT TEXT HERE")))
        return "<img%s%s>" % (a, r.choice(("", "/", " /")))

    def inline(self, depth=0, links=True):
        r = self.rng
        out = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.5:
                out.append(self.text(1, 8))
            elif x < 0.68 and depth < 4:
                t = r.choice(RARE if "rare" in self.f and r.random() < 0.3 else INLINE)
                out.append(self.tag(t, self.inline(depth + 1, links)))
            elif x < 0.82 and links and "links" in self.f:
                out.append(self.link(depth))
            elif x < 0.9 and links and "imgs" in self.f:
                out.append(self.img())
            elif x < 0.95 and "br" in self.f:
                out.append(r.choice(("<br>", "<br/>", "<br />", "</br>")))
            elif "code" in self.f:
                out.append(self.tag("code", self.text(1, 3)))
            else:
                out.append(self.text(1, 3))
            out.append(self.noise())
            if r.random() < 0.4:
                out.append(self.ws())
        return "".join(out)

    # -- blocks
    def code_block(self):
        r = self.rng
        lines = []
        for _ in range(r.randint(1, 4)):
            parts = []
            for _ in range(r.randint(1, 4)):
                w = self.word()
                if "styled" in self.f and r.random() < 0.5:
                    w = '<span class="%s">%s</span>' % (r.choice(("k", "s", "nf", "c1", "mi", "o", "kd", "nb")), w)
                parts.append(w)
            lines.append("  " * r.randint(0, 2) + "  ".join(parts))
        nl = "\n"
        if "crlf" in self.f:
            nl = r.choice(("\n", "\r\n", "\r\n", "\r", "\f\n", "\v"))
        body = nl.join(lines)
        if r.random() < 0.5:
            body += nl
        if r.random() < 0.6:
            body = self.tag("code", body, "")
        s = self.tag("pre", body, "")
        if r.random() < 0.3:
            s = self.tag("div", s, ' class="highlight"')
        return s

    def cdata(self):
        """Elements in which markup is text for the tokenizer (or used to be)."""
        r = self.rng
        t = r.choice(("script", "script", "style", "style", "textarea", "title"))
        body = " ".join(self.word() + r.choice(("", " < ", "<p>", "&amp;", " && ", "</p>", "<!-- ", "\n", " > "))
                        for _ in range(r.randint(0, 4)))
        s = "<%s>%s" % (self.name(t), body)
        if "unclosed" not in self.f or r.random() < 0.9:
            s += "</%s>" % self.name(t)
        return s

    def items(self, kind, depth, count=None):
        r = self.rng
        out = [self.sep()]
        for _ in range(count or r.randint(1, 4)):
            x = r.random()
            if "nested" in self.f and depth < 3 and x < 0.25:
                inner = self.text(1, 4) + self.sep() + self.list_(depth + 1)
            elif x < 0.4:
                inner = self.tag("p", self.inline(2)) + self.sep()
            else:
                inner = self.inline(2)
            out.append(self.tag("li", inner))
            out.append(self.sep())
            out.append(self.noise())
        return "".join(out)

    def list_(self, depth=0):
        kind = self.rng.choice(("ul", "ol", "ol"))
        return self.tag(kind, self.items(kind, depth))

    def block(self, depth=0):
        r = self.rng
        opts = ["p", "p"]
        if "headers" in self.f:
            opts.append("h")
        if "lists" in self.f:
            opts += ["list", "list"]
        if "pre" in self.f:
            opts.append("pre")
        if "quotes" in self.f and depth < 3:
            opts.append("quote")
        if "deflists" in self.f:
            opts.append("dl")
        if "nested" in self.f and depth < 3:
            opts.append("div")
        if "tables" in self.f:
            opts.append("table")
        if "roottext" in self.f:
            opts.append("text")
        if "voids" in self.f:
            opts.append("void")
        if "cdata" in self.f:
            opts.append("cdata")
        k = r.choice(opts)
        if k == "p":
            return self.tag("p", self.inline())
        if k == "h":
            return self.tag("h%d" % r.randint(1, 6), self.inline(2))
        if k == "list":
            return self.list_(depth)
        if k == "pre":
            return self.code_block()
        if k == "quote":
            n = r.randint(1, 3)
            return self.tag("blockquote", self.sep() + self.sep().join(self.block(depth + 1) for _ in range(n)) + self.sep())
        if k == "div":
            n = r.randint(1, 3)
            return self.tag(r.choice(RARE) if "rare" in self.f and r.random() < 0.5 else "div", self.sep() + self.sep().join(self.block(depth + 1) for _ in range(n)) + self.sep())
        if k == "dl":
            out = [self.sep()]
            for _ in range(r.randint(1, 3)):
                out.append(self.tag("dt", self.text(1, 3)))
                out.append(self.sep())
                for _ in range(r.randint(1, 2)):
                    out.append(self.tag("dd", self.inline(2)))
                    out.append(self.sep())
            return self.tag("dl", "".join(out))
        if k == "table":
            return self.tag("table", self.tag("tr", self.tag("td", self.inline(2)) + self.tag("td", self.text())))
        if k == "cdata":
            return self.cdata()
        if k == "void":
            if "rare" in self.f and r.random() < 0.7:
                return r.choice(("<%s>", "<%s/>", "<%s />", "</%s>", "<%s></%s>", "<%s y/>")).replace("%s", r.choice(RARE_VOID + RARE))
            return r.choice(("<hr/>", "<input/>", "<hr>", "<meta x>"))
        return self.inline()

    def doc(self):
        out = [self.noise()]
        for _ in range(self.size):
            out.append(self.block())
            out.append(self.sep())
            out.append(self.noise())
        if "blanks" in self.f and self.rng.random() < 0.3:
            out.append(self.ws())
        return "".join(out)


def large_doc(rng, g=None):
    """A document with very many of something: words, lines, blocks, items,
    links, classes, or one very long word or value."""
    g = g or Gen(rng)
    g.f -= {"longwords", "unclosed", "mismatched"}
    k = rng.choice(("words", "lines", "pre", "blocks", "items", "links", "inline", "classes", "value", "word", "roots"))
    n = rng.choice((101, 130, 260, 300))
    t = rng.choice(("p", "div", "li", "em", "span", "h2", "td"))
    if k == "words":
        s = "<%s>%s</%s>" % (t, g.text(n, 5 * n), t)
    elif k == "lines":
        s = "<%s>%s</%s>" % (t, "\n".join(g.word() for _ in range(n)), t)
    elif k == "pre":
        s = "<pre>%s</pre>" % "\n".join("  " * rng.randrange(3) + g.word() for _ in range(n))
    elif k == "blocks":
        s = "".join("<p>%s</p>%s" % (g.word(), g.sep()) for _ in range(n))
    elif k == "items":
        s = "<%s>%s</%s>" % (("ol",) + (g.items("ol", 9, n),) + ("ol",)) if rng.random() < 0.7 else "<ul>%s</ul>" % g.items("ul", 9, n)
    elif k == "links":
        g.simple = rng.random() < 0.8
        a = [g.link(9) if rng.random() < 0.8 else g.img() for _ in range(n)]
        s = "<p>%s</p>" % " ".join(a) if rng.random() < 0.4 else "".join("<p>%s</p>" % x for x in a)
    elif k == "inline":
        s = "<p>%s</p>" % " ".join("<%s>%s</%s>" % (x, g.word(), x) for x in (rng.choice(INLINE) for _ in range(n)))
    elif k == "classes":
        s = "<%s class='%s'>%s</%s>" % (t, " ".join("K%d" % j for j in range(n)), g.text(), t)
    elif k == "value":
        s = "<%s title='%s'>%s</%s>" % (t, "V" * rng.choice((1000, 5000)), g.text(), t)
    elif k == "word":
        s = "<%s>%s %s</%s>" % (t, g.word(), "".join(rng.choice(_LOW) for _ in range(rng.choice((500, 3000)))), t)
    else:
        s = "".join("%s<%s>%s</%s>%s" % (g.word(), x, g.word(), x, g.ws()) for x in (rng.choice(INLINE) for _ in range(n)))
    return g.block() + s + g.block() if rng.random() < 0.5 else s


# ---------------------------------------------------------------- markdown

def markdown_doc(rng):
    """A document as the command line program's Markdown front end makes it."""
    return markdown_to_html(markdown_source(rng))


def markdown_source(rng, blocks=None):
    g = Gen(rng, features=["punct"] if rng.random() < 0.3 else [])

    def t(lo=1, hi=8):
        return " ".join(g.word() for _ in range(rng.randint(lo, hi)))
    out = []
    for _ in range(blocks or rng.randint(1, 6)):
        k = rng.randrange(8)
        if k == 0:
            out.append("#" * rng.randint(1, 4) + " " + t(1, 4))
        elif k == 1:
            out.append("\n".join("%d. %s" % (i + 1, t(1, 5)) for i in range(rng.randint(1, 4))))
        elif k == 2:
            out.append("\n".join("* " + t(1, 5) for i in range(rng.randint(1, 4))))
        elif k == 3:
            out.append("> " + t() + "\n> " + t())
        elif k == 4:
            out.append("```python\ndef %s(x):\n    return x + \"%s\"\n```" % (g.word() or "f", t(1, 2)))
        elif k == 5:
            out.append(t(1, 2) + "\n:   " + t())
        elif k == 6:
            out.append("%s [%s](http://X.Y/%d \"T\") *%s* **%s** `%s`" % (t(), t(1, 2), rng.randint(1, 99), t(1, 2), t(1, 2), t(1, 2)))
        else:
            out.append(t(5, 30))
    return "\n\n".join(out) + "\n"


def markdown_to_html(src):
    import markdown
    md = markdown.Markdown(
        extensions=['markdown.extensions.codehilite', 'markdown.extensions.extra', 'markdown.extensions.meta'],
        extension_configs={'markdown.extensions.codehilite': {'css_class': 'highlight'},
                           'markdown.extensions.extra': {}, 'markdown.extensions.meta': {}},
        output_format='html5')
    return md.convert(src)


DEEP = ("div", "blockquote", "ul", "ol", "li", "p", "em", "strong", "span", "x1", "dl", "dd", "u", "h3", "code")


def deep_doc(rng, depth, gen=None):
    """Nesting down to `depth`, every level with text before and after."""
    g = gen or Gen(rng, ["punct"])
    chain = [rng.choice(DEEP) for _ in range(depth)]
    x = rng.random()
    if x < 0.25:
        chain = [chain[0]] * depth
    elif x < 0.5:
        chain = ([chain[0], chain[1]] * depth)[:depth]
    out = []
    for t in chain:
        out.append("<%s>" % t)
        if rng.random() < 0.6:
            out.append(g.text(1, 3))
    closed = rng.randint(0, depth)
    for t in reversed(chain[depth - closed:] if closed else []):
        if rng.random() < 0.5:
            out.append(g.text(1, 2))
        out.append("</%s>" % t)
    return "".join(out)


def any_doc(rng, features=None, size=None):
    if rng.random() < 0.12:
        return markdown_doc(rng)
    return Gen(rng, features, size).doc()


# ---------------------------------------------------------------- cut points

def random_cuts(rng, doc):
    """Cut offsets: one of several families of delivery schedules."""
    n = len(doc)
    if n == 0:
        return [0] * rng.randint(0, 2)
    fam = rng.randrange(7)
    if fam == 0:                                   # one character at a time
        return list(range(1, n)) if n <= 1500 else list(range(1, n, 1 + n // 1500))
    if fam == 1:                                   # one cut
        return [rng.randrange(n + 1)]
    if fam == 2:                                   # fixed block size
        b = rng.choice([2, 3, 5, 7, 16, 33, 64])
        return list(range(b, n, b))
    if fam == 3:                                   # around markup
        pts = [m.start() for m in re.finditer(r"[<>&;\s\"'=/]", doc)]
        pts += [p + 1 for p in pts]
        if not pts:
            return [rng.randrange(n + 1)]
        k = rng.randint(1, min(12, len(pts)))
        return sorted(rng.sample(pts, k))
    if fam == 4:                                   # inside whitespace runs
        pts = []
        for m in re.finditer(r"\s+", doc):
            pts.extend(range(m.start(), m.end() + 1))
        if not pts:
            return [rng.randrange(n + 1)]
        k = rng.randint(1, min(10, len(pts)))
        return sorted(rng.sample(pts, k))
    if fam == 5:                                   # with empty pieces
        c = [rng.randrange(n + 1) for _ in range(rng.randint(1, 6))]
        return sorted(c + [rng.choice(c) for _ in range(2)] + [0, n])
    return sorted(rng.randrange(n + 1) for _ in range(rng.randint(2, 12)))


# ---------------------------------------------------------------- stream faults

_TAG = re.compile(r"<[^<>]*>")


def damage_tags(rng, doc, n):
    """Tag-level damage: drop, duplicate, swap, rename. Returns doc, counts."""
    counts = {}
    for _ in range(n):
        tags = list(_TAG.finditer(doc))
        if not tags:
            break
        m = rng.choice(tags)
        kind = rng.choice(("drop", "dup", "swap", "rename", "unslash"))
        if kind == "drop":
            doc = doc[:m.start()] + doc[m.end():]
        elif kind == "dup":
            doc = doc[:m.end()] + m.group() + doc[m.end():]
        elif kind == "swap":
            m2 = rng.choice(tags)
            a, b = (m, m2) if m.start() < m2.start() else (m2, m)
            if a.start() == b.start():
                continue
            doc = doc[:a.start()] + b.group() + doc[a.end():b.start()] + a.group() + doc[b.end():]
        elif kind == "rename":
            t = re.sub(r"^</?[a-zA-Z0-9]+", lambda k: ("</" if k.group().startswith("</") else "<") +
                       rng.choice(("p", "li", "ol", "div", "em", "x1", "pre", "h2", "blockquote", "td")), m.group())
            if "href" in t or "src" in t:
                continue
            doc = doc[:m.start()] + t + doc[m.end():]
        else:
            if m.group().startswith("</"):
                doc = doc[:m.start()] + "<" + m.group()[2:] + doc[m.end():]
            else:
                continue
        counts["tag_" + kind] = counts.get("tag_" + kind, 0) + 1
    return doc, counts


_VALUE = re.compile(r"""(?<=[a-z])=("[^"<>]*"|'[^'<>]*')""")


def lose_values(rng, doc, n):
    """Attributes that lost their values, or whose values lost their text."""
    counts = {}
    for _ in range(n):
        vals = list(_VALUE.finditer(doc))
        if not vals:
            break
        m = rng.choice(vals)
        kind = rng.choice(("lost", "lost", "empty", "blank"))
        doc = doc[:m.start()] + {"lost": "", "empty": '=""', "blank": "=' '"}[kind] + doc[m.end():]
        counts["value_" + kind] = counts.get("value_" + kind, 0) + 1
    return doc, counts


_FLIPS = "<>/\"'=& \t\n\r\0;#!?-[]:%A0z{}é\u2028\x1b\x0b.@\\|"


def damage_bytes(rng, doc, n):
    counts = {}
    for _ in range(n):
        if not doc:
            break
        i = rng.randrange(len(doc))
        kind = rng.choice(("flip", "flip", "drop", "insert", "cutout", "dup"))
        if kind == "flip":
            doc = doc[:i] + rng.choice(_FLIPS) + doc[i + 1:]
        elif kind == "drop":
            doc = doc[:i] + doc[i + 1:]
        elif kind == "insert":
            doc = doc[:i] + rng.choice(_FLIPS) + doc[i:]
        elif kind == "cutout":
            j = min(len(doc), i + rng.randint(1, 20))
            doc = doc[:i] + doc[j:]
        else:
            j = min(len(doc), i + rng.randint(1, 30))
            doc = doc[:j] + doc[i:j] + doc[j:]
        counts["byte_" + kind] = counts.get("byte_" + kind, 0) + 1
    return doc, counts


def truncate(rng, doc):
    return doc[:rng.randrange(len(doc) + 1)]


# ---------------------------------------------------------------- reference

class _Ref(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.events = []

    def handle_starttag(self, tag, attrs):
        self.events.append(("s", tag, attrs))

    def handle_endtag(self, tag):
        self.events.append(("e", tag))

    def handle_data(self, data):
        if self.events and self.events[-1][0] == "d":
            self.events[-1] = ("d", self.events[-1][1] + data)
        else:
            self.events.append(("d", data))

    def handle_comment(self, data):
        self.events.append(("c", data))

    def handle_decl(self, data):
        self.events.append(("!", data))

    def handle_pi(self, data):
        self.events.append(("?", data))

    def unknown_decl(self, data):
        self.events.append(("u", data))


def tokenize(chunks):
    """Tokenizer events with adjacent text merged; None if the tokenizer
    itself rejects the stream."""
    p = _Ref()
    try:
        for c in chunks:
            p.feed(c)
        p.close()
    except Exception:
        return None
    return p.events


class Node(object):
    __slots__ = ("tag", "attrs", "parent", "children", "open")

    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.parent = tag, attrs, parent
        self.children = []


def build_tree(events):
    """The element structure of the stream: an end tag closes the innermost
    open element if it has that name and is ignored otherwise; br and img have
    no content; elements still open at the end of the stream end there.
    Returns (root, order, maxdepth) where order lists ('open', node),
    ('close', node), ('data', node, text)."""
    root = Node(None, {}, None)
    stack = [root]
    order = []
    maxdepth = 0
    for e in events:
        if e[0] == "s":
            n = Node(e[1], dict(e[2]), stack[-1])
            stack[-1].children.append(n)
            order.append(("open", n))
            if e[1] in VOID:
                order.append(("close", n))
            else:
                stack.append(n)
                maxdepth = max(maxdepth, len(stack) - 1)
        elif e[0] == "e":
            if e[1] in VOID:
                continue
            if len(stack) > 1 and stack[-1].tag == e[1]:
                order.append(("close", stack.pop()))
        elif e[0] == "d":
            stack[-1].children.append(e[1])
            order.append(("data", stack[-1], e[1]))
    while len(stack) > 1:
        order.append(("close", stack.pop()))
    return root, order, maxdepth


_KEEP_PUNCT = set(";,?%$@/^+{}\\&")


def keep(c):
    """Characters of document text that no renderer's decoration contains
    (decorations, link targets and titles generated here have no lower case
    letters outside the words removed by strip_words)."""
    if c in _KEEP_PUNCT:
        return True
    if c.isalpha():
        return not c.isupper()
    # Marks and symbols beyond ASCII, which no decoration uses
    return c > "\x9f" and not c.isspace() and c != "\xad" and c not in "\u2028\u2029\ufeff"


def kept(s):
    return "".join(c for c in s if keep(c))


WORDS = re.compile("Image|None")     # printed for images and missing targets


LOOSE_WORDS = re.compile(r"I\W*m\W*a\W*g\W*e|N\W*o\W*n\W*e")


def text_chars(chars, mark=None):
    """From a sequence of (character, ...) tuples, those that are document
    text: decoration dropped, also the words above, even when a line break
    and line decoration came between their letters. A mark is one more
    character that counts as text."""
    seq = [c for c in chars if keep(c[0]) or c[0].isupper() or c[0] == mark]
    flat = "".join(c[0] for c in seq)
    out = []
    pos = 0
    for m in WORDS.finditer(flat):
        out.extend(seq[pos:m.start()])
        pos = m.end()
    out.extend(seq[pos:])
    return [c for c in out if keep(c[0]) or c[0] == mark]


def text_of(s, mark=None):
    return "".join(c[0] for c in text_chars([(c,) for c in s], mark))


ESC = re.compile(r"\x1b\[[;\d]*m")


def strip_esc(s):
    return ESC.sub("", s)
