"""C01: rendering does not depend on how the document was delivered."""
import core
import docs
import session

RULE = ("one run = one generated document (HTML grammar or Markdown front end, random feature subset) + one "
        "configuration + one to four delivery schedules (cut offsets incl. empty pieces), optionally a reset-and-repeat on the "
        "same parser; non-trivial when at least two non-empty pieces are delivered. Distinct counts distinct (document, "
        "schedule, configuration) digests.")
MEASURE = "distinct digests of (document, cut points, configuration)"
REAL = ["html.parser", "gopher_render parser, selectors, renderers, wrapping"]
STUB = ["the stream delivering the document (simulated piece by piece)"]
ASSUME = ["documents on which the standard library tokenizer itself depends on the cut points are outside the domain "
          "(checked on every run by tokenizing both ways)"]
QUICK = (36000, 50)
THOROUGH = (200000, 600)
SHRINK = ("more", "doc", "cuts")

SPECIAL = "\ufeff\ufeff\xad\u0301\u200d\u200b\0\x1a\x0b\x0c\x1c\x85\u2028\u2029\r\xa0\u3000\u200f\U0001f600\U000e0020\x1b\t\n"


def gen(rng, tier, i):
    doc = docs.any_doc(rng, size=rng.choice([None, 1, 1, 2])) if rng.random() < 0.98 else docs.large_doc(rng)
    if rng.random() < 0.08:
        doc = doc.replace("\r\n", "\n").replace("\n", rng.choice(("\r\n", "\r\n", "\r", "\n\r")))
    if rng.random() < 0.06:             # anything can be inside preformatted text
        doc = "<pre>%s</pre>" % doc
    if rng.random() < 0.15:
        doc, _ = docs.damage_tags(rng, doc, rng.randint(1, 3))
    if rng.random() < 0.15:
        doc = docs.truncate(rng, doc)
    if rng.random() < 0.06:
        doc += rng.choice(("<script>if (a<b) { x(\"</p>\") }\n</script>", "<style>p { a: b }\n</style> t", "<textarea> a\n b</textarea>"))
    if rng.random() < 0.03:
        doc = "\ufeff" + doc
    if rng.random() < 0.04:
        # a long run of text around the tokenizer's look-behind for entities
        doc += "<p>" + " ".join("w&amp;%s" % ("x" * rng.randint(20, 40)) for _ in range(5)) + "</p>"
    cfg = session.random_cfg(rng, rends=session.MORE_SETS)
    cuts = docs.random_cuts(rng, doc)
    if rng.random() < 0.12:
        # characters that programs treat specially, at the edges of pieces
        marks = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.randrange(len(doc) + 1)
            if rng.random() < 0.7 and doc.rfind("<", 0, k) > doc.rfind(">", 0, k):
                k = doc.find(">", k) + 1
            doc = doc[:k] + rng.choice(SPECIAL) + doc[k:]
            marks = [m + (m >= k) for m in marks] + [k]
        cuts = sorted(min(len(doc), m + rng.randrange(2)) for m in marks)
    spec = {"cfg": cfg, "doc": doc, "cuts": cuts, "peek": rng.random() < 0.2}
    # other schedules for the same document, as one piece is rendered anyway
    spec["more"] = [docs.random_cuts(rng, doc) for _ in range(3 if len(doc) < 400 else 2 if len(doc) < 1000 else 0)]
    return spec


def _go(cfg, chunks, peek):
    def go():
        p = session.make_parser(cfg)
        for c in chunks:
            p.feed(c)
            if peek:
                p.parsed
        p.close()
        return p.parsed
    with session.StepMeter():
        return session.outcome_of(go)


def execute(spec):
    doc = spec["doc"]
    whole = docs.tokenize([doc])
    want = None
    stats = {"reference_exceptions": 0}
    sig = core.sha(doc, spec["cuts"], spec.get("more"), sorted(spec["cfg"].items(), key=str))
    most = 0
    tried = 0
    for cuts in [spec["cuts"]] + spec.get("more", []):
        chunks = session.raw_chunks_of(doc, cuts)
        if whole != docs.tokenize(chunks):
            continue                    # the tokenizer depends on the cuts
        if want is None:
            want = _go(spec["cfg"], [doc], False)
            stats["reference_exceptions"] = int(want[0] != "ok")
        got = _go(spec["cfg"], chunks, spec["peek"])
        tried += 1
        most = max(most, sum(1 for c in chunks if c))
        for k, v in _probes(doc, chunks).items():
            stats[k] = stats.get(k, 0) + v
        if got != want:
            # both again, in processes of their own
            want = core.in_child(_go, spec["cfg"], [doc], False)
            got = core.in_child(_go, spec["cfg"], chunks, spec["peek"])
        if got != want:
            return core.bad("differs" if got[0] == want[0] == "ok" else "outcome:%s/%s" % (want[0], got[0]),
                            {"one_call": want, "pieces": got, "chunks": chunks}, stats, sig)
    if not tried:
        raise core.Invalid("tokenizer depends on the cuts")
    stats["schedules"] = tried
    return core.ok(stats, sig, trivial=most < 2)


def _probes(doc, chunks):
    return {"feeds": len(chunks), "fault.cut": max(0, len(chunks) - 1),
            "fault.empty_piece": sum(1 for c in chunks if not c),
            "probe.cut_in_tag": sum(1 for a in _offsets(chunks) if doc.rfind("<", 0, a) > doc.rfind(">", 0, a)),
            "probe.cut_in_whitespace": sum(1 for a in _offsets(chunks) if 0 < a < len(doc) and doc[a - 1].isspace() and doc[a].isspace()),
            "probe.cut_in_entity": sum(1 for a in _offsets(chunks) if doc.rfind("&", max(0, a - 8), a) > doc.rfind(";", 0, a)),
            "probe.cut_in_crlf": sum(1 for a in _offsets(chunks) if doc[a - 1:a + 1] == "\r\n")}


def _offsets(chunks):
    o = 0
    out = []
    for c in chunks[:-1]:
        o += len(c)
        out.append(o)
    return out
