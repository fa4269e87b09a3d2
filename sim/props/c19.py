"""C19: damage stays where it struck."""
import core
import docs
import session

RULE = ("one run = a document of 2-6 top-level blocks, some of them damaged in transit (tags dropped / duplicated / renamed, "
        "bytes flipped, values lost, cut off), delivered in pieces. By the tokenizer's element structure, the blocks up to the "
        "first damaged one that does not end (all, if all end) must be shown exactly as each of them is shown alone, and what follows "
        "may only be added after them. Non-trivial when a block was damaged and another one was not. Distinct counts distinct "
        "(damaged blocks, delivery, configuration) digests.")
MEASURE = "distinct digests of (damaged blocks, delivery, configuration)"
REAL = ["html.parser", "gopher_render (all modules)"]
STUB = ["the stream (faults applied before delivery)"]
ASSUME = ["renderer maps without selectors that look at the siblings of top-level elements",
          "links are numbered through the document, so blocks with extracted links are compared with the document that "
          "stops after them instead of with themselves alone; their entries are placed after blocks or nowhere",
          "nesting at most 100 levels (50 with borders or line prefixes)"]
QUICK = (42000, 50)
THOROUGH = (400000, 600)
SHRINK = ("blocks", "cuts")
RENDS = ("default", "full", "center", "right", "boxed", "headers", "subs", "ansi", "ansifull", "starts", "prefix") + \
    tuple("theme:" + t for t in session.THEMES)
# matched by their position among the top-level elements in the default map
POSITIONAL = ("li", "dt")


def gen(rng, tier, i):
    feats = set(rng.sample(docs.FEATURES, rng.randint(3, 12))) - {"roottext", "mismatched", "unclosed"}
    if rng.random() < 0.5:
        feats -= {"links", "imgs"}
    feats = sorted(feats)
    g = docs.Gen(rng, feats)
    blocks, faults = [], {}
    hit = rng.random()
    for k in range(rng.choice([2, 2, 3, 3, 4, 6])):
        b = g.block() + rng.choice(["", "", "\n", "\n\n  "])
        if rng.random() < hit * 0.8:
            c = {}
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.random()
                if x < 0.45:
                    b, c1 = docs.damage_tags(rng, b, rng.choice([1, 1, 2, 3]))
                elif x < 0.8:
                    b, c1 = docs.damage_bytes(rng, b, rng.choice([1, 1, 2]))
                elif x < 0.9:
                    b, c1 = docs.lose_values(rng, b, 2)
                else:
                    b, c1 = docs.truncate(rng, b), {"cut_off": 1}
                for f, n in c1.items():
                    c[f] = c.get(f, 0) + n
            for f, n in c.items():
                faults[f] = faults.get(f, 0) + n
            blocks.append([b, 1])
        else:
            blocks.append([b, 0])
    cfg = session.random_cfg(rng, rends=RENDS)
    if cfg["box"]:
        cfg["box"]["margin"] = [0, cfg["box"]["margin"][1], 0, 0]
    n = sum(len(b) for b, _ in blocks)
    return {"cfg": cfg, "blocks": blocks, "faults": faults,
            "cuts": docs.random_cuts(rng, "".join(b for b, _ in blocks)) if n and rng.random() < 0.4 else []}


def _lines(s, opt):
    return "\n".join(x.rstrip() for x in s.split("\n")) if opt else s


def execute(spec):
    cfg = dict(spec["cfg"])
    blocks = [b for b, _ in spec["blocks"] if b]
    if len(blocks) < 2:
        raise core.Invalid("nothing to compare")
    # the events of the blocks, and where they stop being separate
    evs = []
    for b in blocks:
        ev = docs.tokenize([b])
        if ev is None:
            raise core.Invalid("rejected by the tokenizer")
        evs.append(ev)
    doc = "".join(blocks)
    whole = docs.tokenize(session.chunks_of(doc, spec["cuts"]))
    if whole is None:
        raise core.Invalid("rejected by the tokenizer")
    sound, at, links = 0, 0, 0
    for k, ev in enumerate(evs):
        if not ev or whole[at:at + len(ev)] != ev:
            break
        root, order, depth = docs.build_tree(ev)
        if not root.children:
            break
        if k and isinstance(root.children[0], str) and isinstance(last, str):
            break                                   # one text
        last = root.children[-1]
        if depth > 100 or session.multiplies(cfg, depth):
            raise core.Invalid("too deep")
        if _open(ev):
            break
        at += len(ev)
        sound += 1
    if sound == len(evs) and at != len(whole):
        sound -= 1
    depth = docs.build_tree(whole)[2]
    if depth > 100 or session.multiplies(cfg, depth):
        raise core.Invalid("too deep")
    for ev in evs[:sound]:
        if any(not isinstance(c, str) and c.tag in POSITIONAL for c in docs.build_tree(ev)[0].children):
            raise core.Invalid("matched by position")
    if sound == 0:
        raise core.Invalid("no block ends")
    tags = [e[1] for e in whole if e[0] == "s"]
    extracted = ("a" in tags and cfg["lp"] != "inline") or ("img" in tags and cfg["ip"] != "inline")
    stats = {"fault." + k: v for k, v in spec["faults"].items()}
    stats.update({"blocks": len(blocks), "probe.blocks_up_to_the_damage": sound, "probe.all_blocks_end": int(sound == len(blocks)),
                  "probe.damaged_blocks_that_end": sum(d for (b, d) in [x for x in spec["blocks"] if x[0]][:sound])})
    sig = core.sha(spec)
    if extracted:
        cfg["ext"] = "none"
        if any(not isinstance(c, str) and c.tag in ("a", "img") for ev in evs for c in docs.build_tree(ev)[0].children):
            raise core.Invalid("entries of links outside any block come at the end")
    with session.StepMeter(5 * session.STEP_LIMIT):
        got = session.render(cfg, session.chunks_of(doc, spec["cuts"]))
        if extracted:
            parts = [session.render(cfg, ["".join(blocks[:sound])])]
        else:
            parts = [session.render(dict(cfg, opt=False), [b]) for b in blocks[:sound]]
    if got[0] != "ok" or any(p[0] != "ok" for p in parts):
        raise core.Invalid("not rendered")          # C15's business
    stats["probe.extracted_links"] = int(extracted)
    want = _lines("".join(p[1] for p in parts), cfg["opt"])
    have = got[1]
    full = sound == len(blocks) and not extracted
    if full:
        same = have == want
    else:
        # what follows may complete the last line
        want = want.rstrip()
        same = have.startswith(want)
    if not same:
        n = 0
        while n < min(len(want), len(have)) and want[n] == have[n]:
            n += 1
        return core.bad("spread", {"at": n, "alone": want[max(0, n - 80):n + 80], "together": have[max(0, n - 80):n + 80],
                                   "blocks_that_end": sound}, stats, sig)
    dmg = sum(d for b, d in spec["blocks"] if b)
    return core.ok(stats, sig, trivial=not dmg or dmg == len(blocks))


def _open(ev):
    stack = []
    for e in ev:
        if e[0] == "s" and e[1] not in docs.VOID:
            stack.append(e[1])
        elif e[0] == "e" and e[1] not in docs.VOID and stack and stack[-1] == e[1]:
            stack.pop()
    return bool(stack)
