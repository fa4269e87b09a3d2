"""C11: a successful command line run means the whole document was written."""
import errno
import os

import clisim
import core
import docs

RULE = ("one run = a history of 1-4 executions of the command line program on one scratch directory, each with its own "
        "document (the source is replaced between executions; some are megabytes long or end next to a block boundary; the "
        "destination can be a link or a pipe, the locale can lack characters, which must not go unnoticed), option and system call faults: short reads and writes, "
        "interrupted calls, failing opens / reads / writes / closes, a disk that fills up, a kill before or after the k-th "
        "operation; the last execution is fault-free or has only short or interrupted calls. After every execution: exit "
        "status 0 implies that standard output and destination hold exactly the expected bytes (computed without the "
        "program) and that no operation failed; executions whose calls were at most short or interrupted must succeed. "
        "Non-trivial when at least one fault struck. Distinct counts distinct (system call trace with faults, document) digests.")
MEASURE = "distinct digests of the recorded system call traces (operation, file class, result, fault) together with the documents"
REAL = ["gopher_render.cli, gopher_render.__main__, all of gopher_render", "markdown, pygments", "Python's io stack, argument "
        "parsing and interpreter shutdown", "the kernel's file system below the seam"]
STUB = ["results of system calls on the scratch files and standard output (LD_PRELOAD seam)"]
ASSUME = ["the file system itself neither loses nor reorders completed writes (the program promises no durability across power loss)",
          "the source is not changed during an execution",
          "standard output is buffered, as it is by default (with python -u the interpreter itself drops the rest of a short write)"]
MEMORY = False
QUICK = (15000, 50)
THOROUGH = (200000, 600)
SHRINK = ("doc", "rounds", "plan")
prepare = clisim.prepare

HARD = {
    "open S": ["EIO", "EACCES", "EMFILE", "ENOENT"], "read S": ["EIO", "EISDIR", "ESTALE"], "close S": ["EIO"],
    "open D": ["EACCES", "EROFS", "ENOSPC", "EMFILE", "EIO"], "write D": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "close D": ["EIO", "ENOSPC", "EDQUOT"], "write 1": ["EPIPE", "ENOSPC", "EIO", "EBADF"],
}


def plan(rng, last, size):
    least = 1 + size // 60              # keeps executions below a few hundred calls
    p = []
    if rng.random() < 0.5:
        p.append("rlim %d" % max(least, rng.choice([1, 2, 3, 7, 64, 1000, 4096])))
    if rng.random() < 0.5:
        p.append("wlim %d" % max(least, rng.choice([1, 2, 5, 13, 100, 1000, 4096])))
    if rng.random() < 0.35:
        p.append("eintr %d" % rng.choice([2, 2, 3, 5, 7]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = rng.choice(sorted(k for k in HARD if not k.startswith("close")))
        p.append("fail %s %d %d" % (op, rng.choice([0, 0, 1, 2, 3]), errno.EINTR))
    if last or rng.random() < 0.15:
        return p
    x = rng.random()
    if x < 0.55:
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(sorted(HARD))
            nth = rng.choice([0, 0, 0, 1, 2, 3, 5, 8]) if op[0] in "rw" else 0
            p.append("fail %s %d %d" % (op, nth, getattr(errno, rng.choice(HARD[op]))))
    elif x < 0.7:
        p.append("disk %d" % rng.choice([0, 1, 5, 20, 50, 100, 200, 500, 4096, 8192, 10000]))
    else:
        p.append("%s %d" % (rng.choice(["kill", "killafter"]), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 25, 40])))
    return p


def document(rng, suffix):
    x = rng.random()
    if x < 0.5:
        d = docs.markdown_source(rng)
    elif x < 0.9:
        d = docs.any_doc(rng)
    elif suffix == ".md":
        d = docs.markdown_source(rng, rng.choice([20, 60, 120]))
    else:
        d = "".join(docs.any_doc(rng, size=8) for _ in range(rng.choice([3, 6, 12])))
    if rng.random() < 0.1:
        d = docs.truncate(rng, d)
    if rng.random() < 0.03:
        d = ""
    return d


def filler(rng):
    """More of the source: [kind, characters, block, characters beyond it].
    The rendered document is made so long that it ends next to a multiple of
    the block, where block is not 0."""
    if rng.random() < 0.5:
        return [rng.choice(["text", "text", "wide"]), rng.choice([0, 0, 1, 2, 9]) * rng.choice([4096, 8192, 8192, 65536]),
                rng.choice([512, 1024, 4096, 8192, 8192, 16384, 65536]), rng.choice([-1, 0, 0, 1, 1, 2])]
    return [rng.choice(["comment", "comment", "text", "lines"]),
            rng.choice([5000, 9000, 17000, 40000, 70000, 70000, 140000, 300000, 600000, 1100000, 1100000, 2200000]), 0, 0]


def fill(kind, n):
    if kind == "comment":
        return "\n\n<!-- %s -->\n\nend of it\n" % ("x" * n)
    if kind == "lines":
        return "\n\n<pre>%s</pre>\n\nend of it\n" % ("0123456789\n" * (n // 11))
    return "\n\n<pre>%s</pre>\n" % ((u"\u00e9" if kind == "wide" else "x") * max(n, 1))


def whole(doc, filler, markdown_source):
    """[bytes of the source, expectation] with the filler in place."""
    def with_(n):
        data = (doc + (fill(filler[0], n) if filler else "")).encode("utf-8", "replace")
        return data, clisim.expectation(data, markdown_source)
    n = filler[1] if filler else 0
    data, exp = with_(max(n, 1))
    if exp is not None and filler and filler[2]:
        more = (filler[3] - len(exp[1])) % filler[2]
        if more:
            data, exp = with_(max(n, 1) + more)
    return data, exp


def _edited(rng, doc):
    """A new version of the source, of the same length."""
    at = [k for k, c in enumerate(doc) if c.isalpha() and c.islower()]
    if not at:
        return None
    k = rng.choice(at)
    return doc[:k] + rng.choice("abcdefghijklmnopqrstuvwxyz") + doc[k + 1:]


def gen(rng, tier, i):
    n = rng.choice([1, 2, 2, 2, 3, 4])
    suffix = rng.choice([".md", ".md", ".html", ".txt", ""])
    rounds, size, last = [], 0, ""
    for k in range(n):
        doc = document(rng, suffix) if k == 0 or rng.random() < 0.5 else None
        if doc is None and rng.random() < 0.4:
            doc = _edited(rng, last)
        last = doc or last
        more = filler(rng) if doc is not None and rng.random() < 0.06 else None
        size = len(doc) + (more[1] + more[2] if more else 0) if doc is not None else size
        rounds.append({"doc": doc, "dump": rng.random() < 0.3, "plan": plan(rng, k == n - 1, size)})
        if more:
            rounds[-1]["filler"] = more
        if rng.random() < 0.2:
            rounds[-1]["aged"] = rng.choice([0, 1, 10 ** 9, 4 * 10 ** 9])
    return {"suffix": suffix, "dest": rng.choice(["new", "new", "old", "old", "subdir", "symlink", "abs", "alike", "short", "long", "pipe"]),
            "mode": rng.choice(["ascii", "ascii-files"]) if rng.random() < 0.03 else "fresh" if rng.random() < 0.02 else rng.choice(["fork", "fork", "entry"]), "rounds": rounds,
            "name": rng.choice(["page", "page", "a page", "p\u00e4ge", "-page", "~page", "$HOME", "%s"]),
            "sdir": rng.choice(["", "", "in"]), "dname": rng.choice(["out.txt", "out.txt", "out", "~out", "$HOME.txt", "o{}%s", "out.md"])}


def drain(fd):
    got = b""
    while True:
        try:
            got += os.read(fd, 1 << 16)
        except BlockingIOError:
            return got


def execute(spec):
    pipe = []
    try:
        return _execute(spec, pipe)
    finally:
        for fd in pipe:
            os.close(fd)


def _execute(spec, pipe):
    stats, sigs = {}, []
    struck_any = False
    with clisim.World() as w:
        os.mkdir(os.path.join(w.work, "in"))
        src = os.path.join(w.work, spec["sdir"], spec["name"].lstrip("-") + spec["suffix"])
        dst = os.path.join(w.work, "sub" if spec["dest"] == "subdir" else "", spec["dname"])
        if src == dst:
            raise core.Invalid("source and destination are the same")
        os.mkdir(os.path.join(w.work, "sub"))
        real_dst = dst
        if spec["dest"] in ("old", "symlink"):
            real_dst = dst if spec["dest"] == "old" else os.path.join(w.work, "sub", "target.txt")
            with open(real_dst, "w") as f:
                f.write("an older version of the destination\n" * 400)
            if spec["dest"] == "symlink":
                os.symlink(real_dst, dst)
        arg = (lambda p: p) if spec["dest"] == "abs" else (lambda p: os.path.relpath(p, w.work))
        if spec["dest"] == "pipe":
            os.mkfifo(dst)
            pipe.append(os.open(dst, os.O_RDWR | os.O_NONBLOCK))
        exp = None
        for n, r in enumerate(spec["rounds"]):
            if r["doc"] is not None or n == 0:
                text = r["doc"] or ""
                if spec["mode"].startswith("ascii"):
                    text = text.encode("ascii", "xmlcharrefreplace" if n % 2 == 0 else "ignore").decode("ascii")
                data, exp = whole(text, r.get("filler"), spec["suffix"] == ".md")
                if exp is None:
                    raise core.Invalid("cannot be rendered")
                with open(src, "wb") as f:
                    f.write(data)
                if r.get("filler"):
                    stats["probe.large_documents"] = stats.get("probe.large_documents", 0) + 1
                    if r["filler"][2] and len(exp[1]) % r["filler"][2] in (0, 1, 2, r["filler"][2] - 1):
                        stats["probe.ends_next_to_a_block"] = stats.get("probe.ends_next_to_a_block", 0) + 1
            if n == 0 and spec["dest"] in ("alike", "short", "long"):
                # What is there differs in one place only, at the end or in length
                b = bytearray(exp[1].encode("utf-8", "surrogatepass"))
                if spec["dest"] == "alike" and b:
                    b[len(b) // 2] ^= 1
                elif spec["dest"] == "short":
                    del b[len(b) // 2:]
                else:
                    b += b"the end of an older version\n"
                with open(dst, "wb") as f:
                    f.write(b)
            if "aged" in r:
                # Restored from somewhere, with its old time, or from the future
                os.utime(src, (r["aged"], r["aged"]))
            if spec["dest"] == "pipe" and len(exp[1].encode("utf-8", "surrogatepass")) > 60000:
                raise core.Invalid("more than a pipe holds")
            argv = (["-d"] if r["dump"] else []) + [arg(src), arg(dst)]
            p = clisim.start(w, "run%d" % n, argv, w.work, src, dst, r["plan"], spec["mode"])
            status = p.wait()
            if status == ("exit", 99):
                raise RuntimeError("the driver failed: %r" % clisim.read_bytes(os.path.join(w.base, "run%d.err" % n)))
            ops = p.operations()
            failed = killed = soft = 0
            limits = [x.split() for x in r["plan"]]
            for o in ops:
                what = o[3]
                if what == "failed" and int(o[4]) == errno.EINTR:
                    what = "interrupted"
                if what == "failed":
                    if o[2] in "SD1":
                        failed += 1
                    k = "failed_%s_%s" % (o[1], {"S": "source", "D": "destination", "1": "stdout"}.get(o[2], "other"))
                elif what == "killed":
                    killed += 1
                    k = "killed"
                elif what == "interrupted":
                    soft += 1
                    k = "interrupted_" + o[1]
                elif what == "ok" and ["rlim" if o[1] == "read" else "wlim", o[4]] in limits and int(o[4]) < int(o[5]):
                    soft += 1
                    k = "short_" + o[1]
                else:
                    continue
                stats["fault." + k] = stats.get("fault." + k, 0) + 1
            stats["system_calls"] = stats.get("system_calls", 0) + len(ops)
            stats["executions"] = stats.get("executions", 0) + 1
            struck_any = struck_any or failed or killed or soft
            sigs.append(core.sha([o[1:4] for o in ops], status, r["doc"], r["dump"]))
            want_out = ((exp[0] + "\n" if r["dump"] else "") + exp[1] + "\n").encode("utf-8", "surrogatepass")
            want_dst = exp[1].encode("utf-8", "surrogatepass")
            have_out, have_dst = p.output(), drain(pipe[0]) if spec["dest"] == "pipe" else clisim.read_bytes(real_dst)
            info = {"round": n, "argv": argv, "status": list(status), "operations": [" ".join(o) for o in ops[:40] + ops[40:][-40:]],
                    "stderr": (clisim.read_bytes(os.path.join(w.base, "run%d.err" % n)) or b"").decode("utf-8", "replace")[-800:]}
            if status == ("exit", 0):
                if failed:
                    return core.bad("failure-hidden", info, stats, sigs)
                if have_dst != want_dst:
                    info.update(want=repr(want_dst[-300:]), have=repr(have_dst and have_dst[-300:]), sizes=[len(want_dst), -1 if have_dst is None else len(have_dst)])
                    return core.bad("destination-incomplete", info, stats, sigs)
                if have_out != want_out:
                    info.update(want=repr(want_out[-300:]), have=repr(have_out and have_out[-300:]), sizes=[len(want_out), len(have_out)])
                    return core.bad("output-incomplete", info, stats, sigs)
                stats["probe.success_after_failure"] = stats.get("probe.success_after_failure", 0) + int(n > 0 and struck_any > 0)
                stats["probe.success_with_soft_faults"] = stats.get("probe.success_with_soft_faults", 0) + int(soft > 0)
            else:
                if spec["mode"].startswith("ascii") and not (data + exp[0].encode("utf-8", "surrogatepass") + exp[1].encode("utf-8", "surrogatepass")).isascii():
                    # The locale has no such characters: refusing is right
                    stats["fault.locale_without_the_characters"] = stats.get("fault.locale_without_the_characters", 0) + 1
                    continue
                if not failed and not killed:
                    return core.bad("benign-fault-fails" if soft else "fails", info, stats, sigs)
    return core.ok(stats, core.sha(sigs), trivial=not struck_any)
