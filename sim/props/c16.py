"""C16: the library leaves the standard streams alone."""
import io
import os
import sys
import tempfile

import core
import docs
import session

RULE = ("one run = one document (mostly damaged: stray and missing tags, soup) rendered with the three standard streams in "
        "faulty states: missing (None), closed, raising (broken pipe, disk full, would block, encoding), accepting only some "
        "bytes, objects without the usual methods, and file descriptors 0-2 closed, full, or broken pipes; the streams may "
        "break in mid-document. The outcome must equal the one with healthy streams, nothing may reach standard output "
        "(object or descriptor), and the stream objects must be the same afterwards, neither closed nor read. Non-trivial "
        "when a stream was faulty. Distinct counts distinct (stream states, document, configuration) digests.")
MEASURE = "distinct digests of (stream states, moment, document, configuration)"
REAL = ["html.parser", "gopher_render (all modules)", "logging"]
STUB = ["sys.stdin, sys.stdout, sys.stderr and file descriptors 0-2"]
ASSUME = ["diagnostics through the logging module are allowed as long as they have no effect on the result"]
MEMORY = False
QUICK = (36000, 50)
THOROUGH = (400000, 600)
SHRINK = ("doc", "cuts")

OUT = ("healthy", "none", "closed", "epipe", "enospc", "eagain", "ascii", "limited", "valueerror", "bare", "deleted")
IN = ("healthy", "none", "closed", "eio", "eof", "bare")
FDS = ("healthy", "closed", "full", "pipe", "null")


def gen(rng, tier, i):
    d = docs.any_doc(rng)
    faults = {}
    if rng.random() < 0.06:              # more than the width allows
        n = rng.randint(8, 60)
        e = [rng.choice(("blockquote", "ul", "li", "ol", "dl", "dd", "div", "p", "section")) for _ in range(n)]
        d += "".join("<%s>" % t for t in e) + "deep " + d[:200]
        faults["deep"] = 1
    x = rng.random()
    if x < 0.6:
        d, c = docs.damage_tags(rng, d, rng.choice([1, 2, 4]))
        faults.update(c)
    elif x < 0.8:
        d, c = docs.damage_bytes(rng, d, rng.choice([1, 3, 6]))
        faults.update(c)
    if rng.random() < 0.2:
        d, c = docs.lose_values(rng, d, rng.choice([1, 3]))
        faults.update(c)
    if rng.random() < 0.3:
        d = docs.truncate(rng, d)
    cuts = docs.random_cuts(rng, d) if rng.random() < 0.3 else []
    return {"cfg": session.random_cfg(rng), "doc": d, "cuts": cuts, "faults": faults,
            "out": rng.choice(OUT), "err": rng.choice(OUT), "in": rng.choice(IN),
            "fds": [rng.choice(FDS) for _ in range(3)] if rng.random() < 0.5 else ["healthy"] * 3,
            "when": rng.choice(["import", "start", "start", "start", "feed", "close"]),
            "logging": rng.choice(["default", "default", "raise", "root", "disabled", "debug"]),
            "recover": rng.random() < 0.3}


class _Stream(object):
    """A text stream in some state of disrepair that records its use."""

    def __init__(self, state, log, name):
        self.state, self.log, self._name, self.left = state, log, name, 10
        self.encoding = "ascii" if state == "ascii" else "utf-8"
        self.errors = "strict"
        self.closed = state == "closed"

    def write(self, s):
        self.log.append([self._name, "write", len(s)])
        st = self.state
        if st == "closed":
            raise ValueError("I/O operation on closed file.")
        if st == "epipe":
            raise BrokenPipeError(32, "Broken pipe")
        if st == "enospc":
            raise OSError(28, "No space left on device")
        if st == "eagain":
            raise BlockingIOError(11, "Resource temporarily unavailable")
        if st == "valueerror":
            raise ValueError("underlying buffer has been detached")
        if st == "ascii":
            s.encode("ascii")
        if st == "limited":
            self.left -= len(s)
            if self.left < 0:
                raise OSError(28, "No space left on device")
        return len(s)

    def flush(self):
        if self.state in ("epipe", "enospc"):
            raise OSError(28, "No space left on device")

    def isatty(self):
        return False

    def fileno(self):
        return {"stdin": 0, "stdout": 1, "stderr": 2}[self._name]

    def close(self):
        self.log.append([self._name, "close", 0])

    def _read(self, *a):
        self.log.append([self._name, "read", 0])
        if self.state == "closed":
            raise ValueError("I/O operation on closed file.")
        if self.state == "eio":
            raise OSError(5, "Input/output error")
        return ""
    read = readline = _read

    def writelines(self, lines):
        for l in lines:
            self.write(l)


class _Bare(object):
    pass


def _object(state, log, name):
    if state == "none":
        return None
    if state == "bare":
        return _Bare()
    return _Stream(state, log, name)


def _break_fd(fd, state, base):
    if state == "closed":
        os.close(fd)
    elif state == "full":
        f = os.open("/dev/full", os.O_RDWR)
        os.dup2(f, fd)
        os.close(f)
    elif state == "null":
        f = os.open("/dev/null", os.O_RDWR)
        os.dup2(f, fd)
        os.close(f)
    elif state == "pipe":
        r, w = os.pipe()
        os.close(w if fd == 0 else r)
        os.dup2(r if fd == 0 else w, fd)
    else:
        f = os.open(os.path.join(base, "fd%d" % fd), os.O_RDWR | os.O_CREAT | os.O_APPEND)
        os.dup2(f, fd)
        os.close(f)


def _go(spec, broken, base):
    """[outcome, log of stream use, problems] (runs in its own process)."""
    cfg = spec["cfg"]
    chunks = session.chunks_of(spec["doc"], spec["cuts"])
    log, made = [], {}
    saved = (sys.stdin, sys.stdout, sys.stderr)

    def break_streams():
        if not broken:
            return
        for fd in range(3):
            _break_fd(fd, spec["fds"][fd], base)
        for name, state in (("stdin", spec["in"]), ("stdout", spec["out"]), ("stderr", spec["err"])):
            if state == "deleted":
                if hasattr(sys, name):
                    delattr(sys, name)
                continue
            made[name] = _object(state, log, name)
            setattr(sys, name, made[name])

    import logging
    if broken and spec["logging"] != "default":
        if spec["logging"] == "raise":
            logging.raiseExceptions = True
        elif spec["logging"] == "disabled":
            logging.disable(logging.CRITICAL)
        elif spec["logging"] == "root":
            logging.getLogger().addHandler(logging.StreamHandler(io.StringIO()))
        elif spec["logging"] == "debug":
            logging.getLogger().setLevel(logging.DEBUG)

    if spec["when"] == "import":
        break_streams()
        for m in [m for m in sys.modules if m == "gopher_render" or m.startswith("gopher_render.")]:
            del sys.modules[m]
        session._subclasses.clear()
    elif spec["when"] == "start":
        break_streams()

    def run():
        p = session.make_parser(cfg)
        half = len(chunks) // 2
        for k, c in enumerate(chunks):
            if spec["when"] == "feed" and k == half:
                break_streams()
            p.feed(c)
        if spec["when"] == "close":
            break_streams()
        p.close()
        if spec["recover"]:
            p.reset()
            for c in chunks:
                p.feed(c)
            p.close()
        return p.parsed
    with session.StepMeter():
        got = session.outcome_of(run)
    problems = []
    if broken:
        for name, o in made.items():
            if getattr(sys, name, None) is not o:
                problems.append("%s was replaced" % name)
    sys.stdin, sys.stdout, sys.stderr = saved
    return [got, log, problems]


def execute(spec):
    with tempfile.TemporaryDirectory(prefix="vsim-std-") as base:
        want = core.in_child(_go, spec, False, base)
        if want[0][0] == "hang":
            raise core.Invalid("does not terminate")
        got, log, problems = core.in_child(_go, spec, True, base)
        stats = {"fault." + k: v for k, v in spec["faults"].items()}
        for k in ("in", "out", "err"):
            if spec[k] != "healthy":
                n = "fault.std%s_%s" % (k, spec[k])
                stats[n] = stats.get(n, 0) + 1
        for n, f in enumerate(spec["fds"]):
            if f != "healthy":
                stats["fault.fd%d_%s" % (n, f)] = 1
        sig = core.sha(spec)
        size = 0
        p = os.path.join(base, "fd1")
        if os.path.exists(p):
            size = os.path.getsize(p)
    info = {"healthy": want[0], "got": got, "stream_use": log[:20], "problems": problems}
    if got != want[0]:
        return core.bad("differs", info, stats, sig)
    if any(l[0] == "stdout" for l in log):
        return core.bad("wrote-to-stdout", info, stats, sig)
    if size:
        info["bytes"] = size
        return core.bad("wrote-to-descriptor-1", info, stats, sig)
    if any(l[1] in ("read", "close") for l in log) or problems:
        return core.bad("stream-touched", info, stats, sig)
    trivial = spec["in"] == spec["out"] == spec["err"] == "healthy" and spec["fds"] == ["healthy"] * 3
    return core.ok(stats, sig, trivial=trivial)
