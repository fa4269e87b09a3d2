"""One process of C13: renders the documents given on standard input under
the perturbations given there, and reports the outcomes."""
import json
import os
import sys

job = json.loads(sys.stdin.buffer.read().decode("utf-8", "surrogatepass"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, job["repo"])
per = job["perturb"]

import random                                    # noqa: E402
import gc                                        # noqa: E402

result = os.fdopen(os.dup(1), "wb")
if "stdio" in per:
    # What the standard streams are connected to
    for fd, kind in enumerate(per["stdio"]):
        name = ("stdin", "stdout", "stderr")[fd]
        if kind == "none":
            setattr(sys, name, None)
            continue
        if kind == "terminal":
            import fcntl
            import struct
            import termios
            master, other = os.openpty()
            if os.fork() == 0:
                # What is printed there goes nowhere
                os.close(other)
                os.dup2(master, 0)
                os.execv("/bin/sh", ["sh", "-c", "exec cat >/dev/null 2>&1"])
            fcntl.ioctl(other, termios.TIOCSWINSZ, struct.pack("HHHH", 24, per.get("columns", 80), 0, 0))
        else:
            other = os.open(os.devnull, os.O_RDWR)
        os.dup2(other, fd)
        setattr(sys, name, os.fdopen(fd, "r" if fd == 0 else "w", closefd=False))
if "gc" in per:
    gc.set_threshold(*per["gc"])
if per.get("gc_off"):
    gc.disable()
if "switch" in per:
    sys.setswitchinterval(per["switch"])
if "recursion" in per:
    sys.setrecursionlimit(per["recursion"])
if "locale" in per:
    import locale
    try:
        locale.setlocale(locale.LC_ALL, per["locale"])
    except locale.Error:
        pass
if "tz" in per:
    import time
    os.environ["TZ"] = per["tz"]
    time.tzset()
if "log" in per:
    import logging
    logging.basicConfig(level=per["log"], stream=open(os.devnull, "w"))
if per.get("trace"):
    sys.settrace(lambda *a: None)
if "umask" in per:
    os.umask(per["umask"])
if "nofile" in per:
    import resource
    resource.setrlimit(resource.RLIMIT_NOFILE, (per["nofile"], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
found = {"variables": set(), "files": set()}
if job.get("discover"):
    # What the code under test asks of its environment
    inside = os.path.join(job["repo"], "gopher_render")

    def asked():
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.startswith(inside):
                return True
            f = f.f_back
        return False

    class Environ(type(os.environ)):
        def __getitem__(self, key):
            if isinstance(key, str) and asked():
                found["variables"].add(key)
            return super().__getitem__(key)

    def noting(function):
        def noted(path, *args, **kw):
            if isinstance(path, (str, os.PathLike)) and asked():
                found["files"].add(os.fspath(path))
            return function(path, *args, **kw)
        return noted

    os.environ.__class__ = Environ
    import builtins
    import io
    for _o, _n in ((os, "stat"), (os, "access"), (os, "lstat"), (os, "open"), (builtins, "open"), (io, "open")):
        setattr(_o, _n, noting(getattr(_o, _n)))
for m in per.get("first", ()):
    __import__(m)

import session                                   # noqa: E402

garbage = random.Random(per.get("layout", 0))
kept = []


def churn():
    """Change where the next objects will be allocated."""
    if "layout" not in per:
        return
    tmp = []
    for _ in range(garbage.randint(0, 400)):
        x = garbage.randrange(6)
        o = ([None] * garbage.randint(0, 9) if x == 0 else {"a": 1} if x == 1 else "x" * garbage.randint(1, 200) if x == 2
             else object() if x == 3 else (1, garbage.random()) if x == 4 else type("T", (), {})() if garbage.random() < 0.1 else set())
        tmp.append(o)
    garbage.shuffle(tmp)
    kept.append(tmp[:len(tmp) // 3])
    del kept[:-5]


def render(cfg, chunks):
    if not per.get("thread"):
        return session.render_metered(cfg, chunks)
    import threading
    got = []
    t = threading.Thread(target=lambda: got.append(session.render_metered(cfg, chunks)))
    t.start()
    t.join()
    return got[0]


out = []
for k, d in enumerate(job["docs"]):
    if "random" in per:
        random.seed(per["random"] + k)
    churn()
    r = render(d["cfg"], session.chunks_of(d["doc"], d["cuts"]))
    if len(r) == 2 and r[0] == "ok" and not isinstance(r[1], str):
        r = ["ok", repr(r[1])]
    out.append(r)
if job.get("discover"):
    out = {k: sorted(str(x) for x in v) for k, v in found.items()}
result.write(json.dumps(out).encode("ascii"))
result.flush()
