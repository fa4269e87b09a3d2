"""C13: output is reproducible in every process environment."""
import ctypes
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import core
import docs
import session

RULE = ("one run = a batch of documents with configurations, rendered in 2-3 new interpreters, each in its own environment: "
        "hash seed, address space layout and heap churn, allocator, garbage collection thresholds, entropy, clock (start, "
        "speed, jumps), time zone, locale, encoding mode, terminal size and type, working directory, unrelated environment "
        "variables, optimisation and development flags, warnings filters, recursion limit, thread switch interval, import "
        "order, arguments, standard streams (terminals of any width, nothing), logging level, tracing, thread, umask, descriptor "
        "limit, process and user ids, and whatever variables and files the code was seen to look at. All must agree with a plain reference process. Non-trivial when the environments differ. Distinct counts "
        "distinct (environment, batch) digests.")
MEASURE = "distinct digests of (environment, batch of documents)"
REAL = ["gopher_render (all modules)", "html.parser, cssselect", "the interpreter's start, import system and hashing"]
STUB = ["clock, entropy, process and user ids (LD_PRELOAD seam)", "heap layout (address randomisation off, seeded allocations)"]
ASSUME = ["same versions of Python and of the libraries", "documents at most 100 levels deep, recursion limit at least the default"]
MEMORY = False
QUICK = (3600, 50)
THOROUGH = (40000, 600)
SHRINK = ("docs", "doc", "cuts", "envs")

SO = os.path.join(core.VERIF, "build", "env.so")
SRC = os.path.join(core.HERE, "shim", "env.c")
VARS = ("NO_COLOR", "FORCE_COLOR", "CLICOLOR", "COLORTERM", "TERM", "LINES", "COLUMNS", "LANG", "LANGUAGE", "PAGER", "EDITOR", "USER", "LOGNAME",
        "HOSTNAME", "HOME", "TMPDIR", "DEBUG", "VERBOSE", "WIDTH", "GOPHER_HOST", "GOPHER_PORT", "HTTP_PROXY", "http_proxy", "CI", "PYTHONDEBUG_X")
VALUES = ("", "1", "0", "dumb", "xterm-256color", "tr_TR.UTF-8", "de_DE@euro", "40", "10", "200", "true", "/nonexistent", "a b=c", "C", "localhost:1")
FOUND = {"variables": [], "files": []}       # what the code under test was seen to look at
FIRST = ("gopher_render", "gopher_render.rendering", "gopher_render._textwrap", "gopher_render._parser", "gopher_render._selectors", "gopher_render._namedict",
         "cssselect", "html.parser", "textwrap", "locale", "decimal", "threading", "asyncio", "unittest.mock",
         "gopher_render.code_themes.monokai", "gopher_render.code_themes.iced_gopher")


def prepare():
    if not (os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(SRC)):
        os.makedirs(os.path.dirname(SO), exist_ok=True)
        tmp = "%s.%d" % (SO, os.getpid())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"], check=True)
        os.replace(tmp, SO)
    rng = random.Random(13)
    items = [{"cfg": session.random_cfg(rng), "doc": docs.any_doc(rng), "cuts": []} for _ in range(60)]
    got = run(PLAIN, items, discover=True)
    if isinstance(got, dict):
        FOUND["variables"] = [v for v in got["variables"] if "=" not in v and v and not v.startswith(("PYTHON", "LD_", "VENV_")) and v != "PATH"]
        FOUND["files"] = [f for f in got["files"] if not os.path.isabs(f) and ".." not in f and "\0" not in f and os.path.normpath(f) not in ("", ".")]


def environment(rng):
    e = {"env": {"PYTHONHASHSEED": str(rng.randrange(1, 4294967295))}, "flags": [], "perturb": {}, "cwd": None}
    p = e["perturb"]
    if rng.random() < 0.6:
        p["layout"] = rng.randrange(10 ** 6)
    if rng.random() < 0.3:
        e["env"]["PYTHONMALLOC"] = rng.choice(["malloc", "pymalloc", "pymalloc_debug"])
    if rng.random() < 0.4:
        p["gc"] = rng.choice([[1, 1, 1], [5, 2, 2], [50, 5, 5], [100000, 50, 50]])
    elif rng.random() < 0.2:
        p["gc_off"] = True
    if rng.random() < 0.5:
        p["random"] = rng.randrange(1000)
    if rng.random() < 0.6:
        e["clock"] = "%d %d %d %d" % (rng.choice([0, 1, 951782399, 1700000000, 4102444799, 7258118400]), rng.choice([0, 1, 1000, 10 ** 9, 10 ** 12]),
                                     rng.choice([0, 2, 5, 20]), rng.choice([-86400, -3600, 3600, 10 ** 6]))
    if rng.random() < 0.6:
        e["entropy"] = rng.randrange(10 ** 6)
    if rng.random() < 0.5:
        p["tz"] = rng.choice(["UTC", "Asia/Kolkata", "America/St_Johns", "XYZ-14", "ABC+12"])
    if rng.random() < 0.4:
        e["env"]["LC_ALL"] = rng.choice(["C", "POSIX", "C.UTF-8", "tr_TR.UTF-8"])
        p["locale"] = rng.choice(["", "C", "C.UTF-8"])
    if rng.random() < 0.3:
        e["env"]["PYTHONUTF8"] = rng.choice(["0", "1"])
    if rng.random() < 0.2:
        e["env"]["PYTHONIOENCODING"] = rng.choice(["ascii", "latin-1", "utf-16"])
    for v in rng.sample(VARS, rng.randint(0, 10)):
        e["env"][v] = rng.choice(VALUES)
    for v in FOUND["variables"]:
        if rng.random() < 0.5:
            e["env"][v] = rng.choice(VALUES)
    for f in FOUND["files"]:
        if rng.random() < 0.5:
            e.setdefault("files", {})[f] = rng.choice(("", "1", "x = 1\n", "{}", "[a]\nb = 1\n"))
    e["env"]["VPAD"] = "x" * rng.randrange(5000)
    for f in ("-O", "-OO", "-u", "-E", "-I", "-q", "-v"):
        if rng.random() < (0.2 if f[1] == "O" else 0.05):
            e["flags"].append(f)
    if rng.random() < 0.15:
        e["flags"] += ["-X", rng.choice(["dev", "tracemalloc", "no_debug_ranges", "importtime", "frozen_modules=off", "int_max_str_digits=640"])]
    if rng.random() < 0.2:
        e["flags"] += ["-W", rng.choice(["ignore", "always", "default", "once"])]
    if rng.random() < 0.3:
        p["switch"] = rng.choice([1e-6, 0.5])
    if rng.random() < 0.2:
        p["recursion"] = rng.choice([1000, 1500, 10000])
    if rng.random() < 0.5:
        p["first"] = rng.sample(FIRST, rng.randint(1, 6))
    if rng.random() < 0.2:
        e["argv"] = rng.sample(("-v", "--width=10", "-d", "a.md", "b.txt", "", "--color=always"), rng.randint(1, 4))
    if rng.random() < 0.6:
        e["who"] = "%d %d" % (rng.choice([1, 2, 63, 64, 100, 4096, 32767, 99999]) + rng.randrange(2), rng.choice([0, 0, 1000, 65534]))
    if rng.random() < 0.2:
        e["deny"] = True
    if rng.random() < 0.2:
        p["log"] = rng.choice([1, 10, 20, 50])
    if rng.random() < 0.15:
        p["trace"] = True
    if rng.random() < 0.2:
        p["thread"] = True
    if rng.random() < 0.15:
        p["umask"] = rng.choice([0, 0o77, 0o777])
    if rng.random() < 0.15:
        p["nofile"] = rng.choice([32, 64, 200, 1000])
    if rng.random() < 0.3:
        p["stdio"] = [rng.choice(("null", "terminal", "terminal", "none")) for _ in range(3)]
        p["columns"] = rng.choice([0, 1, 20, 80, 300])
    if "-I" in e["flags"] or "-E" in e["flags"]:
        e.setdefault("entropy", rng.randrange(10 ** 6))      # they ignore the hash seed variable
    e["cwd"] = "scratch" if e.get("files") else rng.choice([None, "/", "scratch", "scratch", "removed"])
    return e


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([6, 10, 16])):
        d = docs.any_doc(rng)
        if rng.random() < 0.15:
            d, _c = docs.damage_tags(rng, d, 2)
        if rng.random() < 0.1:
            d = docs.truncate(rng, d)
        items.append({"cfg": session.random_cfg(rng), "doc": d, "cuts": docs.random_cuts(rng, d) if rng.random() < 0.2 else []})
    return {"docs": items, "envs": [environment(rng) for _ in range(rng.choice([1, 2, 2]))]}


PLAIN = {"env": {"PYTHONHASHSEED": "0"}, "flags": [], "perturb": {}, "cwd": None}


def _no_aslr():
    ctypes.CDLL(None).personality(0x0040000)


def run(e, items, discover=False):
    env = {"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1"}
    env.update(e["env"])
    env["LD_PRELOAD"] = SO
    env["VENV_WHO"] = e.get("who", "4321 0")
    if e.get("deny"):
        env["VENV_DENY"] = "1"
    if "clock" in e or "entropy" in e:
        if "clock" in e:
            env["VENV_CLOCK"] = e["clock"]
        if "entropy" in e:
            env["VENV_ENTROPY"] = str(e["entropy"])
    scratch = tempfile.mkdtemp(prefix="vsim-env-")
    try:
        cwd = {"scratch": scratch, "removed": scratch}.get(e["cwd"], e["cwd"] or core.HERE)
        cmd = [sys.executable, "-B"] + e["flags"] + [os.path.join(core.HERE, "envchild.py")]
        if e["cwd"] == "removed":
            os.mkdir(os.path.join(scratch, "gone"))
            cwd = os.path.join(scratch, "gone")
            cmd = ["/bin/sh", "-c", 'rmdir "$PWD"; exec "$@"', "sh"] + cmd
        cmd += e.get("argv", [])
        for f, text in e.get("files", {}).items():
            f = os.path.join(scratch, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                h.write(text)
        job = {"discover": discover, "repo": core.REPO, "docs": items, "perturb": e["perturb"]}
        r = subprocess.run(cmd, cwd=cwd, env=env, input=json.dumps(job).encode(), capture_output=True, timeout=120, preexec_fn=_no_aslr)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode != 0:
        return ["died", r.returncode, r.stderr.decode("utf-8", "replace")[-1500:]]
    return json.loads(r.stdout)


def execute(spec):
    stats = {}
    items = spec["docs"]
    if not items or not spec["envs"]:
        raise core.Invalid("nothing to do")
    want = run(PLAIN, items)
    if want and want[0] == "died":
        raise RuntimeError("reference process died: %r" % want)
    sigs = []
    for n, e in enumerate(spec["envs"]):
        for k in list(e["env"]) + list(e["perturb"]) + [f for f in e["flags"] if f[0] == "-"] + [x for x in ("clock", "entropy", "cwd") if e.get(x)] + [
                x for x in ("argv", "files", "who", "deny") if e.get(x)]:
            k = "variable" if k in VARS or k in FOUND["variables"] else k
            if k != "VPAD":
                stats["fault." + k] = stats.get("fault." + k, 0) + 1
        have = run(e, items)
        sigs.append(core.sha(json.dumps(e, sort_keys=True), json.dumps(items, sort_keys=True)))
        stats["renderings_compared"] = stats.get("renderings_compared", 0) + len(items)
        if have and have[0] == "died":
            return core.bad("process-died", {"environment": e, "report": have}, stats, sigs)
        for k, (a, b) in enumerate(zip(want, have)):
            if a != b:
                return core.bad("differs", {"environment": e, "document": items[k], "reference": a, "here": b}, stats, sigs)
    return core.ok(stats, sigs)


def shrink(spec):
    """One document and one environment, then fewer perturbations."""
    items = spec["docs"]
    if len(items) > 1:
        for d in items:
            yield dict(spec, docs=[d])
    if len(spec["envs"]) > 1:
        for e in spec["envs"]:
            yield dict(spec, envs=[e])
    if len(spec["envs"]) == 1:
        e = spec["envs"][0]
        for part in ("env", "perturb"):
            for k in sorted(e[part]):
                if k == "PYTHONHASHSEED" and e[part][k] == "0":
                    continue
                p = dict(e[part])
                if k == "PYTHONHASHSEED":
                    p[k] = "0"
                else:
                    del p[k]
                yield dict(spec, envs=[dict(e, **{part: p})])
        if e["flags"]:
            yield dict(spec, envs=[dict(e, flags=[])])
        for k in ("clock", "entropy", "argv", "files", "who", "deny"):
            if k in e:
                yield dict(spec, envs=[{x: v for x, v in e.items() if x != k}])
        if e["cwd"]:
            yield dict(spec, envs=[dict(e, cwd=None)])
