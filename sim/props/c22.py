"""C22: the library leaves the process's own settings alone."""
import codecs
import decimal
import faulthandler
import gc
import json
import locale
import logging
import mimetypes
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import core
import docs
import session

RULE = ("one run = an application that has set up its process in its own way (recursion limit, switch interval, locale, random "
        "state, warning filters, logging, signal handlers, collector thresholds, decimal context, umask, working directory, "
        "environment variables, hooks), then imports the library again or not, and goes through 1-3 sessions that are completed, "
        "cut off, reset, fail in a renderer or are interrupted by an exception at the n-th executed line. After every call, "
        "whether it returns or raises, all of those and the tables of the standard modules in use must be as before. A part "
        "of the runs compares a new process before and after it first imports and uses the library. Non-trivial when the "
        "settings are unusual ones. Distinct counts distinct (settings, documents, configurations, faults) digests.")
MEASURE = "distinct digests of (settings, documents, configurations, faults)"
REAL = ["html.parser", "gopher_render (all modules)", "the interpreter and the standard modules"]
STUB = ["the application", "asynchronous exceptions", "user-defined renderers that fail"]
ASSUME = ["settings are looked at between calls, not while one is going on"]
MEMORY = False
QUICK = (24000, 50)
THOROUGH = (250000, 600)
SHRINK = ("sessions", "doc", "cuts")

TABLES = ("html.parser", "_markupbase", "html.entities", "html", "textwrap", "urllib.parse", "cssselect.parser", "cssselect.xpath", "cssselect", "string",
          "logging", "re", "collections", "mimetypes", "copyreg", "pprint", "markdown.extensions.codehilite", "pygments.formatters.html")

CALLS = {}                  # registrations nobody can look up again


def _noting(module, name):
    function = getattr(module, name)

    def noted(*args, **kw):
        # asked for by the code under test itself
        if sys._getframe(1).f_code.co_filename.startswith(session.package_dir()):
            CALLS[name] = CALLS.get(name, 0) + 1
        return function(*args, **kw)
    noted.__qualname__ = noted.__name__ = name
    setattr(module, name, noted)


for _m, _n in ((codecs, "register"), (codecs, "register_error"), (os, "register_at_fork"), (sys, "addaudithook")):
    _noting(_m, _n)
mimetypes.init()
tempfile.gettempdir()
MODULES = ()


def gen(rng, tier, i):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = docs.any_doc(rng, size=rng.choice([1, 1, 2, 3]))
        x = rng.random()
        if x < 0.3:
            d, _c = docs.damage_tags(rng, d, 2)
        elif x < 0.4:
            d, _c = docs.lose_values(rng, d, 2)
        elif x < 0.5:
            n = rng.choice([30, 60, 100])
            t = rng.choice(["em", "span", "strong", "u"])
            d = "<%s>" % t * n + "x" + ("</%s>" % t * n if rng.random() < 0.5 else "")
        s = {"doc": d, "cuts": [rng.randrange(len(d) + 1) for _ in range(rng.choice([0, 0, 1, 3]))],
             "cfg": session.random_cfg(rng, rends=session.MORE_SETS), "how": rng.choice(["close", "close", "again", "twice", "cut", "fail", "line", "line", "line"])}
        if x >= 0.4 and x < 0.5:
            s["cfg"] = session.random_cfg(rng, rends=("default", "ansi"))
        if s["how"] == "line":
            s.update(frac=round(rng.random(), 6), occ=round(rng.random(), 6) if rng.random() < 0.7 else -1,
                     exc=rng.choice(sorted(session.EXCEPTIONS)), where=rng.choice(["create", "feed", "close", "close", "close"]))
        if s["how"] == "fail":
            s.update(at=rng.choice([1, 1, 2, 3, 5]))
        out.append(s)
    new = rng.random() < 0.02
    return {"sessions": out[:1] if new else out, "new_process": new, "again": rng.random() < 0.2, "settings": _settings(rng)}


def _settings(rng):
    s = {}

    def maybe(name, values):
        if rng.random() < 0.5:
            s[name] = rng.choice(values)
    maybe("recursion", [1500, 2345, 5000, 10000, 20000])
    maybe("switch", [0.001, 0.01, 0.5])
    maybe("locale", ["C", "C.UTF-8", "POSIX"])
    maybe("random", [1, 2, 3])
    maybe("warnings", ["error", "ignore", "always", "none", "default"])
    maybe("root_level", [1, 10, 30, 50])
    maybe("level", [1, 10, 30, 50])
    maybe("handler", ["root", "package"])
    maybe("disable", [10, 30, 50])
    maybe("propagate", [False])
    maybe("raise", [False])
    maybe("signals", ["ignore", "function"])
    maybe("gc", ["off", [500, 5, 5], [100000, 50, 100]])
    maybe("precision", [3, 50])
    maybe("umask", [0, 0o27, 0o77])
    maybe("cwd", [True])
    maybe("environ", [True])
    maybe("hooks", [True])
    maybe("digits", [640, 0])
    maybe("tz", ["UTC", "XYZ-14"])
    maybe("timeout", [0.5, 30, 60.0])
    maybe("limits", [100, 500])
    maybe("mask", [True])
    maybe("stack", [1 << 20])
    maybe("asyncgen", [True])
    return s


def _nothing(*a):
    pass


def _filter(record):
    return True


def _set_up(s):
    """Set the process up as the application likes it."""
    if "recursion" in s:
        sys.setrecursionlimit(s["recursion"])
    if "switch" in s:
        sys.setswitchinterval(s["switch"])
    if "locale" in s:
        try:
            locale.setlocale(locale.LC_ALL, s["locale"])
        except locale.Error:
            pass
    if "random" in s:
        random.seed(s["random"])
    if s.get("warnings") == "none":
        warnings.resetwarnings()
    elif "warnings" in s:
        warnings.simplefilter(s["warnings"])
    root, own = logging.getLogger(), logging.getLogger("gopher_render")
    if "root_level" in s:
        root.setLevel(s["root_level"])
    if "level" in s:
        own.setLevel(s["level"])
    if "handler" in s:
        (root if s["handler"] == "root" else own).addHandler(logging.NullHandler())
    if "disable" in s:
        logging.disable(s["disable"])
    if "propagate" in s:
        own.propagate = False
        own.addFilter(_filter)
    if "raise" in s:
        logging.raiseExceptions = False
    if "signals" in s:
        for n in (signal.SIGUSR1, signal.SIGALRM, signal.SIGPIPE, signal.SIGINT, signal.SIGHUP):
            signal.signal(n, signal.SIG_IGN if s["signals"] == "ignore" else _nothing)
    if s.get("gc") == "off":
        gc.disable()
    elif "gc" in s:
        gc.set_threshold(*s["gc"])
    if "precision" in s:
        decimal.getcontext().prec = s["precision"]
    if "umask" in s:
        os.umask(s["umask"])
    if "environ" in s:
        os.environ.update(COLUMNS="33", NO_COLOR="1", TERM="vt52", LANG="tr_TR")
        os.environ.pop("HOME", None)
    if "hooks" in s:
        sys.excepthook = sys.displayhook = threading.excepthook = sys.unraisablehook = _nothing
    if "digits" in s:
        sys.set_int_max_str_digits(s["digits"])
    if "tz" in s:
        os.environ["TZ"] = s["tz"]
        time.tzset()
    if "timeout" in s:
        socket.setdefaulttimeout(s["timeout"])
    if "limits" in s:
        resource.setrlimit(resource.RLIMIT_NOFILE, (s["limits"], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
    if "mask" in s:
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2, signal.SIGWINCH])
    if "stack" in s:
        threading.stack_size(s["stack"])
    if "asyncgen" in s:
        sys.set_asyncgen_hooks(_nothing, _nothing)
        sys.set_coroutine_origin_tracking_depth(3)
    global MODULES
    MODULES = tuple(sorted(n for n in sys.modules if not n.startswith("gopher_render")))


def _handler(h):
    return h if h is None or isinstance(h, int) else "%s" % getattr(h, "__qualname__", type(h).__name__)


def _value(v, depth=0):
    """A short description of a value that changes with its contents."""
    if v is None or isinstance(v, (int, float, bool)):
        return repr(v)
    if isinstance(v, (str, bytes)):
        return repr(v) if len(v) < 60 else core.sha(repr(v))
    if depth < 3:
        if isinstance(v, dict):
            r = ["%s: %s" % (_value(k, 3), _value(x, depth + 1)) for k, x in list(v.items())]
            return "{%s}" % ", ".join(r) if len(r) < 12 else core.sha(r)
        if isinstance(v, (list, tuple)):
            r = [_value(x, depth + 1) for x in v]
            return "[%s]" % ", ".join(r) if len(r) < 12 else core.sha(r)
        if isinstance(v, (set, frozenset)):
            r = sorted(_value(x, depth + 1) for x in v)
            return "set(%s)" % ", ".join(r) if len(r) < 12 else core.sha(r)
    if hasattr(v, "pattern"):
        return "pattern %r" % core.sha(repr(v.pattern))
    return "%s %s" % (type(v).__name__, getattr(v, "__qualname__", ""))


def _loggers():
    out = {}
    for n in ("", "gopher_render", "gopher_render._parser", "gopher_render.rendering", "gopher_render.cli", "py.warnings", "MARKDOWN"):
        l = logging.getLogger(n) if not n or n in logging.root.manager.loggerDict else None
        if isinstance(l, logging.Logger):
            out["logger %r" % n] = [l.level, l.disabled, l.propagate, [type(h).__name__ + str(h.level) for h in l.handlers
                                                                        if not n.startswith("gopher_render.") or type(h) is not logging.NullHandler],
                                   len(l.filters)]
        else:
            # as a logger that is as good as new
            out["logger %r" % n] = [0, False, True, [], 0]
    return out


def snapshot(tables=True):
    import atexit
    s = {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "trace": _handler(sys.gettrace()), "profile": _handler(sys.getprofile()),
        "hooks": [_handler(h) for h in (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook, sys.breakpointhook)],
        "path": list(sys.path), "finders": [len(sys.meta_path), len(sys.path_hooks)], "argv": list(sys.argv), "digits": sys.get_int_max_str_digits(),
        "bytecode": sys.dont_write_bytecode, "traceback limit": getattr(sys, "tracebacklimit", None),
        "locale": locale.setlocale(locale.LC_ALL), "random": core.sha(repr(random.getstate())),
        "warnings": [core.sha([repr(f) for f in warnings.filters]), len(warnings.filters), _handler(warnings.showwarning), _handler(warnings.formatwarning)],
        "logging": [logging.root.manager.disable, logging.raiseExceptions, _handler(logging.getLoggerClass()), _handler(logging.getLogRecordFactory()),
                    logging.lastResort is not None, [logging.getLevelName(k) for k in (5, 10, 15, 20, 25, 30, 40, 50)]],
        "signals": {int(n): _handler(signal.getsignal(n)) for n in signal.valid_signals() if not 32 <= n <= 33},
        "timers": [list(signal.getitimer(k)) for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "collector": [gc.isenabled(), list(gc.get_threshold()), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()],
        "decimal": repr(decimal.getcontext()).split(", flags")[0], "environment": dict(os.environ), "directory": os.getcwd(),
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "time zone": [list(time.tzname), time.timezone], "exit functions": atexit._ncallbacks(),
        "threads": threading.active_count(), 
        "descriptors": sorted(os.readlink("/proc/self/fd/" + n) for n in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + n)),
        "streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)], "registrations": dict(CALLS),
        "default timeout": socket.getdefaulttimeout(), "fault handler": faulthandler.is_enabled(),
        "limits": [resource.getrlimit(k) for k in range(resource.RLIM_NLIMITS if hasattr(resource, "RLIM_NLIMITS") else 10)],
        "signal mask": sorted(int(n) for n in signal.pthread_sigmask(signal.SIG_BLOCK, [])), "temporary directory": tempfile.tempdir,
        "stream settings": [[getattr(f, a, None) for a in ("encoding", "errors", "line_buffering", "write_through", "closed")] for f in (sys.stdin, sys.stdout, sys.stderr)],
        "asynchronous": [[_handler(h) for h in sys.get_asyncgen_hooks()], sys.get_coroutine_origin_tracking_depth()],
        "thread hooks": [_handler(threading.gettrace()), _handler(threading.getprofile())],
        "modules": core.sha([(n, id(sys.modules.get(n))) for n in MODULES]), "last": [hasattr(sys, a) for a in ("last_value", "ps1", "last_exc")],
    }
    for fd in (0, 1, 2):
        try:
            s["blocking %d" % fd] = os.get_blocking(fd)
        except OSError:
            pass
    n = threading.stack_size()          # which sets it, too
    threading.stack_size(n)
    s["thread stack"] = n
    u = os.umask(0o22)
    os.umask(u)
    s["umask"] = u
    s.update(_loggers())
    if tables:
        import builtins
        s["builtins"] = core.sha(sorted("%s %s" % (k, getattr(v, "__module__", "")) for k, v in vars(builtins).items() if k != "_"))
        for m in TABLES:
            mod = sys.modules.get(m)
            if mod is None:
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith("__") or (k.startswith("_") and not isinstance(v, type)):
                    continue
                if isinstance(v, type) and getattr(v, "__module__", "") == m:
                    for a, x in list(vars(v).items()):
                        if (not a.startswith("_") or a.startswith("__")) and a not in ("__doc__", "__dict__", "__weakref__"):
                            s["%s.%s.%s" % (m, k, a)] = _value(x)
                elif not isinstance(v, type(os)):
                    s["%s.%s" % (m, k)] = _value(v)
    return s


VOLATILE = ("logging.root", "logging.lastResort", "logging.Logger.manager", "logging.Logger.root")


def _diff(a, b, new=False):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in VOLATILE or a.get(k) == b.get(k):
            continue
        if new and (k not in a or k.split(".")[0] in ("logging",) and k not in b):
            continue                    # modules imported on the way
        out.append([k, repr(a.get(k))[:400], repr(b.get(k))[:400]])
    return out


class _Boom(object):
    def __init__(self, at):
        self.left = at

    def __call__(self, what, tag):
        self.left -= 1
        if self.left == 0:
            raise session.Injected("renderer fault")


def _count(s):
    from gopher_render import GopherHTMLParser
    f = session.LineFault((session.package_dir(),))
    f.places = {}
    kw = session.parser_args(s["cfg"])
    chunks = session.chunks_of(s["doc"], s["cuts"])
    with session.StepMeter():
        if s["where"] == "create":
            with f:
                GopherHTMLParser(**kw)
        else:
            p = GopherHTMLParser(**kw)

            def feed():
                for c in chunks:
                    p.feed(c)
            if s["where"] == "feed":
                with f:
                    session.outcome_of(feed)
            else:
                session.outcome_of(feed)
                with f:
                    session.outcome_of(p.close)
    return session.pick_position(f, s["frac"], s["occ"])


def _new_process(spec):
    """Differences between a new process before and after using the library."""
    code = ("import sys, json, threading, logging, warnings, locale, random, decimal, re, textwrap, html, html.parser, html.entities, urllib.parse, "
            "string, collections, argparse, inspect, pathlib\n"
            "sys.path[:0] = %r\nimport core, session, props.c22 as c\nspec = json.loads(sys.stdin.read())\nsys.path.insert(0, %r)\n"
            "import cssselect, cssselect.parser, cssselect.xpath, markdown, markdown.extensions.codehilite, pygments, pygments.formatters.html\n"
            "c._set_up(spec['settings'])\na = c.snapshot()\nimport gopher_render\nfor t in session.THEMES:\n    __import__('gopher_render.code_themes.' + t)\n"
            "b = c.snapshot()\ns = spec['sessions'][0]\nr = session.render(s['cfg'], session.chunks_of(s['doc'], s['cuts']))\nz = c.snapshot()\n"
            "sys.stdout.write(json.dumps([c._diff(a, b, True), c._diff(b, z)]))\n") % ([core.HERE], os.environ.get("VERIF_REPO") or "/repo")
    r = subprocess.run([sys.executable, "-B", "-c", code], input=json.dumps(spec).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise RuntimeError(r.stderr.decode("utf-8", "replace")[-2000:])
    return json.loads(r.stdout)


def execute(spec):
    from gopher_render import rendering as R
    stats = {}
    sig = core.sha(spec)

    def bump(k):
        stats[k] = stats.get(k, 0) + 1
    if not spec["sessions"]:
        raise core.Invalid("nothing to do")
    for k in spec["settings"]:
        bump("probe.set_" + k)
    if spec["new_process"]:
        bump("probe.new_process")
        imported, used = _new_process(spec)
        if imported:
            return core.bad("changed-by-import", {"changed": imported[:5]}, stats, sig)
        if used:
            return core.bad("changed", {"changed": used[:5]}, stats, sig)
        return core.ok(stats, sig, trivial=not spec["settings"])
    ats = {}
    for n, s in enumerate(spec["sessions"]):
        if s["how"] == "line":
            ats[n] = core.in_child(_count, s)
    base = None
    if spec["settings"].get("cwd"):
        base = tempfile.mkdtemp(prefix="c22-")
        os.chdir(base)
    try:
        return _execute(spec, R, ats, stats, sig, bump)
    finally:
        if base:
            os.chdir("/")
            os.umask(0o22)
            for n in os.listdir(base):
                os.unlink(os.path.join(base, n))
            os.rmdir(base)


def _execute(spec, R, ats, stats, sig, bump):
    args = []
    for n, s in enumerate(spec["sessions"]):
        kw = session.parser_args(s["cfg"])
        if s["how"] == "fail":
            boom = _Boom(s["at"])
            m = dict(kw.get("renderers", {}))
            for t, c in (("p", R.ParagraphRenderer), ("li", R.ListItemRenderer), ("em", R.EmRenderer), ("span", R.InlineRenderer)):
                m[t] = session.hook_class(c, boom)
            kw["renderers"] = m
        args.append((kw, session.chunks_of(s["doc"], s["cuts"])))
    _set_up(spec["settings"])
    last = [snapshot()]

    def check(what, n, full):
        now = snapshot(full)
        d = [x for x in _diff({k: v for k, v in last[0].items() if k in now} if not full else last[0], now)]
        stats["snapshots"] = stats.get("snapshots", 0) + 1
        if d:
            return core.bad("changed", {"by": what, "session": n, "changed": d[:5]}, stats, sig)
    if spec["again"]:
        bump("probe.imported_again")
        for m in [m for m in sys.modules if m == "gopher_render" or m.startswith("gopher_render.")]:
            del sys.modules[m]
        import gopher_render
        assert gopher_render
        b = check("import", 0, True)
        if b:
            return b
    from gopher_render import GopherHTMLParser
    for n, s in enumerate(spec["sessions"]):
        kw, chunks = args[n]
        fault = session.LineFault((session.package_dir(),), ats[n], session.EXCEPTIONS[s["exc"]]) if n in ats else None
        box = []

        def call(what, fn):
            try:
                if fault is not None and s["where"] == what:
                    with fault:
                        fn()
                else:
                    with session.StepMeter():
                        fn()
            except session.SimHang:
                raise core.Invalid("does not terminate")
            except BaseException as e:
                e.__traceback__ = None
            return check(what, n, what == "close")
        steps = [("create", lambda: box.append(GopherHTMLParser(**kw)))]
        feeds = [("feed", lambda c=c: box[0].feed(c)) for c in chunks]
        if s["how"] == "cut":
            bump("fault.cut")
            steps += feeds[:len(feeds) // 2]
        else:
            steps += feeds + [("close", lambda: box[0].close())]
        if s["how"] == "again":
            steps += [("reset", lambda: box[0].reset())] + feeds + [("close", lambda: box[0].close())]
        if s["how"] in ("twice", "fail", "line"):
            steps += [("close", lambda: box[0].close()), ("read", lambda: box[0].parsed)]
        for what, fn in steps:
            b = call(what, fn)
            if b:
                return b
            if not box:
                break
        if fault is not None and fault.fired:
            bump("fault.%s_in_%s" % (s["exc"], s["where"]))
        if s["how"] == "fail":
            bump("fault.renderer_failed")
        del box[:]
    return check("the end", len(spec["sessions"]), True) or core.ok(stats, sig, trivial=not spec["settings"])
