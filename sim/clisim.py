"""Running the command line program under the system call seam."""
import ctypes
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile

import core

SO = os.path.join(core.VERIF, "build", "shim.so")
SRC = os.path.join(core.HERE, "shim", "shim.c")
WIDTH = 67


def build():
    """Compile the shim if it is not there or older than its source."""
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(SRC):
        return
    os.makedirs(os.path.dirname(SO), exist_ok=True)
    tmp = "%s.%d" % (SO, os.getpid())
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-U_FORTIFY_SOURCE", "-o", tmp, SRC, "-ldl"], check=True)
    os.replace(tmp, SO)


def prepare():
    """Restart this process with the (inactive) shim in place, then load the
    program, so that runs are copies of this process."""
    build()
    if os.environ.get("VSIM_PRELOADED") != "1":
        env = dict(os.environ, LD_PRELOAD=SO, VSIM_PRELOADED="1")
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)
    os.environ.pop("LD_PRELOAD", None)
    os.environ.pop("VSIM_PRELOADED", None)
    ctypes.CDLL(None).vshim_arm                      # the seam is in place
    import markdown, cssselect, tempfile             # noqa: F401,E401
    core.load_everything()
    import markdown.extensions.extra                 # noqa: F401
    import markdown.extensions.codehilite            # noqa: F401
    import markdown.extensions.meta                  # noqa: F401
    import gopher_render.cli                         # noqa: F401
    import gc
    markdown.markdown("x\n\n```python\na\n```\n\n    b\n", extensions=["codehilite", "extra", "meta"])   # loads what it loads lazily
    gc.collect()
    gc.freeze()                                      # copies of this process end faster


# ---------------------------------------------------------------- expectation

def _expect(data, markdown_source):
    import markdown
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import Box
    from gopher_render.code_themes.iced_gopher import renderers
    text = data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    if markdown_source:
        text = markdown.markdown(
            text,
            extensions=["markdown.extensions.codehilite", "markdown.extensions.extra", "markdown.extensions.meta"],
            extension_configs={"markdown.extensions.codehilite": {"css_class": "highlight"}},
            output_format="html")
    p = GopherHTMLParser(output_format="text", gopher_host="my.gopher.com", box=Box(width=WIDTH, margin=[1, 0, 1, 0]),
                         link_placement="footer", image_placement="inline", renderers=renderers)
    p.feed(text)
    p.close()
    return [text, p.parsed]


def expectation(data, markdown_source):
    """[html, text] of a source file, computed without the program; None if
    it cannot be rendered."""
    try:
        return core.in_child(_expect, data, markdown_source)
    except core.ChildFailed:
        return None


# ---------------------------------------------------------------- file trees

def snapshot(root, skip=()):
    """Names, kinds, permissions, link counts, times of modification and
    contents of everything below root."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs + files):
            p = os.path.join(d, n)
            if p in skip:
                continue
            st = os.lstat(p)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = "link " + os.readlink(p)
            elif os.path.isdir(p):
                out[r] = "dir %o" % st.st_mode
            else:
                with open(p, "rb") as f:
                    out[r] = "file %o %d %d %s" % (st.st_mode, st.st_nlink, st.st_mtime_ns, core.sha(f.read()))
    return out


def make_old(root):
    """Files last modified long ago, so that any later change shows."""
    for d, dirs, files in os.walk(root):
        for n in files:
            os.utime(os.path.join(d, n), ns=(10 ** 18, 10 ** 18), follow_symlinks=False)


def read_bytes(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


# ---------------------------------------------------------------- processes

class Proc(object):
    def __init__(self, pid, out, log, popen=None):
        self.pid, self.out, self.log, self.popen = pid, out, log, popen
        self.status = None
        self.go = self.ready = None

    def wait(self):
        if self.status is None:
            if self.popen is not None:
                rc = self.popen.wait()
                self.status = ("signal", -rc) if rc < 0 else ("exit", rc)
            else:
                _, st = os.waitpid(self.pid, 0)
                if os.WIFSIGNALED(st):
                    self.status = ("signal", os.WTERMSIG(st))
                else:
                    self.status = ("exit", os.WEXITSTATUS(st))
        return self.status

    def operations(self):
        """[[number, op, class, what, ...], ...]"""
        with open(self.log) as f:
            return [l.split() for l in f]

    def output(self):
        return read_bytes(self.out)


def start(world, name, argv, cwd, src, dst, plan, mode="fork", scheduled=False, close_fds=()):
    """Start the program. mode: fork (a copy of this process runs main()),
    entry (as the console script does), fresh (a new interpreter)."""
    out = os.path.join(world.base, name + ".out")
    err = os.path.join(world.base, name + ".err")
    log = os.path.join(world.base, name + ".log")
    for p in (out, err, log):
        open(p, "w").close()
    lines = ["root " + world.root, "src " + src, "dst " + dst] + list(plan)
    env = {"TMPDIR": world.tmp, "HOME": world.home}
    p = Proc(None, out, log)
    go_r = ready_w = None
    if scheduled:
        go_r, p.go = os.pipe()
        p.ready, ready_w = os.pipe()
    if mode in ("fresh", "ascii", "ascii-files"):
        lf = os.open(log, os.O_WRONLY | os.O_APPEND)
        lines.append("log %d" % lf)
        e = dict(os.environ, LD_PRELOAD=SO, VSHIM_PLAN="\n".join(lines), PYTHONPATH=core.REPO, **env)
        if mode != "fresh":                              # a locale that knows ASCII only
            e.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
            e.pop("PYTHONIOENCODING", None)
            if mode == "ascii-files":
                e["PYTHONIOENCODING"] = "utf-8"
        with open(out, "wb") as fo, open(err, "wb") as fe:
            p.popen = subprocess.Popen([sys.executable, "-B", "-m", "gopher_render"] + argv, cwd=cwd, env=e,
                                       stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, pass_fds=(lf,))
        os.close(lf)
        return p
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            for fd in close_fds:
                os.close(fd)
            if scheduled:
                os.close(p.go)
                os.close(p.ready)
                os.dup2(go_r, 902)
                os.dup2(ready_w, 903)
                os.close(go_r)
                os.close(ready_w)
                lines.append("sched 902 903")
            for path, fd in ((out, 1), (err, 2), (log, 901)):
                f = os.open(path, os.O_WRONLY | os.O_APPEND)
                os.dup2(f, fd)
                os.close(f)
            f = os.open("/dev/null", os.O_RDONLY)
            os.dup2(f, 0)
            os.close(f)
            lines.append("log 901")
            os.chdir(cwd)
            os.environ.update(env)
            tempfile.tempdir = None
            sys.stdout.reconfigure(line_buffering=False)
            sys.argv = ["gopher-render"] + argv
            shim = ctypes.CDLL(None)
            if mode == "entry":
                sys.modules.pop("gopher_render.__main__", None)
                try:
                    from gopher_render.__main__ import main
                except Exception as e:           # the console script fails here
                    failure = e

                    def main():
                        raise failure
            else:
                from gopher_render.cli import main
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(99)
        code = 0
        shim.vshim_arm(os.fsencode("\n".join(lines)))
        try:
            main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except KeyboardInterrupt:
            code = 130
        except BaseException:
            import traceback
            try:
                traceback.print_exc()
            except BaseException:
                pass
            code = 1
        # finalises the interpreter exactly as the end of a program does
        ctypes.pythonapi.Py_Exit(code & 0xff)
    p.pid = pid
    if scheduled:
        os.close(go_r)
        os.close(ready_w)
    return p


def schedule(procs, order, kills):
    """Let the processes perform one operation at a time, in the order given
    (numbers, taken modulo the number of processes that can go on).
    kills: {process index: operation} the process does not survive."""
    trace = []
    asked = {}
    ops = [0] * len(procs)
    alive = set(range(len(procs)))
    k = 0
    while alive:
        for i in sorted(alive - set(asked)):
            r, _, _ = select.select([procs[i].ready], [], [], 60)
            if not r:
                for j in alive:
                    os.kill(procs[j].pid, signal.SIGKILL)
                raise RuntimeError("process %d stalled" % i)
            if os.read(procs[i].ready, 1) == b"r":
                asked[i] = True
            else:
                alive.discard(i)
                os.close(procs[i].ready)
                os.close(procs[i].go)
                procs[i].wait()
        if not asked:
            continue
        c = sorted(asked)
        i = c[(order[k] if k < len(order) else 0) % len(c)]
        k += 1
        del asked[i]
        dies = kills.get(i) == ops[i]
        ops[i] += 1
        trace.append(i)
        os.write(procs[i].go, b"k" if dies else b"g")
    return trace


class World(object):
    """A scratch directory with the files the program may touch."""

    def __enter__(self):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="vsim-cli-"))
        self.root = os.path.join(self.base, "fs")
        self.work = os.path.join(self.root, "work")
        self.tmp = os.path.join(self.root, "tmp")
        self.home = os.path.join(self.root, "home")
        for d in (self.root, self.work, self.tmp, self.home):
            os.mkdir(d)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.base, ignore_errors=True)
        return False
