"""Simulation core: seeds, pristine processes, worker pool, minimisation,
replay files, evidence.

Every property module offers
    gen(rng, tier, index) -> spec      (JSON; the only place randomness is drawn)
    execute(spec) -> Result            (pure function of spec and the code under test)
and optionally
    SHRINK   names of spec keys whose lists / strings may be shortened
    describe(spec)                     text for evidence samples
"""
import hashlib
import json
import os
import random
import re
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

CHILD_CPU_S = 60          # backstop only; the step budget decides first


def rng_for(*parts):
    return random.Random("|".join(str(p) for p in parts))


class Invalid(Exception):
    """The spec is outside the property's domain (only happens on shrinking
    or when a generated document leaves the domain): the run decides nothing."""


class Result(dict):
    """ok: bool, kind: violation class, detail: text, stats: counters,
    state: hashable digest of the schedule / state reached."""


def ok(stats=None, sig=None, trivial=False):
    return Result(ok=True, stats=stats or {}, sig=sig, trivial=trivial)


def bad(kind, detail, stats=None, sig=None):
    return Result(ok=False, kind=kind, detail=detail, stats=stats or {}, sig=sig)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode("utf-8", "surrogatepass"))
        h.update(b"\0")
    return h.hexdigest()[:16]


# ---------------------------------------------------------------- processes

class ChildFailed(Exception):
    pass


class ChildTooLong(ChildFailed):
    pass


def in_child(fn, *args, cpu=CHILD_CPU_S):
    """Run fn(*args) in a forked copy of this process, return its (JSON)
    result. The caller's process state stays as it was."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            import resource
            hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
            if hard == resource.RLIM_INFINITY or hard > cpu + 2:
                hard = cpu + 2
            resource.setrlimit(resource.RLIMIT_CPU, (min(cpu, hard), hard))
            try:
                out = {"value": fn(*args)}
            except Invalid as e:
                out = {"invalid": str(e)}
            except BaseException:
                out = {"error": traceback.format_exc()}
            data = json.dumps(out, default=repr).encode("ascii")
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                signal.SIGXCPU, signal.SIGKILL):
            raise ChildTooLong("child exceeded its CPU budget")
        raise ChildFailed("child died, status %r" % status)
    out = json.loads(data)
    if "invalid" in out:
        raise Invalid(out["invalid"])
    if "error" in out:
        raise ChildFailed(out["error"])
    return out["value"]


def load_target_path():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def load_target():
    """Import the library under test from REPO, never from stale bytecode."""
    load_target_path()
    import gopher_render
    f = os.path.realpath(gopher_render.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    return gopher_render


def load_everything():
    """Import every module of the package, so that no import (and no real
    import lock) happens inside a simulated run."""
    g = load_target()
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(g.__path__, g.__name__ + "."):
        if m.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    return g


# ---------------------------------------------------------------- execution

def run_spec(mod, spec):
    """Execute a spec in a fresh child of this (pristine) process."""
    cpu = getattr(mod, "CPU", CHILD_CPU_S)
    try:
        return Result(in_child(_execute, mod, spec, cpu=cpu))
    except ChildTooLong:
        # stuck where no interpreter steps are taken, as in a search for a
        # regular expression
        if not getattr(mod, "HANG", False):
            raise
        return bad("hang", {"processor_seconds": cpu}, {}, sha(spec))


def _execute(mod, spec):
    if not getattr(mod, "MEMORY", True):
        return mod.execute(spec)
    import memory
    m = memory.begin(spec.get("memory", "lifo"))
    res = mod.execute(spec)
    if m.reused:
        res["stats"]["fault.address_reused"] = m.reused
    return res


# ---------------------------------------------------------------- shrinking

_TOKEN = re.compile(r"<[^<>]*>|[^<>\s]+|\s+|[<>]")


def _doc_tokens(s):
    return _TOKEN.findall(s)


def _candidates(value):
    """Shorter versions of a list or a string, biggest reductions first."""
    if isinstance(value, str):
        seq = _doc_tokens(value)
        if len(seq) <= 1:
            seq = list(value)
        join = "".join
    else:
        seq = list(value)
        join = list
    n = len(seq)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            cand = seq[:start] + seq[start + size:]
            if len(cand) < n:
                yield join(cand)
        size //= 2


def _paths(node, keys, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if k in keys and isinstance(v, (list, str)) and len(v):
                yield path + (k,)
            if isinstance(v, (dict, list)):
                yield from _paths(v, keys, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _paths(v, keys, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _set(node, path, value):
    node = json.loads(json.dumps(node))
    tgt = node
    for p in path[:-1]:
        tgt = tgt[p]
    tgt[path[-1]] = value
    return node


def minimise(mod, spec, kind, budget_s=25.0, max_execs=3000):
    """Greedy reduction keeping the violation class."""
    keys = getattr(mod, "SHRINK", ("doc", "cuts", "ops", "switches", "faults",
                                   "sessions"))
    custom = getattr(mod, "shrink", None)
    t0 = time.time()
    execs = 0

    def still(cand):
        nonlocal execs
        execs += 1
        try:
            r = run_spec(mod, cand)
        except (Invalid, ChildFailed):
            return False
        return (not r["ok"]) and r["kind"] == kind

    changed = True
    while changed and time.time() - t0 < budget_s and execs < max_execs:
        changed = False
        if custom:
            for cand in custom(spec):
                if time.time() - t0 > budget_s:
                    break
                if still(cand):
                    spec = cand
                    changed = True
                    break
        for path in list(_paths(spec, keys)):
            progress = True
            while progress and time.time() - t0 < budget_s:
                progress = False
                try:
                    cur = _get(spec, path)
                except (KeyError, IndexError, TypeError):
                    break
                for v in _candidates(cur):
                    if time.time() - t0 > budget_s:
                        break
                    cand = _set(spec, path, v)
                    if still(cand):
                        spec = cand
                        changed = progress = True
                        break
    return spec, execs


# ---------------------------------------------------------------- pool

def _merge(into, stats):
    """Counters add up, except those named max.*"""
    for k, v in stats.items():
        if k.startswith("max."):
            into[k] = max(into.get(k, 0), v)
        else:
            into[k] = into.get(k, 0) + v


def _worker(mod, prop, seed, tier, idx, nworkers, total, deadline, wfd):
    out = os.fdopen(wfd, "w")
    agg = {"runs": 0, "invalid": 0, "stats": {}, "sigs": [], "nontrivial": 0,
           "samples": [], "trace": []}
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[idx % len(cpus)]})
    except (AttributeError, OSError):
        pass
    try:
        for i in range(idx, total, nworkers):
            if time.time() > deadline:
                break
            spec = mod.gen(rng_for(seed, prop, tier, i), tier, i)
            try:
                res = run_spec(mod, spec)
            except Invalid:
                agg["invalid"] += 1
                agg["trace"].append("%d:invalid" % i)
                continue
            agg["runs"] += 1
            _merge(agg["stats"], res["stats"])
            if isinstance(res.get("sig"), list):
                agg["sigs"].extend(res["sig"])
            elif res.get("sig") is not None:
                agg["sigs"].append(res["sig"])
            if not res.get("trivial"):
                agg["nontrivial"] += 1
                if len(agg["samples"]) < 1:
                    agg["samples"].append({"index": i, "spec": spec})
            agg["trace"].append("%d:%s:%s" % (i, sha(spec), res.get("sig")))
            if not res["ok"]:
                out.write(json.dumps({"violation": {
                    "index": i, "spec": spec, "kind": res["kind"],
                    "detail": res["detail"]}}) + "\n")
                out.flush()
                break
        out.write(json.dumps({"agg": agg}) + "\n")
    except BaseException:
        out.write(json.dumps({"error": traceback.format_exc()}) + "\n")
    out.flush()
    out.close()
    os._exit(0)


def run_pool(mod, prop, seed, tier, total, cap_s, nworkers=None):
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    deadline = time.time() + cap_s
    procs = {}
    sys.stdout.flush()
    for idx in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in procs:
                    os.close(fd)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                _worker(mod, prop, seed, tier, idx, nworkers, total, deadline, w)
            finally:
                os._exit(70)
        os.close(w)
        procs[r] = [pid, b"", False]
    violations, errors, aggs = [], [], []
    open_fds = set(procs)
    hard = deadline + 150
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], 5.0)
        if time.time() > hard:
            errors.append("worker did not stop in time")
            for fd in open_fds:
                os.kill(procs[fd][0], signal.SIGKILL)
            break
        for fd in rl:
            b = os.read(fd, 1 << 20)
            if b:
                procs[fd][1] += b
                if b'"violation"' in procs[fd][1] and not any(p[2] for p in procs.values()):
                    procs[fd][2] = True
                    # let the others stop at their next run
                    for ofd in open_fds:
                        if ofd != fd:
                            try:
                                os.kill(procs[ofd][0], signal.SIGTERM)
                            except ProcessLookupError:
                                pass
                continue
            open_fds.discard(fd)
    early = any(p[2] for p in procs.values())
    for fd, (pid, data, _) in procs.items():
        os.close(fd)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        got = False
        for line in data.decode().splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "violation" in d:
                violations.append(d["violation"])
            if "error" in d:
                errors.append(d["error"])
                got = True
            if "agg" in d:
                aggs.append(d["agg"])
                got = True
        if not got and not early and not errors:
            errors.append("worker %d gave no report" % pid)
    return violations, errors, aggs


# ---------------------------------------------------------------- evidence

def write_evidence(prop, tier, seed, mod, aggs, wall, nviol, extra=None):
    runs = sum(a["runs"] for a in aggs)
    sigs = set()
    for a in aggs:
        sigs.update(a["sigs"])
    stats = {}
    for a in aggs:
        _merge(stats, a["stats"])
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe.")}
    other = {k: v for k, v in stats.items()
             if not k.startswith(("fault.", "probe."))}
    samples = []
    for a in aggs:
        samples.extend(a["samples"])
    samples.sort(key=lambda s: s["index"])
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples[:3],
        "simulated_runs": runs,
        "runs_outside_domain": sum(a["invalid"] for a in aggs),
        "runs_per_hour": int(runs / max(wall, 1e-3) * 3600),
        "nontrivial_runs": sum(a["nontrivial"] for a in aggs),
        "distinct_states_measure": mod.MEASURE,
        "faults_injected": faults,
        "probes_hit": probes,
        "counters": other,
        "simulated_time": "no clocks or timers in the code; logical time is counted in "
                          "the counters (feeds, scheduler steps, system calls)",
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
    }
    if extra:
        coverage.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, "%s.json" % prop))
    return coverage
