"""C12: a command line run affects nothing but its destination."""
import errno
import os

import clisim
import core
import docs
from props import c11

RULE = ("one run = 1-3 executions of the command line program going on at the same time in one directory full of other files "
        "(with names a careless program could pick for scratch files), their operations interleaved one by one by a seeded "
        "scheduler, with system call faults, kills of one of them, and sources that are missing, unreadable, not text, or "
        "too deep to render. Afterwards: every other file is byte for byte (and in kind, permissions, link count, time of modification) as before, "
        "no new file exists besides the destinations unless an execution was killed, a destination whose source could not be "
        "read or rendered has its previous content, and each fault-free execution produced exactly its own document. "
        "Non-trivial when executions overlapped or a fault struck. Distinct counts distinct (interleaving, traces) digests.")
MEASURE = "distinct digests of (order in which the processes performed their operations, system call traces)"
REAL = c11.REAL
STUB = c11.STUB + ["the process scheduler, at the granularity of operations on files and standard output"]
ASSUME = ["executions running at the same time have different destinations, and none writes another's source",
          "source and destination are different files", "a killed execution cannot remove its scratch files",
          c11.ASSUME[2]]
MEMORY = False
QUICK = (15000, 50)
THOROUGH = (200000, 600)
SHRINK = ("doc", "order", "plan", "jobs", "siblings")
prepare = clisim.prepare

SIBLINGS = ["{d}.tmp", "{d}~", ".{d}.swp", "{d}.bak", "{d}.new", "{d}.part", "tmp", "temp.txt", "out.html", "output.txt", "{s}.html", "{s}.bak",
            "{s}.txt", "{s}.tmp", "{s}~", "page.html", "page.txt", "log.txt", "gopher_render.log", "{d}.lock", "gophermap", "{s}.out"]
DEEP = b"<div><em>x" * 1200
BAD = ["missing", "not-text", "directory", "unreadable", "unopenable", "deep"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2, 2, 3])
    jobs = []
    for k in range(n):
        suffix = rng.choice([".md", ".md", ".html", ""])
        doc = c11.document(rng, suffix)
        bad = rng.choice(BAD) if rng.random() < 0.3 else None
        if bad == "deep":
            suffix = ".html"                     # Markdown takes minutes over it
        p = []
        if rng.random() < 0.4:
            p = c11.plan(rng, rng.random() < 0.6, len(doc))
        if bad == "unreadable":
            p.append("fail read S %d %d" % (rng.choice([0, 0, 0, 1]), rng.choice([errno.EIO, errno.EISDIR])))
        if bad == "unopenable":
            p.append("fail open S 0 %d" % rng.choice([errno.EACCES, errno.EIO, errno.EMFILE]))
        jobs.append({"doc": doc, "suffix": suffix, "bad": bad, "plan": p, "dump": rng.random() < 0.3,
                     "old": rng.random() < 0.6, "name": rng.choice(["page", "page", "a", "note", "~page", "$HOME", "a b", "p\u00e4ge", "%s"]) if n == 1 else "page%d" % k,
                     "dname": rng.choice(["out.txt", "page.txt", "gophermap", "out", "~out", "$HOME", "a b.txt", "p\u00e4ge.txt", "out.md", "{}%s"]) if n == 1 else "out%d.txt" % k})
        if rng.random() < 0.4:
            jobs[-1].update(sdir=rng.choice(["", "in", "other"]), ddir=rng.choice(["", "in", "other", "other/deep"]), argument=rng.choice(["plain", "dot", "absolute", "around"]))
        if rng.random() < 0.08:
            jobs[-1]["dbad"] = rng.choice(["no-directory", "directory"])
    same = n > 1 and rng.random() < 0.25
    if same:                                     # several destinations from one source
        for j in jobs[1:]:
            for f in ("doc", "suffix", "bad", "name"):
                j[f] = jobs[0][f]
            j["sdir"] = jobs[0].get("sdir", "")
    kill = {}
    if n > 1 and rng.random() < 0.3:
        kill = {str(rng.randrange(n)): rng.randrange(12)}
    style = rng.random()
    if style < 0.5:
        order = [rng.randrange(6) for _ in range(120)]
    elif style < 0.8:                            # runs of random length
        order = []
        while len(order) < 150:
            order += [rng.randrange(6)] * rng.randint(1, 12)
    else:
        order = [k % n for k in range(200)]
    return {"jobs": jobs, "order": order, "kill": kill,
            "siblings": rng.sample(SIBLINGS, rng.randint(3, len(SIBLINGS)))}


def _argument(w, j, path):
    how = j.get("argument", "plain")
    if how == "absolute":
        return path
    p = os.path.relpath(path, w.work)
    return {"dot": "./" + p, "around": "../work/in/../" + p}.get(how, p)


def execute(spec):
    stats, sig = {}, None
    jobs = spec["jobs"]
    if not jobs:
        raise core.Invalid("nothing to do")
    with clisim.World() as w:
        exps, paths = [], []
        for n in ("in", "other", "other/deep"):
            os.mkdir(os.path.join(w.work, n))
        for j in jobs:
            src = os.path.join(w.work, j.get("sdir", ""), j["name"] + j["suffix"])
            dst = os.path.join(w.work, "gone" if j.get("dbad") == "no-directory" else j.get("ddir", ""), j["dname"])
            if src == dst or any(dst in p for p in paths) or any(src == p[1] for p in paths):
                raise core.Invalid("source or destination in use")
            paths.append((src, dst))
            data = j["doc"].encode("utf-8", "replace")
            if j["bad"] == "not-text":
                data = data[:len(data) // 2] + b"\xff\xfe\x80" + data[len(data) // 2:]
            if j["bad"] == "deep":
                data = DEEP
            if j["bad"] == "directory":
                if not os.path.isdir(src):
                    os.mkdir(src)
            elif j["bad"] != "missing":
                with open(src, "wb") as f:
                    f.write(data)
            if j.get("dbad") == "directory":
                os.mkdir(dst)
            elif j["old"] and not j.get("dbad"):
                with open(dst, "w") as f:
                    f.write("previous content of %s\n" % j["dname"] * 300)
            stats["probe.too_deep_to_render"] = stats.get("probe.too_deep_to_render", 0)
            exps.append(clisim.expectation(data, j["suffix"] == ".md") if j["bad"] in (None, "deep", "unreadable", "unopenable") else None)
            if j["bad"] == "deep" and exps[-1] is None:
                stats["probe.too_deep_to_render"] += 1
            if j["bad"] not in ("missing", "not-text", "directory", "deep") and exps[-1] is None:
                raise core.Invalid("cannot be rendered")
            if j.get("dbad"):
                exps[-1] = None
                stats["fault.destination_" + j["dbad"]] = stats.get("fault.destination_" + j["dbad"], 0) + 1
        for k, s in enumerate(spec["siblings"]):
            for src, dst in paths:
                p = os.path.join(os.path.dirname(dst) if os.path.isdir(os.path.dirname(dst)) and k % 2 else w.work, s.format(s=os.path.splitext(os.path.basename(src))[0], d=os.path.basename(dst)))
                if not os.path.lexists(p) and not any(p in x for x in paths):
                    with open(p, "w") as f:
                        f.write("another file %d\n" % k)
        for n in ("kept.md", "kept.txt"):
            with open(os.path.join(w.work, "other", n), "w") as f:
                f.write("content of " + n)
        clisim.make_old(w.root)
        before = clisim.snapshot(w.root)
        old = [clisim.read_bytes(d) for s, d in paths]

        procs = []
        for k, j in enumerate(jobs):
            argv = (["--dump"] if j["dump"] else []) + [_argument(w, j, x) for x in paths[k]]
            held = [fd for p in procs for fd in (p.go, p.ready)]
            procs.append(clisim.start(w, "job%d" % k, argv, w.work, paths[k][0], paths[k][1], j["plan"],
                                      scheduled=True, close_fds=held))
        trace = clisim.schedule(procs, spec["order"], {int(k): v for k, v in spec["kill"].items()})
        after = clisim.snapshot(w.root)
        overlap = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
        stats["operations"] = len(trace)
        stats["process_switches"] = overlap
        opsall, killed, nfaults, infos = [], False, 0, []
        for k, p in enumerate(procs):
            if p.wait() == ("exit", 99):
                raise RuntimeError("the driver failed: %r" % clisim.read_bytes(os.path.join(w.base, "job%d.err" % k)))
            ops = p.operations()
            opsall.append([o[1:4] for o in ops])
            for o in ops:
                if o[3] in ("failed", "killed", "interrupted"):
                    n = "killed" if o[3] == "killed" else "%s_%s" % ("interrupted" if o[3] == "failed" and int(o[4]) == errno.EINTR else o[3], o[1])
                    stats["fault." + n] = stats.get("fault." + n, 0) + 1
                    nfaults += 1
            killed = killed or p.status[0] == "signal"
            infos.append({"status": list(p.status), "operations": [" ".join(o) for o in ops[:60]],
                          "stderr": (clisim.read_bytes(os.path.join(w.base, "job%d.err" % k)) or b"").decode("utf-8", "replace")[-600:]})
        for j in jobs:
            if j["bad"]:
                stats["fault.source_" + j["bad"]] = stats.get("fault.source_" + j["bad"], 0) + 1
                nfaults += 1
        sig = core.sha(trace, opsall, [j["doc"] for j in jobs])
        info = {"jobs": infos, "order": trace[:200]}

        dests = {os.path.relpath(d, w.root) for s, d in paths}
        for name in before:
            if name in dests:
                continue
            if after.get(name) != before[name]:
                info["file"] = [name, before[name], after.get(name)]
                return core.bad("other-file-changed", info, stats, sig)
        for name in after:
            if name not in before and name not in dests and not killed:
                info["file"] = [name, after[name]]
                return core.bad("extra-file", info, stats, sig)
        for k, j in enumerate(jobs):
            p, exp = procs[k], exps[k]
            now = clisim.read_bytes(paths[k][1])
            fired = any(o[3] in ("failed", "killed") and not (o[3] == "failed" and int(o[4]) == errno.EINTR) for o in p.operations())
            sread = any(o[2] == "S" and o[3] == "failed" and int(o[4]) != errno.EINTR and o[1] in ("open", "read") for o in p.operations())
            if (exp is None or sread) and now != old[k]:
                info["destination"] = [j["dname"], j["bad"], len(old[k]) if old[k] is not None else None, len(now) if now is not None else None]
                return core.bad("destination-lost", info, stats, sig)
            if exp is None and not sread and p.status == ("exit", 0):
                info["source"] = j["bad"] or j.get("dbad")
                return core.bad("failure-hidden", info, stats, sig)
            if exp is not None and not fired:
                want_dst = exp[1].encode("utf-8", "surrogatepass")
                want_out = ((exp[0] + "\n" if j["dump"] else "") + exp[1] + "\n").encode("utf-8", "surrogatepass")
                if p.status != ("exit", 0) or now != want_dst or p.output() != want_out:
                    info["job"] = k
                    info["sizes"] = [len(want_dst), now if now is None else len(now), len(want_out), len(p.output())]
                    return core.bad("not-its-own-document", info, stats, sig)
                stats["probe.complete_while_others_ran"] = stats.get("probe.complete_while_others_ran", 0) + int(overlap > 1)
    return core.ok(stats, sig, trivial=overlap == 0 and not nfaults)
