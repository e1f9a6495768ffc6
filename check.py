#!/usr/bin/env python3
"""Decides one property by deterministic simulation (see DESIGN.md).

    check.py C07                 run the check of C07 (tier and seed from VERIF_TIER, VERIF_SEED)
    check.py --replay FILE       rebuild what the replay file needs and run it in a fresh process

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: broken check.
"""
import hashlib
import json
import os
import random
import re
import struct
import subprocess
import sys
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "gen"))
import machine as machine_mod  # noqa: E402
import randmachine  # noqa: E402
from profiles import PROPS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 8)
QUIRKS = {"ANON": 1, "NEST": 2, "DEEP": 4, "INNER": 8, "FACTORY": 16, "REPLACE": 32}
HEADERS = {"tree": "hsm/hsm.h", "single": "hsm/gen/hsm.h"}
CXX = os.environ.get("VERIF_CXX", "clang++")
T0 = time.monotonic()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.monotonic() - T0), *a, flush=True)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)


# ------------------------------------------------------------------------------------------------
# Building
# ------------------------------------------------------------------------------------------------
def tree_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(os.path.join(REPO, "include")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode())
            h.update(open(p, "rb").read())
    for f in ("sim.h", "sim.cpp"):
        h.update(open(os.path.join(VERIF, "sim", f), "rb").read())
    return h.hexdigest()


class CompileFailure(Exception):
    def __init__(self, machine, output, header):
        self.machine, self.output, self.header = machine, output, header


def compiler(name, asan):
    """Machines are compiled by g++ and clang++ in turn (what is unspecified in C++ differs between them)."""
    return "g++" if not asan and name != "sim" and "VERIF_CXX" not in os.environ and zlib.crc32(name.encode()) % 2 else CXX


def compile_one(cxx, src, obj, flags, timeout=600):
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [cxx, "-std=c++20", "-w", "-D_GLIBCXX_ASSERTIONS"] + (["-fbracket-depth=4096"] if "clang" in cxx else []) + ["-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(VERIF, "sim")] + flags + ["-c", src, "-o", tmp]
    try:
        r = sh(cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, b"compiler timed out"
    if r.returncode == 0:
        os.replace(tmp, obj)
    return r.returncode, r.stderr


def build(machines, **spec):
    """Returns the path of the simulator for these machines."""
    return build_many([dict(spec, machines=machines)])[0]


def build_many(specs):
    """One executable per spec (machines, asan, header, opt); all translation units compile in one pool."""
    th = tree_hash()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    simtext = open(os.path.join(VERIF, "sim", "sim.cpp")).read()
    jobs = {}
    parts = []

    def job(machine, header, name, text, flags):
        cxx = compiler(name, "-fsanitize=address" in flags)
        key = hashlib.sha256((th + text + " ".join(flags) + cxx).encode()).hexdigest()[:24]
        src = os.path.join(BUILD, "obj", "%s-%s.cpp" % (name, key))
        obj = src[:-4] + ".o"
        jobs[obj] = (machine, header, text, flags, src, obj, cxx)
        return obj

    for sp in specs:
        san = ["-fsanitize=address"] if sp.get("asan") else []
        header = sp.get("header", "tree")
        objs = [job(None, header, "sim", simtext, ["-O1", "-g1"] + san)]
        for m in sp["machines"]:
            objs.append(job(m, header, m.name, m.cpp(), [sp.get("opt", "-O1"), "-g0", '-DHSM_HEADER="%s"' % HEADERS[header]] + san))
        parts.append((san, objs))

    def run(j):
        machine, header, text, flags, src, obj, cxx = j
        if os.path.exists(obj):
            return None
        with open(src, "w") as f:
            f.write(text)
        rc, err = compile_one(cxx, src, obj, flags)
        return (rc, err) if rc else None

    # the simulator and the big ones first
    order = sorted(jobs.values(), key=lambda j: -len(j[2]) if j[0] else -10 ** 9)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(zip(order, ex.map(run, order)))
    for j, failed in res:
        if failed:
            again = run(j)      # one at a time, in case memory was short
            if again:
                if not re.search(rb": (fatal )?error: ", again[1]) or b"unable to rename" in again[1]:
                    raise CheckError("the compiler failed:\n" + again[1].decode(errors="replace")[:3000])
                if j[0] is None:
                    raise CheckError("the simulator does not compile:\n" + again[1].decode(errors="replace")[:3000])
                raise CompileFailure(j[0], again[1].decode(errors="replace"), j[1])
    out = []
    for san, objs in parts:
        exe = os.path.join(BUILD, "sim-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:24])
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh([CXX] + san + objs + ["-o", tmp])
            if r.returncode:
                raise CheckError("link: " + r.stderr.decode(errors="replace")[:3000])
            os.replace(tmp, exe)
        out.append(exe)
    return out


# ------------------------------------------------------------------------------------------------
# Running
# ------------------------------------------------------------------------------------------------
def classify(rc):
    if rc in (0, 1):
        return None
    return {77: "hang", 78: "unbounded-memory", 99: "memory-error", -11: "crash", -6: "abort", 134: "abort", 139: "crash",
            -8: "crash", -4: "crash", -7: "crash", -5: "crash"}.get(rc)


def useful_stderr(b):
    t = b.decode(errors="replace")
    lines = [x for x in t.split("\n") if "makecontext/swapcontext" not in x and x.strip()]
    return "\n".join(x[:300] for x in lines[:14])


def replay(exe, path, quirks):
    """(class, detail, hash): class None if real and reference agree."""
    try:
        r = sh([exe, "--replay", path, "--quirks", str(quirks)], timeout=120)
    except subprocess.TimeoutExpired:
        return "hang", "no progress", None
    out = r.stdout.decode(errors="replace")
    m = re.search(r"^hash (\d+)$", out, re.M)
    h = m.group(1) if m else None
    if r.returncode == 0:
        return None, "", h
    if r.returncode == 1 and "DIVERGE" in out:
        return "diverge", out.split("DIVERGE\n", 1)[1], h
    c = classify(r.returncode)
    if c:
        return c, useful_stderr(r.stderr), h
    raise CheckError("replay of %s ended with %s: %s" % (path, r.returncode, r.stderr.decode(errors="replace")[:500]))


def parse_trace(text):
    head, steps = [], []
    for line in text.split("\n"):
        if line.startswith("step "):
            steps.append([line, []])
        elif line.startswith("  plan "):
            steps[-1][1].append(line)
        elif line.startswith(("instance ", "seed ", "trace ")):
            head.append(line)
    return head, steps


def trace_text(head, steps):
    return "\n".join(head + [x for s in steps for x in [s[0]] + s[1]] + ["end", ""])


def minimise(exe, text, quirks, cls, work, budget=60.0):
    """Drops steps, then injected faults, then single arguments, as long as it still fails alike."""
    head, steps = parse_trace(text)
    end = time.monotonic() + budget
    tried = [0]

    def fails(st, hd=None):
        tried[0] += 1
        p = os.path.join(work, "min.trace")
        with open(p, "w") as f:
            f.write(trace_text(hd or head, st))
        try:
            return replay(exe, p, quirks)[0] == cls
        except CheckError:
            return False

    def over():
        return time.monotonic() > end

    n = 2
    while len(steps) >= 2 and not over():
        size = max(1, len(steps) // n)
        cut = False
        for i in range(0, len(steps), size):
            cand = steps[:i] + steps[i + size:]
            if cand and fails(cand):
                steps, n, cut = cand, max(n - 1, 2), True
                break
            if over():
                break
        if not cut:
            if size == 1:
                break
            n = min(len(steps), n * 2)
    for i in range(len(steps)):
        j = 0
        while j < len(steps[i][1]) and not over():
            cand = [[s[0], list(s[1])] for s in steps]
            del cand[i][1][j]
            if fails(cand):
                steps = cand
            else:
                j += 1
    for i in range(len(steps)):
        for pat, to in ((r" af=\d", " af=0"), (r" cf=\d", " cf=0"), (r" n=\d", " n=0"), (r" c=\d+", " c=0"), (r" p=0", " p=1")):
            if over():
                break
            cand = [[s[0], list(s[1])] for s in steps]
            cand[i][0] = re.sub(pat, to, cand[i][0])
            if cand[i][0] != steps[i][0] and fails(cand):
                steps = cand
    # machines that take no part
    used = sorted({int(re.search(r" i=(\d+)", s[0]).group(1)) for s in steps})
    inst = [h for h in head if h.startswith("instance ")]
    if len(used) < len(inst) and not over():
        hd = [h for h in head if not h.startswith("instance ")] + [inst[i] for i in used]
        st = [[re.sub(r" i=(\d+)", lambda m: " i=%d" % used.index(int(m.group(1))), s[0]), s[1]] for s in steps]
        if fails(st, hd):
            head, steps = hd, st
    return trace_text(head, steps), tried[0]


class Violation(Exception):
    def __init__(self, cls, detail, path):
        self.cls, self.detail, self.path = cls, detail, path


def save_replay(prop, seed, body, machines, meta):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.replay" % (prop, seed))
    with open(p, "w") as f:
        f.write("# replay with: check.py --replay %s\n" % os.path.relpath(p, VERIF))
        for k, v in meta.items():
            f.write("#meta %s %s\n" % (k, v))
        for m in machines:
            for line in m.source.rstrip("\n").split("\n"):
                f.write("#machine %s\n" % line)
        f.write(body)
    return p


def load_replay(path):
    meta, src, body = {}, [], []
    for line in open(path).read().split("\n"):
        if line.startswith("#meta "):
            k, v = line[6:].split(" ", 1)
            meta[k] = v
        elif line.startswith("#machine "):
            src.append(line[9:])
        elif not line.startswith("#"):
            body.append(line)
    return meta, load_machines("\n".join(src)), "\n".join(body)


def load_machines(text):
    out = []
    for part in re.split(r"(?m)^(?=machine )", text):
        if part.startswith("machine "):
            m = machine_mod.parse(part)[0]
            m.source = part
            out.append(m)
    return out


# ------------------------------------------------------------------------------------------------
# Known findings
# ------------------------------------------------------------------------------------------------
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        m = re.match(r"finding: property=(\S+) id=(\S+) replay=(\S+) (.*)", line)
        if m:
            out.append(dict(props=m.group(1).split(","), id=m.group(2), replay=os.path.join(VERIF, m.group(3)), what=m.group(4)))
    return out


def load_findings():
    """The findings with their replay files, and what to build for them."""
    items = []
    for k in known_findings():
        meta, machines, body = load_replay(k["replay"])
        items.append((k, meta, machines, body))
    groups = {}
    for k, meta, machines, body in items:
        groups.setdefault(meta.get("asan") == "1", {}).update({m.name: m for m in machines})
    groups = sorted(groups.items())
    return items, [a for a, ms in groups], [dict(machines=sorted(ms.values(), key=lambda m: m.name), asan=a) for a, ms in groups]


def probe_findings(prop, items, exes):
    """Returns (quirk mask for this tree, lines to print). Raises Violation for anything new."""
    quirks, lines = sum(QUIRKS.values()), []
    allq = quirks
    for k, meta, machines, body in items:
        exe = exes[meta.get("asan") == "1"]
        bit = QUIRKS[k["id"]]
        if meta.get("expect") == "memory-error":
            cls, detail, _ = replay(exe, k["replay"], allq)
            if cls == "memory-error":
                if prop in k["props"]:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            elif cls is None:
                quirks &= ~bit
            elif prop in k["props"]:
                raise Violation(cls, detail, k["replay"])
            continue
        with_quirk = replay(exe, k["replay"], allq)
        if with_quirk[0] is None:
            if prop in k["props"]:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            continue
        ideal = replay(exe, k["replay"], allq & ~bit)
        if ideal[0] is None:
            quirks &= ~bit
        elif prop in k["props"]:
            raise Violation(with_quirk[0], with_quirk[1], k["replay"])
    return quirks, lines


# ------------------------------------------------------------------------------------------------
# The search
# ------------------------------------------------------------------------------------------------
def batches(exe, base, per_worker, limit, profile, quirks, work, tag, hashes=False):
    procs = []
    for w in range(JOBS):
        out = os.path.join(work, "%s-%d.json" % (tag, w))
        cmd = [exe, "--batch", str(base + w * per_worker), "--count", str(per_worker), "--time", str(limit), "--out", out,
               "--profile", profile, "--quirks", str(quirks)]
        if hashes:
            cmd.append("--hashes")
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"))))
    results, failures = [], []
    end = time.monotonic() + limit + 60
    for out, p in procs:
        try:
            rc = p.wait(timeout=max(1.0, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 77
        if rc in (0, 1):
            results.append((out, json.load(open(out))))
            if rc == 1:
                d = results[-1][1]["violation"]
                failures.append((d["seed"], "diverge", d["what"], open(out + ".trace").read()))
        elif classify(rc):
            seed = int(open(out + ".cur").read().strip() or "0")
            failures.append((seed, classify(rc), useful_stderr(open(out + ".err", "rb").read()), None))
        else:
            raise CheckError("worker ended with %d: %s" % (rc, open(out + ".err").read()[-800:]))
    return results, failures


def report_sequence(prop, exe, failure, start, profile, quirks, machines, work, meta, last):
    """A failure that needs the runs before it in the same process (state that outlives machines)."""
    seed, cls, detail, _ = failure
    p = os.path.join(work, "seq-%d.trace" % seed)
    blocks, have = [last], seed

    def fails(bl):
        with open(p, "w") as f:
            f.write("\n".join(bl))
        return replay(exe, p, quirks)

    got = (None, "", None)
    n = 1
    while have > start and got[0] is None and n <= 4096:
        lo = max(start, seed - n)
        with ThreadPoolExecutor(JOBS) as ex:
            more = list(ex.map(lambda x: sh([exe, "--gen", str(x), "--profile", profile, "--quirks", str(quirks)]).stdout.decode(), range(lo, have)))
        blocks, have = more + blocks, lo
        got = fails(blocks)
        n *= 4
    if got[0] is None:
        raise CheckError("seed %d failed (%s) but its replay does not: %s" % (seed, cls, detail[:600]))
    cls = got[0]
    end = time.monotonic() + 60
    k = max(1, (len(blocks) - 1) // 2)
    while len(blocks) > 1 and time.monotonic() < end:
        cut = False
        i = 0
        while i < len(blocks) - 1:
            cand = blocks[:i] + blocks[min(i + k, len(blocks) - 1):]
            if fails(cand)[0] == cls:
                blocks, cut = cand, True
            else:
                i += k
            if time.monotonic() > end:
                break
        if not cut and k == 1:
            break
        k = max(1, k // 2)
    body = "\n".join(blocks)
    used = {line.split()[1] for line in body.split("\n") if line.startswith("instance ")}
    path = save_replay(prop, seed, body, [m for m in machines if m.name in used], dict(meta, property=prop, seed=seed, quirks=quirks, **{"class": cls}))
    final = replay(exe, path, quirks)
    if final[0] is None:
        raise CheckError("the minimised sequence of seed %d does not fail any more" % seed)
    log("the failure needs %d earlier run(s) in the same process" % (len(blocks) - 1))
    return Violation(cls, final[1] + "\n" + body, path)


def report(prop, exe, failure, start, profile, quirks, machines, work, meta):
    """Gates and minimises a failure. Returns the Violation."""
    seed, cls, detail, trace = failure
    if trace is None:
        r = sh([exe, "--gen", str(seed), "--profile", profile, "--quirks", str(quirks)])
        if r.returncode:
            raise CheckError("cannot regenerate seed %d: %s" % (seed, r.stderr.decode(errors="replace")[:500]))
        trace = r.stdout.decode()
    p = os.path.join(work, "full-%d.trace" % seed)
    with open(p, "w") as f:
        f.write(trace)
    first, second = replay(exe, p, quirks), replay(exe, p, quirks)
    if first[0] is None and second[0] is None:
        # what ran earlier in that process may matter: replay it together with its predecessors
        return report_sequence(prop, exe, failure, start, profile, quirks, machines, work, meta, trace)
    if first[0] is None:
        first = second
    deterministic = first[0] == second[0] and first[2] == second[2]
    cls = first[0]
    body, tried = minimise(exe, trace, quirks, cls, work) if deterministic else (trace, 0)
    used = {line.split()[1] for line in body.split("\n") if line.startswith("instance ")}
    ms = [m for m in machines if m.name in used]
    path = save_replay(prop, seed, body, ms, dict(meta, property=prop, seed=seed, quirks=quirks, **{"class": cls}))
    final = replay(exe, path, quirks)
    if final[0] is None and deterministic:
        raise CheckError("the minimised trace of seed %d does not fail any more" % seed)
    log("minimised %d steps to %d (%d replays)" % (trace.count("\nstep "), body.count("\nstep "), tried))
    return Violation(cls, (final[1] or detail) + "\n" + body, path)


def main_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    P = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    log("property", prop, "tier", tier, "VERIF_SEED", seed, "tree", tree_hash()[:12])
    zoo = load_machines(open(os.path.join(VERIF, "gen", "zoo.hm")).read())
    machines = P.machines(zoo, thorough)
    rnd = random.Random("%d %s" % (seed, prop))
    nrand = P.rand_thorough if thorough else P.rand_quick
    for i in range(nrand):
        text = randmachine.make("rnd%d" % i, random.Random(rnd.getrandbits(64)), P.features)
        machines += load_machines(text)
    flavours = P.flavours_thorough if thorough else P.flavours
    sim_s = P.thorough_s if thorough else P.quick_s
    violation, lines, runs = None, [], []
    quirks = sum(QUIRKS.values())
    build_s = 0.0
    determinism = 0
    try:
        items, kinds, specs = load_findings()
        exes = []
        t = time.monotonic()
        for fl in flavours:
            meta = {"asan": "1" if fl.get("asan") else "0", "header": fl.get("header", "tree"), "opt": fl.get("opt", "-O1")}
            ms = machines
            if fl.get("notation"):
                meta["notation"] = fl["notation"]
                ms = load_machines("\n".join(re.sub(r"(?m)^(machine .*)$", r"\1\nnotation " + fl["notation"], m.source) for m in machines))
            specs.append(dict(machines=ms, asan=bool(fl.get("asan")), header=meta["header"], opt=meta["opt"]))
            exes.append((meta, ms))
        built = build_many(specs)
        quirks, lines = probe_findings(prop, items, dict(zip(kinds, built)))
        exes = [(exe, meta, ms) for exe, (meta, ms) in zip(built[len(kinds):], exes)]
        build_s = time.monotonic() - t
        log("built", len(machines), "machines in", len(exes), "flavour(s): %.1f s" % build_s)
        nprof = len(P.profiles)
        base = (seed * 1000 + int(prop[1:])) * 10 ** 9
        # determinism: the same seeds in two sets of processes must give the same logs
        for i, (exe, meta, ms) in enumerate(exes):
            n = 12 if not thorough else 60
            prof = P.profiles[-1]
            _, f1 = batches(exe, base, n, 60, prof, quirks, work, "det1", True)
            if f1:
                raise report(prop, exe, f1[0], base, prof, quirks, ms, work, dict(meta, profile=prof))
            _, f2 = batches(exe, base, n, 60, prof, quirks, work, "det2", True)
            if f2:
                raise report(prop, exe, f2[0], base, prof, quirks, ms, work, dict(meta, profile=prof))
            for w in range(JOBS):
                h1, h2 = (open(os.path.join(work, "det%d-%d.json.hashes" % (k, w))).read() for k in (1, 2))
                if h1 != h2:
                    raise CheckError("the same seeds gave different logs")
                determinism += h1.count("\n")
            if i == 0:
                first_hashes = [open(os.path.join(work, "det1-%d.json.hashes" % w)).read() for w in range(JOBS)]
            elif (meta["header"], meta.get("notation")) != (exes[0][1]["header"], exes[0][1].get("notation")):
                for w in range(JOBS):
                    if open(os.path.join(work, "det1-%d.json.hashes" % w)).read() != first_hashes[w]:
                        raise CheckError("two flavours agree with the reference but not with each other")
        slot = sim_s / (nprof * len(exes))
        for i, (exe, meta, ms) in enumerate(exes):
            for j, prof in enumerate(P.profiles):
                # all flavours see the same seeds
                res, fails = batches(exe, base + 10 ** 6 + j * 10 ** 8, 10 ** 6 if thorough else P.per_worker, slot, prof, quirks, work, "b%d%d" % (i, j))
                runs += [(o, d, meta, prof) for o, d in res]
                if fails:
                    raise report(prop, exe, sorted(fails)[0], base + 10 ** 6 + j * 10 ** 8, prof, quirks, ms, work, dict(meta, profile=prof))
                log("flavour", meta, "profile", j, "runs", sum(d["runs"] for o, d in res))
    except Violation as v:
        violation = v
    except CompileFailure as c:
        errs = [x for x in c.output.split("\n") if "error:" in x]
        path = save_replay(prop, "compile", "", [c.machine], dict(property=prop, header=c.header, asan=0, opt="-O1", **{"class": "does-not-compile"}))
        violation = Violation("does-not-compile", "machine %s does not compile with %s\n%s" % (c.machine.name, HEADERS[c.header], "\n".join(errs[:5])), path)
    # evidence
    fired, probes, configs, edges = {}, {}, set(), set()
    logs, scheds = set(), set()
    tot = dict(runs=0, steps=0, callbacks=0, sim_time=0, tolerated=0)
    wall = 0.0
    samples = []
    for out, d, meta, prof in runs:
        for k in tot:
            tot[k] += d[k]
        wall = wall + d["wall"]
        for k, v in d["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
        configs.update(d["configs"])
        edges.update(d["edges"])
        samples += d["samples"][:1]
        for ext, s in ((".logs", logs), (".schedules", scheds)):
            b = open(out + ext, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    cover = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(logs),
        "rule": "one evaluation is one seeded simulation run: the reference model and the real machines execute the same history of messages, "
                "sensor changes, faults and scheduling decisions and are compared record by record. Distinct: different complete logs of the real "
                "machines (callbacks with arguments, results, exceptions, configurations); non-trivial: at least three callbacks ran.",
        "samples": samples[:4] or ["none"],
        "simulated_steps": tot["steps"],
        "user_callbacks_run": tot["callbacks"],
        "simulated_time_units": tot["sim_time"],
        "distinct_schedules": len(scheds),
        "distinct_configurations": len(configs),
        "distinct_configuration_edges": len(edges),
        "faults_injected": dict(sorted(fired.items())),
        "rare_conditions_reached": dict(sorted(probes.items())),
        "comparisons_given_up": tot["tolerated"],
        "runs_per_core_hour": int(tot["runs"] / wall * 3600) if wall else 0,
        "seeds_per_hour": int(tot["runs"] / wall * 3600 * JOBS) if wall else 0,
        "determinism_checked_seeds": determinism,
        "machines": [m.name for m in machines],
        "random_machines": nrand,
        "flavours": flavours,
        "profiles": P.profiles,
        "build_s": round(build_s, 1),
        "real_code": "hsm/%s of the working tree, instantiated for every machine" % ("hsm.h and hsm/gen/hsm.h" if prop == "C17" else "hsm.h"),
        "stubs": "user code (guards, actions, entries, exits, handlers, factories), the allocator, clients, network and scheduler are simulated",
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cover,
          "assumptions": P.assumptions, "wall_s": round(time.monotonic() - T0, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in lines:
        print(line)
    for f in os.listdir(work):
        if violation is None:
            os.unlink(os.path.join(work, f))
    if violation is None:
        os.rmdir(work)
    if violation:
        print("%s: %s\n%s" % (prop, violation.cls, violation.detail))
        print("VIOLATION property=%s replay=%s" % (prop, violation.path), flush=True)
        return 1
    log("held: %d runs, %d distinct" % (tot["runs"], len(logs)))
    return 0


def main_replay(path):
    meta, machines, body = load_replay(path)
    try:
        exe = build(machines, asan=meta.get("asan") == "1", header=meta.get("header", "tree"), opt=meta.get("opt", "-O1"))
    except CompileFailure as c:
        print("does not compile\n" + c.output[:3000])
        return 1
    if not body.strip():
        print("compiles")
        return 0
    quirks = int(meta.get("quirks", sum(QUIRKS.values())))
    cls, detail, h = replay(exe, path, quirks)
    r = sh([exe, "--replay", path, "--quirks", str(quirks), "--verbose"])
    print(r.stdout.decode(errors="replace"))
    if cls:
        print("reproduced: %s (log hash %s)\n%s" % (cls, h, detail))
        return 1
    print("real machines and reference agree (log hash %s)" % h)
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--selftest":
            for f in [CXX, "-fsanitize=address"]:
                if sh([CXX] + (["-fsanitize=address"] if f != CXX else []) + ["-x", "c++", "-", "-o", "/dev/null"], input=b"int main() {}").returncode:
                    raise CheckError("%s does not work" % f)
            load_machines(open(os.path.join(VERIF, "gen", "zoo.hm")).read())
            print("ok")
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(main_replay(sys.argv[2]))
        sys.exit(main_check(sys.argv[1]))
    except CheckError as e:
        print("CHECK-ERROR:", e, flush=True)
        sys.exit(3)
