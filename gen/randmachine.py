"""Random machine descriptions. Features of a machine are drawn per machine (swarm).

The generator keeps to machines whose meaning is beyond doubt: rows of a state's own table and rows of
exit/direct sources use disjoint events, completion loops are closed by actions that shut their guards,
and composite states are each listed in one table.
"""
import re


def make(name, rng, pool, max_rows=14):
    """A machine of bounded size: compile time and run time grow quickly with the number of rows."""
    while True:
        text = make_any(name, rng, pool)
        if sum(1 for line in text.split("\n") if line.startswith("  ")) <= max_rows:
            return text


def make_any(name, rng, pool):
    feats = set(f for f in pool if rng.random() < 0.65) or {pool[0]}
    ndeps = rng.randrange(4) if "deps" not in feats else rng.randrange(1, 4)
    nev = rng.randrange(3, 6)
    events = ["e%d" % i for i in range(nev)]
    guards = ["g%d" % i for i in range(rng.randrange(1, 4))]
    out = []
    effects = []
    oneshot = [0]
    hist = "history" in feats
    regions = rng.randrange(2, 4) if "regions" in feats else 1
    deep = 0
    if "hier" in feats or "pseudo" in feats or hist:
        deep = 1 if regions > 1 or rng.random() < 0.6 else 2

    comps = {}          # composite -> list of leaves
    letters = list("ABCDEFGHIJKLMNOP")
    used = []

    def leaf(shared):
        if shared and used and rng.random() < 0.35:
            return rng.choice(used)
        s = letters.pop(0)
        used.append(s)
        return s

    tables = {}         # parent -> dict(groups=[[children]], comps=[...])

    def composite(level):
        n = "C%d" % len(comps)
        comps[n] = True
        kids = []
        for _ in range(rng.randrange(2, 4)):
            x = leaf("shared" in feats or rng.random() < 0.2)
            if x not in kids:
                kids.append(x)
        tables[n] = dict(groups=[kids], comps=[])
        if level < deep and rng.random() < 0.7:
            tables[n]["comps"].append(composite(level + 1))
        return n

    groups = []
    for r in range(regions):
        groups.append([leaf(False) for _ in range(rng.randrange(2, 4) if regions == 1 else 2)])
    tables["ROOT"] = dict(groups=groups, comps=[])
    order = ["ROOT"]
    if deep:
        for _ in range(rng.randrange(1, 3) if regions == 1 else 1):
            tables["ROOT"]["comps"].append(composite(1))

    def row(parent, src, tgts, evs, star=False, anon_ok=True):
        ev = rng.choice(evs)
        act = []
        g = rng.choice(guards) if rng.random() < 0.4 else None
        if "anon" in feats and anon_ok and rng.random() < 0.3:
            ev = "-"
            g = "o%d" % oneshot[0]
            a = "shut%d" % oneshot[0]
            effects.append((a, g))
            oneshot[0] += 1
            act.append(a)
        if rng.random() < 0.75:
            act.append("!")
        if rng.random() < 0.15:
            act.append("!")
        return "  %s%s %s%s%s = %s" % ("*" if star else "", src, ev, " [%s]" % g if g else "",
                                      " / " + " ".join(act) if act else "", rng.choice(tgts))

    def targets(parent, group, withcomps):
        t = list(group)
        if withcomps:
            for c in tables[parent]["comps"]:
                t += [c, c]
                kids = tables[c]["groups"][0]
                if "pseudo" in feats:
                    t.append("%s(%s,%s)" % (rng.choice(["entry", "direct"]), c, rng.choice(kids)))
                if hist:
                    t += ["hist(%s)" % c]
        return t

    internal = {}

    def table(parent):
        T = tables[parent]
        rows = []
        for gi, group in enumerate(T["groups"]):
            # composite states belong to one region
            comps_here = T["comps"] if gi == 0 else []
            tg = targets(parent, group, bool(comps_here))
            for k, s in enumerate(group):
                n = rng.randrange(1, 4) if parent == "ROOT" else rng.randrange(0 if k else 1, 3)
                for j in range(n):
                    if k == 0 and j == 0:
                        rows.append(row(parent, s, tg, events, True, anon_ok=True))
                    else:
                        rows.append(row(parent, s, tg, events))
            for s in group[1:]:
                if not any(re.search(r"\b%s\b" % s, r) for r in rows):
                    rows.append(row(parent, group[0], [s], events))
            for c in comps_here:
                if ("pseudo" in feats or hist) and rng.random() < 0.25:
                    # entered by pseudo states only
                    kids = tables[c]["groups"][0]
                    way = ["entry(%s,%s)" % (c, kids[-1])] * ("pseudo" in feats) + ["hist(%s)" % c] * hist
                    rows = [re.sub(r"= %s$" % c, "= " + group[-1], r) if "*" in r else r for r in rows]
                    rows = [r for r in rows if not re.search(r"= %s$" % c, r)]
                    rows += [row(parent, s, group, events, s == group[0]) for s in group
                             if not any(re.match(r"  \*?%s " % s, r) for r in rows)]
                    rows.append(row(parent, group[0], way, events, anon_ok=False))
                    for k in kids:
                        if rng.random() < 0.6:
                            rows.append(row(parent, "exit(%s,%s)" % (c, k), tg if rng.random() < 0.4 else group, ["x0", "x1"], anon_ok=False))
                    continue
                # somewhere a plain way in, so that the composite state is a state of this table
                rows.append(row(parent, group[0], [c], events, anon_ok=False))
                few = rng.sample(events, 1) if rng.random() < 0.5 else events      # often: rows that compete
                for _ in range(rng.randrange(1, 4)):
                    rows.append(row(parent, c, [x for x in tg if "(" not in x or rng.random() < 0.4] or group, few))
                if "pseudo" in feats:
                    kids = tables[c]["groups"][0]
                    for _ in range(rng.randrange(1, 3)):
                        rows.append(row(parent, "%s(%s,%s)" % (rng.choice(["exit", "direct"]), c, rng.choice(kids)), tg if rng.random() < 0.4 else group, ["x0", "x1"], anon_ok=False))
        # initial rows first keeps region order readable; the order of the others is random
        first = [r for r in rows if r.strip().startswith("*")]
        rest = [r for r in rows if not r.strip().startswith("*")]
        rng.shuffle(rest)
        k = rng.randrange(len(rest) + 1) if regions == 1 or parent != "ROOT" else 0
        rows = rest[:k] + first + rest[k:]
        if "internal" in feats and rng.random() < 0.8:
            for _ in range(rng.randrange(1, 3)):
                rows.append("  + %s%s / %s" % (rng.choice(events + ["i0"]), " [%s]" % rng.choice(guards) if rng.random() < 0.5 else "",
                                               " ".join(["!"] * rng.randrange(1, 3))))
        out.append("%s:" % parent)
        out.extend(rows)
        for c in T["comps"]:
            table(c)

    table("ROOT")
    if "internal" in feats:
        cand = [s for s in used if s not in [g[0] for g in groups]]
        for s in rng.sample(cand, min(len(cand), 1)):
            if rng.random() < 0.7:
                out.append("%s:" % s)
                out.append("  + %s%s / !" % (rng.choice(events + ["i0"]), " [%s]" % rng.choice(guards) if rng.random() < 0.5 else ""))
    text = "\n".join(out)
    customs = []
    if "custom" in feats:
        ndeps = 0
        for g in groups[:2]:
            k = g[-1]
            into = [line for line in text.split("\n") if line.endswith("= " + k)]
            if used.count(k) != 1 or sum(k in t["groups"][i] for t in tables.values() for i in range(len(t["groups"]))) != 1:
                continue
            if not into or any("* %s" % k in line or " *%s " % k in line or re.match(r"  \*?\S+ - ", line) for line in into):
                continue
            if re.search(r"(?m)^  \*%s " % k, text):
                continue
            customs.append(k)
            lines = []
            for line in text.split("\n"):
                if line.endswith("= " + k):
                    line = re.sub(r" /[^=]*=", " =", line).replace("= " + k, "/ create = " + k)
                lines.append(line)
            if rng.random() < 0.6:      # a state that only K leads to: there is an object to reuse
                r = letters.pop(0)
                used.append(r)
                i = max(j for j, line in enumerate(lines) if line.endswith("= " + k))
                e1, e2, e3 = (rng.choice(events) for _ in range(3))
                lines[i + 1:i + 1] = ["  %s %s / ! = %s" % (k, e1, r), "  %s %s / reuse = %s" % (r, e2, k), "  %s %s%s / ! = %s" % (r, e3, " [%s]" % rng.choice(guards), g[0])]
            text = "\n".join(lines)
            if rng.random() < 0.6:
                break
    head = ["machine %s : random %s" % (name, " ".join(sorted(feats)))]
    if ndeps:
        head.append("deps %d" % ndeps)
    if rng.random() < 0.6 or "handler" in feats:
        head.append("handler")
    if hist:
        head.append("masktarget")
    if "log" in pool or rng.random() < 0.15:
        head.append("log")
    if rng.random() < 0.3:
        head.append("values")
    present = [e for e in events if (" %s " % e) in text.replace("[", " [")]
    decl = []
    for s in used:
        o = []
        if rng.random() < 0.5:
            o.append("entry")
        if rng.random() < 0.5:
            o.append("exit")
        if s in customs:
            o.append("custom")
        if "defer" in feats and rng.random() < 0.45 and present:
            o.append("defer=" + ",".join(sorted(rng.sample(present, rng.randrange(1, min(3, len(present)) + 1)))))
        if o:
            decl.append("@ %s %s" % (s, " ".join(o)))
    for c in comps:
        o = [x for x in ("entry", "exit") if rng.random() < 0.5]
        if o:
            decl.append("@ %s %s" % (c, " ".join(o)))
    tail = ["effect %s %s=0" % e for e in effects]
    return "\n".join(head + decl + [text] + tail) + "\n"
