"""Machine descriptions and their translation to C++ (against the library under test).

A machine is written as text, one row per line:

    machine NAME : tag tag ...
    deps N | handler | masktarget | log | notation post/prefix/tuple/N
    @ STATE [entry] [exit] [custom] [defer=e1,e2]
    guard g0=1                      (initial sensor value, default 1)
    effect a3 g0=0                  (action a3 sets sensor g0; -1: counts it down)
    NAME_OF_PARENT:                 (ROOT: or a composite state, or a leaf with internal rows)
      *A e0 [g0] / ! = B            (* initial; [guard]; / actions; = target)
      A - = C                       (- completion)
      exit(C,X) e1 = B ; direct(C,X) e1 = B
      A e1 = entry(C,X) ; direct(C,X) ; hist(C)
      A e1 / create = K ; A e1 / reuse = K
      + e2 [g1] / !                 (internal row)

'!' stands for a fresh action, names stand for shared actions; several make a chain.
"""
import random
import re
import hashlib

PLAIN, INITIAL, EXIT, DIRECT = 0, 1, 2, 3
T_PLAIN, T_ENTRY, T_DIRECT, T_HISTORY = 0, 1, 2, 3
NORMAL, CREATE, REUSE = 0, 1, 2


class Row:
    def __init__(s, **k):
        s.__dict__.update(k)


class Machine:
    def __init__(self, name):
        self.name = name
        self.tags = []
        self.ndeps = 0
        self.handler = False
        self.masktarget = False
        self.log = False
        self.values = None
        self.states = ["ROOT"]           # order = id
        self.entry, self.exit, self.custom = set(), set(), set()
        self.defers = {}
        self.rows = {"ROOT": []}         # parent -> [Row]
        self.irows = {}                  # state -> [Row]
        self.events, self.guards = [], []
        self.gdef = {}
        self.actions = []
        self.effects = []
        self.notation_seed = 0

    # -- helpers
    def st(self, n):
        if n not in self.states:
            self.states.append(n)
        return n

    def ev(self, n):
        if n != "-" and n not in self.events:
            self.events.append(n)
        return n

    def gd(self, n):
        if n and n not in self.guards:
            self.guards.append(n)
        return n

    def act(self, n):
        if n == "!":
            n = "x%d" % len(self.actions)
        if n not in self.actions:
            self.actions.append(n)
        return n

    def add(self, parent, text):
        text = text.strip()
        internal = text.startswith("+")
        if internal:
            text = text[1:].strip()
        m = re.match(r"^(.*?)(?:=\s*([^=\]]+))?$", text) if not internal else None
        tgt = None
        if not internal:
            left, tgt = text.rsplit("=", 1)
            tgt = tgt.strip()
        else:
            left = text
        left = left.strip()
        actions = []
        if "/" in left:
            left, a = left.split("/", 1)
            actions = a.split()
        guard = None
        g = re.search(r"\[(\w+)\]", left)
        if g:
            guard = g.group(1)
            left = left.replace(g.group(0), " ")
        parts = left.split()
        mode = NORMAL
        if actions in (["create"], ["reuse"]):
            mode = CREATE if actions == ["create"] else REUSE
            actions = ["!"]
        actions = [self.act(a) for a in actions]
        self.gd(guard)
        if internal:
            assert len(parts) == 1, text
            self.irows.setdefault(parent, []).append(
                Row(ev=self.ev(parts[0]), guard=guard, actions=actions))
            return
        assert len(parts) == 2, (self.name, text)
        src, ev = parts
        r = Row(ev=self.ev(ev), guard=guard, actions=actions, mode=mode)
        if src.startswith("*"):
            r.sk, r.src, r.sp = INITIAL, self.st(src[1:]), None
        elif src.startswith("exit(") or src.startswith("direct("):
            p, s = src[src.index("(") + 1:-1].split(",")
            r.sk, r.src, r.sp = (EXIT if src[0] == "e" else DIRECT), self.st(s), self.st(p)
        else:
            r.sk, r.src, r.sp = PLAIN, self.st(src), None
        if tgt.startswith("hist("):
            r.tk, r.tp, r.tgt = T_HISTORY, self.st(tgt[5:-1]), None
        elif tgt.startswith("entry(") or tgt.startswith("direct("):
            p, s = tgt[tgt.index("(") + 1:-1].split(",")
            r.tk, r.tgt, r.tp = (T_ENTRY if tgt[0] == "e" else T_DIRECT), self.st(s), self.st(p)
        else:
            r.tk, r.tgt, r.tp = T_PLAIN, self.st(tgt), None
        self.rows.setdefault(parent, []).append(r)

    # -- C++
    def parents(self):
        return [s for s in self.states if s in self.rows]

    def children(self, p):
        out = []
        for r in self.rows[p]:
            if r.sk in (PLAIN, INITIAL) and r.src not in out:
                out.append(r.src)
            if r.tk == T_PLAIN and r.tgt not in out:
                out.append(r.tgt)
        return out

    def pairs(self):
        """All (parent, state) configurations: leaf children, plus states named by pseudo states."""
        out = []
        for p in self.parents():
            for c in self.children(p):
                if c not in self.rows and (p, c) not in out:
                    out.append((p, c))
        for p in self.parents():
            for r in self.rows[p]:
                for k, par, s in ((r.sk in (EXIT, DIRECT), r.sp, r.src),
                                  (r.tk in (T_ENTRY, T_DIRECT), r.tp, r.tgt)):
                    if k and (par, s) not in out:
                        out.append((par, s))
        return out

    def content(self):
        return repr((self.name, self.tags, self.ndeps, self.handler, self.masktarget, self.log, self.values, self.states,
                     sorted(self.entry), sorted(self.exit), sorted(self.custom), sorted(self.defers.items()),
                     {p: [vars(r) for r in rs] for p, rs in self.rows.items()},
                     {p: [vars(r) for r in rs] for p, rs in self.irows.items()},
                     self.gdef, self.effects, self.notation_seed))

    def cpp(self):
        rng = random.Random(hashlib.sha256((self.name + str(self.notation_seed)).encode()).digest())
        style = self.notation_seed if self.notation_seed in ("post", "prefix", "tuple") else None
        o = []
        w = o.append
        sid = {s: i for i, s in enumerate(self.states)}
        eid = {e: i for i, e in enumerate(self.events)}
        gid = {g: i for i, g in enumerate(self.guards)}
        aid = {a: i for i, a in enumerate(self.actions)}
        eid["-"] = -1
        evs = [e for e in self.events]
        w('#include HSM_HEADER\n#include "sim.h"\n')
        w("namespace {\n")
        for e in evs:
            w("struct E_%s { static constexpr int sim_id = %d; sim::EvData d; E_%s() = default; explicit E_%s(sim::u64 p) : d(p) {} };"
              % (e, eid[e], e, e))
        for s in self.states:
            w("struct S_%s;" % s)
        # guards and actions: lambdas, function objects, or values of one type that differ in what they hold
        values = 0.85 if rng.random() < 0.4 else 0.15
        if self.values is not None:
            values = self.values
        for g in self.guards:
            if rng.random() < values:
                w(("constexpr auto g_%s = sim::guard_value(%d);" if rng.random() < (1 if self.values else 0.7) else "constexpr sim::GdV g_%s { %d };") % (g, gid[g]))
            elif rng.random() < 0.5:
                w("const auto g_%s = [](auto&& e, auto&& s, auto&& t, auto&&... d) { return sim::Gd<%d> {}(std::forward<decltype(e)>(e), s, t, d...); };" % (g, gid[g]))
            else:
                w("constexpr sim::Gd<%d> g_%s {};" % (gid[g], g))
        fact = {}
        for p in self.parents():
            for r in self.rows[p]:
                if r.mode == CREATE:
                    fact[r.actions[0]] = r.tgt
        for a in self.actions:
            if a in fact:
                w("constexpr sim::Factory<%d, S_%s> a_%s {};" % (aid[a], fact[a], a))
            elif rng.random() < values:
                w(("constexpr auto a_%s = sim::call_value(sim::K_ACTION, %d);" if rng.random() < (1 if self.values else 0.7)
                   else "constexpr sim::CbV a_%s { sim::K_ACTION, %d };") % (a, aid[a]))
            elif rng.random() < 0.5:
                w("const auto a_%s = [](auto&& e, auto&& s, auto&& t, auto&&... d) { sim::Cb<sim::K_ACTION, %d> {}(std::forward<decltype(e)>(e), s, t, d...); };" % (a, aid[a]))
            else:
                w("constexpr sim::Cb<sim::K_ACTION, %d> a_%s {};" % (aid[a], a))
        w("")

        # hsm::log among the actions of a row
        logat = {}
        lrng = random.Random(hashlib.sha256(("log " + self.name).encode()).digest())     # not by notation
        if self.log and not self.custom:
            for p in self.rows:
                for r in self.rows[p] + self.irows.get(p, []):
                    if lrng.random() < 0.7:
                        logat[id(r)] = lrng.randrange(len(r.actions) + 1)
            for p in self.irows:
                for r in self.irows[p]:
                    if p not in self.rows and lrng.random() < 0.7:
                        logat[id(r)] = lrng.randrange(len(r.actions) + 1)

        def action_ids(r):
            ids = [aid[a] for a in r.actions]
            if id(r) in logat:
                ids.insert(logat[id(r)], 30000)
            return ids

        def action_expr(r, internal=False):
            acts = ["a_" + a for a in r.actions]
            if not internal and getattr(r, "mode", 0) == CREATE:
                return "hsm::create_state(%s)" % acts[0]
            if not internal and getattr(r, "mode", 0) == REUSE:
                return "hsm::reuse_state(%s)" % acts[0]
            if id(r) in logat:
                acts.insert(logat[id(r)], "hsm::log")
            if not acts:
                return None
            if len(acts) == 1:
                return acts[0]
            return "%s(%s)" % (rng.choice(["hsm::chain_actions", "hsm::chain"]), ", ".join(acts))

        def src_expr(r, dsl=True):
            if r.sk == INITIAL:
                if dsl and style == "post":
                    return ("* hsm::state<S_%s>" if r.ev != "-" else "(* hsm::state<S_%s>)") % r.src
                if dsl and style != "prefix":
                    return rng.choice(["* hsm::state<S_%s>" if r.ev != "-" else "(* hsm::state<S_%s>)", "hsm::initial<S_%s>"]) % r.src
                return "hsm::initial<S_%s>" % r.src
            if r.sk == EXIT:
                return "hsm::exit<S_%s, S_%s>" % (r.sp, r.src)
            if r.sk == DIRECT:
                return "hsm::direct<S_%s, S_%s>" % (r.sp, r.src)
            return "hsm::state<S_%s>" % r.src

        def tgt_expr(r):
            if r.tk == T_ENTRY:
                return "hsm::entry<S_%s, S_%s>" % (r.tp, r.tgt)
            if r.tk == T_DIRECT:
                return "hsm::direct<S_%s, S_%s>" % (r.tp, r.tgt)
            if r.tk == T_HISTORY:
                return "hsm::history<S_%s>" % r.tp
            return "hsm::state<S_%s>" % r.tgt

        def row_expr(r):
            a = action_expr(r)
            forms = ["post", "tuple"]
            if r.ev != "-":
                forms = ["post", "post", "prefix", "tuple"]
            elif not r.guard and not a and r.sk == PLAIN:
                forms = ["post", "prefix", "tuple"]
            f = style if style in forms else rng.choice(forms) if not style else "post"
            if f == "tuple":
                if r.ev == "-":
                    e = "hsm::none {}"
                else:
                    e = "hsm::event<E_%s>" % r.ev
                return "hsm::transition(%s, %s, %s, %s, %s)" % (
                    src_expr(r, False), e, "g_" + r.guard if r.guard else "hsm::noGuard {}",
                    a or "hsm::noAction {}", tgt_expr(r))
            x = src_expr(r)
            if r.ev != "-":
                x += " + hsm::event<E_%s>" % r.ev
            if r.guard:
                x += " [g_%s]" % r.guard
            if a:
                x += " / " + a
            if f == "prefix":
                return "%s <= %s" % (tgt_expr(r), x)
            return "%s = %s" % (x, tgt_expr(r))

        def irow_expr(r):
            a = action_expr(r, True)
            if (style == "tuple") if style else rng.random() < 0.3:
                return "hsm::internal_transition(hsm::event<E_%s>, %s, %s)" % (
                    r.ev, "g_" + r.guard if r.guard else "hsm::noGuard {}", a or "hsm::noAction {}")
            x = "hsm::event<E_%s>" % r.ev
            if r.guard:
                x += " [g_%s]" % r.guard
            if a:
                x += " / " + a
            return "+ (%s)" % x

        def member(s):
            i = sid[s]
            if s in self.custom:
                w("    explicit S_%s(sim::u64 v) : d(%d, v) {}" % (s, i))
                w("    sim::Data d;")
            else:
                w("    sim::Data d { %d };" % i)
            for kind, st, fn in (("K_ENTRY", self.entry, "on_entry"), ("K_EXIT", self.exit, "on_exit")):
                if s in st:
                    if rng.random() < values:
                        w("    static constexpr auto %s() { return sim::call_value(sim::%s, %d); }" % (fn, kind, i))
                    elif rng.random() < 0.5:
                        w("    static constexpr auto %s() { return sim::Cb<sim::%s, %d> {}; }" % (fn, kind, i))
                    else:
                        w("    static constexpr auto %s() { return [](auto&& e, auto&& s, auto&& t, auto&&... d) { sim::Cb<sim::%s, %d> {}(std::forward<decltype(e)>(e), s, t, d...); }; }" % (fn, kind, i))
            if s in self.defers:
                w("    static constexpr auto defer_events() { return hsm::events<%s>; }" % ", ".join("E_" + e for e in self.defers[s]))
            if s in self.rows:
                w("    static constexpr auto make_transition_table()\n    {\n        return hsm::transition_table(")
                w(",\n".join("            " + row_expr(r) for r in self.rows[s]))
                w("        );\n    }")
            if s in self.irows:
                w("    static constexpr auto make_internal_transition_table()\n    {\n        return hsm::transition_table(")
                w(",\n".join("            " + irow_expr(r) for r in self.irows[s]))
                w("        );\n    }")
            if s == "ROOT" and self.handler:
                w("    static constexpr auto on_unexpected_event() { return sim::Handler {}; }")

        # leaves first, then composites inside out, the root last
        order = [s for s in self.states if s not in self.rows]
        rest = [s for s in self.states if s in self.rows]

        def depth(p):
            return 1 + max([depth(c) for c in self.inner(p)] or [0])
        for s in order + sorted(rest, key=depth):
            w("struct S_%s {" % s)
            member(s)
            w("};")
        deps = ["sim::Dep" + x for x in "ABCDEF"][:self.ndeps]
        if rng.random() < 0.4:      # several dependencies of one type, references to a base class
            deps = [rng.choice([t, "sim::Dep", "sim::Dep"]) for t in deps]
        dargs = ", ".join(["d." + x for x in "abcdef"][:self.ndeps])
        w("using SM = hsm::sm<%s>;" % ", ".join(["S_ROOT"] + deps))
        w("struct Adapter final : sim::IMachine {")
        w("    SM m;")
        w("    explicit Adapter(sim::DepSet& d) : m(%s) { (void)d; }" % dargs)
        w("    explicit Adapter(SM&& o) : m(std::move(o)) {}")
        w("""    template <class E> bool sendT(sim::u64 p, bool lvalue)
    {
        if (lvalue) {
            E e(p);
            bool r = false;
            {
                sim::LibScope scope;
                r = m.process_event(e);
            }
            sim::payload_check(p, e.d.payload);
            return r;
        }
        sim::LibScope scope;
        return m.process_event(E(p));
    }""")
        w("    bool send(int ev, sim::u64 p, bool lvalue) override\n    {\n        switch (ev) {")
        for e in evs:
            w("        case %d: return sendT<E_%s>(p, lvalue);" % (eid[e], e))
        w("        }\n        return false;\n    }")
        pairs = self.pairs()
        w("    bool in(std::uint8_t reg, int pair)\n    {\n        switch (pair) {")
        for i, (p, s) in enumerate(pairs):
            w("        case %d: return m.is(reg, hsm::state<S_%s>, hsm::state<S_%s>);" % (i, p, s))
        w("        }\n        return false;\n    }")
        w("""    int config(int region, int hint) override
    {
        const auto reg = static_cast<std::uint8_t>(region);
        sim::LibScope scope;
        if (hint >= 0 && in(reg, hint)) return hint;
        int found = -1;
        for (int i = 0; i < %d; ++i)
            if (in(reg, i)) found = found == -1 ? i : -2;
        return found;
    }""" % len(pairs))
        w("    sim::u64 is_mask() override\n    {\n        sim::u64 r = 0;\n        sim::LibScope scope;")
        for s in self.states:
            w("        if (m.is(hsm::state<S_%s>)) r |= sim::u64(1) << %d;" % (s, sid[s] % 64))
        w("        return r;\n    }")
        w("    sim::u64 is2_mask() override\n    {\n        sim::u64 r = 0;\n        sim::LibScope scope;")
        for i, (p, s) in enumerate(pairs):
            w("        if (m.is(hsm::state<S_%s>, hsm::state<S_%s>)) r |= sim::u64(1) << %d;" % (p, s, i % 64))
        w("        return r;\n    }")
        w("    sim::u64 parent_mask() override\n    {\n        sim::u64 r = 0;\n        sim::LibScope scope;")
        for s in self.parents():
            w("        if (m.parent_is(hsm::state<S_%s>)) r |= sim::u64(1) << %d;" % (s, sid[s] % 64))
        w("        return r;\n    }")
        w("    std::string status() override { sim::LibScope scope; return m.status(); }")
        w("    void set(int region, int pair, int form) override\n    {\n        const auto reg = static_cast<std::uint8_t>(region);\n        (void)form;\n        sim::LibScope scope;\n        switch (pair) {")
        for i, (p, s) in enumerate(pairs):
            w("        case %d:" % i)
            if p == "ROOT":
                w("            if (region == 0 && form == 2) return m.set(hsm::state<S_%s>);" % s)
            w("            if (region == 0 && form >= 1) return m.set(hsm::state<S_%s>, hsm::state<S_%s>);" % (p, s))
            w("            return m.set(reg, hsm::state<S_%s>, hsm::state<S_%s>);" % (p, s))
        w("        }\n    }")
        w("    void set_dependency(sim::DepSet& d) override { sim::LibScope scope; (void)d; m.set_dependency(%s); }" % dargs)
        w("    sim::IMachine* move_out() override { sim::LibScope scope; (void)m.status(); return new Adapter(std::move(m)); }")
        w("""    bool move_into(sim::IMachine& target) override
    {
        if constexpr (std::is_move_assignable_v<SM>) {
            sim::LibScope scope;
            static_cast<Adapter&>(target).m = std::move(m);
            return true;
        } else {
            (void)target;
            return false;
        }
    }
};""")
        # the specification for the reference model
        def ilist(x):
            return "{ " + ", ".join(str(i) for i in x) + " }"
        w("const sim::Spec* spec()\n{\n    static const sim::Spec s = [] {\n        sim::Spec s;")
        w('        s.name = "%s";' % self.name)
        w("        s.tags = { %s };" % ", ".join('"%s"' % t for t in self.tags))
        for s in self.states:
            w('        s.states.push_back({ "%s", %d, %d, %d, %d, %s, {}, {} });' % (
                s, s in self.rows, s in self.entry, s in self.exit, s in self.custom,
                ilist(eid[e] for e in self.defers.get(s, []))))
            for r in self.rows.get(s, []):
                w("        s.states.back().rows.push_back({ %d, %d, %d, %d, %d, %s, %d, %d, %d, %d });" % (
                    r.sk, sid[r.src], sid.get(r.sp, -1), eid[r.ev], gid.get(r.guard, -1), ilist(action_ids(r)),
                    r.tk, sid.get(r.tgt, -1), sid.get(r.tp, -1), r.mode))
            for r in self.irows.get(s, []):
                w("        s.states.back().irows.push_back({ %d, %d, %s });" % (eid[r.ev], gid.get(r.guard, -1), ilist(action_ids(r))))
        w("        s.events = { %s };" % ", ".join('"%s"' % e for e in evs))
        if logat:
            for st in self.states:
                w("        s.stateTypes.push_back(sim::type_text<S_%s>());" % st)
            for e in evs:
                w("        s.eventTypes.push_back(sim::type_text<E_%s>());" % e)
            w("        s.eventTypes.push_back(sim::type_text<hsm::noneEvent>());")
        w("        s.guards = { %s };" % ", ".join('"%s"' % g for g in self.guards))
        w("        s.guardDefault = %s;" % ilist(self.gdef.get(g, 1) for g in self.guards))
        w("        s.nactions = %d;" % len(self.actions))
        w("        s.effects = { %s };" % ", ".join("{ %d, %d, %d }" % (aid[a], gid[g], v) for a, g, v in self.effects))
        w("        s.ndeps = %d; s.handler = %d; s.maskTarget = %d;" % (self.ndeps, self.handler, self.masktarget))
        w("        s.reuseActions = %s;" % ilist(sorted({a for st in self.states for r in self.rows.get(st, []) if r.mode == 2 for a in action_ids(r)})))
        w("        s.pairs = { %s };" % ", ".join("{ %d, %d }" % (sid[p], sid[s]) for p, s in pairs))
        w("        return s;\n    }();\n    return &s;\n}")
        w("sim::IMachine* create(sim::DepSet& d)\n{\n    sim::LibScope scope;\n    return new Adapter(d);\n}")
        w("const sim::Registrar registrar { { &spec, &create } };")
        w("}")
        return "\n".join(o) + "\n"

    def inner(self, p):
        out = []
        for r in self.rows[p]:
            c = r.tp if r.tk != T_PLAIN else r.tgt
            if c in self.rows and c not in out and c != p:
                out.append(c)
        return out


def parse(text):
    out = []
    m = None
    parent = None
    for line in text.split("\n"):
        line = line.split("#")[0].rstrip()
        if not line.strip():
            continue
        t = line.strip()
        if t.startswith("machine "):
            name, tags = (t[8:].split(":") + [""])[:2]
            m = Machine(name.strip())
            m.tags = tags.split()
            out.append(m)
            parent = None
        elif t.startswith("deps "):
            m.ndeps = int(t.split()[1])
        elif t == "handler":
            m.handler = True
        elif t.startswith("notation "):
            m.notation_seed = t.split()[1]
        elif t == "masktarget":
            m.masktarget = True
        elif t == "values":
            m.values = 1.0
        elif t == "log":
            m.log = True
        elif t.startswith("@"):
            p = t[1:].split()
            s = m.st(p[0])
            for a in p[1:]:
                if a == "entry":
                    m.entry.add(s)
                elif a == "exit":
                    m.exit.add(s)
                elif a == "custom":
                    m.custom.add(s)
                elif a.startswith("defer="):
                    m.defers[s] = a[6:].split(",")
                else:
                    raise ValueError(t)
        elif t.startswith("guard "):
            g, v = t[6:].split("=")
            m.gd(g)
            m.gdef[g] = int(v)
        elif t.startswith("effect "):
            a, x = t[7:].split()
            g, v = x.split("=")
            m.effects.append((m.act(a), m.gd(g), int(v)))
        elif t.endswith(":") and " " not in t:
            parent = m.st(t[:-1])
        else:
            m.add(parent, t)
    for m in out:
        for s in m.defers:
            for e in m.defers[s]:
                assert e in m.events, (m.name, s, e)
        if m.log:
            m.tags.append("log")
    return out
