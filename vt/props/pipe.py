"""P14 pipelines: what they compute, stage by stage. P15: which pipelines are accepted."""
import itertools
import random
import z3
from ..check import Case, Comb, Seq, Verdict, Ob, Violation, in_val, out_val, OUT
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst
from ..sym import bv, ext

TRUE = z3.BoolVal(True)


class Pipe:
    """ins [(name, type, value)], depth, otype and out (value), states [(label, type, var, next)]; all
    values are over the variables of the inputs and the states. The output shows every state."""

    def __init__(self, name, ins, depth, otype, out, states, extra_in=()):
        self.name, self.ins, self.depth, self.otype, self.out, self.states = name, ins, depth, otype, out, states

    def instance(self, args):
        """(output value, states) with fresh states and the inputs replaced"""
        pairs = []
        for (_, _, v), a in zip(self.ins, args):
            pairs += list(zip(leaves(v), leaves(a)))
        new = [fresh(t) for _, t, _, _ in self.states]
        for (_, _, v, _), n in zip(self.states, new):
            pairs += list(zip(leaves(v), leaves(n)))
        return subst(self.out, pairs), [(l, t, n, subst(x, pairs)) for (l, t, _, x), n in zip(self.states, new)]


def pipeline(g, depth, subs, exprdepth=2, enables=True):
    """adds a pipeline unit to g.items and returns its Pipe"""
    r = g.r
    name = g.name("p")
    ins = [(n, g.small_type(1)) for n in ("ia", "ib", "ic")[: r.randint(1, 3)]] + [("en", Bool), ("rst", Bool)]
    pv = [fresh(t) for _, t in ins]
    # per stage: text, and the values visible there: name -> Ex
    text = [[] for _ in range(depth + 1)]
    # known[k]: names usable in stage k
    vis = [dict() for _ in range(depth + 1)]
    states = []  # [label, ty, var, next or thunk, reveal text]
    labels = {}
    for k in range(depth + 1):
        if r.random() < 0.3:
            labels[k] = f"st{k}"
    has_cond = [enables and r.random() < 0.4 for _ in range(depth)]
    last_cond = max([i for i, c in enumerate(has_cond) if c], default=-1)
    # the state of the pipeline registers: (k, name) -> placeholder; next values filled in later
    pending = []

    def ref(k, j, n):
        """text that means n in stage j, written in stage k"""
        if j == k and r.random() < 0.8:
            return n
        if j in labels and r.random() < 0.5:
            return f"stage({labels[j]}).{n}"
        d = j - k
        return f"stage({'+' if d >= 0 else '-'}{abs(d)}).{n}"

    def define(n, t, k, v):
        """n is a value of stage k, and in registers after that"""
        vis[k][n] = (t, v)
        prev = v
        for j in range(k + 1, depth + 1):
            s = fresh(t)
            pending.append((n, t, j, s, prev))
            vis[j][n] = (t, s)
            prev = s

    fw = []

    def scope(k):
        sc = []
        for j in range(depth + 1):
            for n, (t, v) in vis[j].items():
                if j == k:
                    sc.append((n, Ex(t, n, v)))
                elif j < k and r.random() < 0.25:
                    s = ref(k, j, n)
                    sc.append((s, Ex(t, s, v)))
                elif j > k and r.random() < 0.25 and (j, n) in statevars():
                    s = ref(k, j, n)
                    sc.append((s, Ex(t, s, v)))
        r.shuffle(sc)
        return sc

    def statevars():
        return {(j, n) for n, _, j, _, _ in pending}

    for (n, t), v in zip(ins, pv):
        define(n, t, 0, v)
    # a value of a later stage, computed from registers, used in earlier stages
    if depth and r.random() < 0.4:
        k = r.randint(1, depth)
        t = g.small_type(1)
        sc = [(n, Ex(tt, n, v)) for n, (tt, v) in vis[k].items()]
        e = g.expr(t, 1, sc)
        n = g.name("fw")
        text[k].append(f"let {n}: {t.src} = {e.s};")
        fw.append((k, n, t, e.v))
        late = [(k, n, t, e.v)]
    else:
        late = []
    conds = [None] * depth
    valid = [None] * (depth + 1)
    ready = [None] * (depth + 1)
    if last_cond >= 0:
        for i in range(1, depth + 1):
            valid[i] = fresh(Bool)
        for i in range(0, last_cond + 1):
            ready[i] = fresh(Bool)
    arrivals = {}
    reveals = []
    for k in range(depth + 1):
        for n, t, v in arrivals.get(k, []):
            define(n, t, k, v)
        for kk, n, t, v in late:
            if kk == k:
                define(n, t, k, v)
                fw.clear()
        if k in labels:
            text[k].insert(0, "'" + labels[k])
        # stage.valid is always shown; stage.ready sometimes
        if last_cond >= 0 and (valid[k] is not None or r.random() < 0.2):
            n = f"vld{k}"
            text[k].append(f"let {n} = stage.valid;")
            define(n, Bool, k, valid[k] if valid[k] is not None else bv(1, 1))
            if valid[k] is not None:
                reveals.append((f"valid{k}", Bool, valid[k], (k, n)))
        if last_cond >= 0 and r.random() < 0.5:
            n = f"rdy{k}"
            text[k].append(f"let {n} = stage.ready;")
            define(n, Bool, k, ready[k] if ready[k] is not None else bv(1, 1))
        for j, n, t, v in fw:
            # names of later stages have no type until they are defined
            if j > k and r.random() < 0.7:
                text[k].append(f"let use{k}{n}: {t.src} = {ref(k, j, n)};")
                define(f"use{k}{n}", t, k, v)
        for _ in range(r.choice([0, 1, 1, 2])):
            kind = r.random()
            sc = scope(k)
            n = g.name("v")
            if kind < 0.25 and subs and any(p.depth <= depth - k for p in subs):
                p = r.choice([p for p in subs if p.depth <= depth - k])
                args = [g.expr(t, 1, sc) for _, t, _ in p.ins]
                out, sts = p.instance([a.v for a in args])
                names = r.random() < 0.4
                at = ", ".join(["clk"] + [a.s for a in args]) if not names else None
                if names:
                    ps = [("clk", "clk")] + [(m, a.s) for (m, _, _), a in zip(p.ins, args)]
                    r.shuffle(ps)
                    call = f"inst({p.depth}) {p.name}$({', '.join(m if m == a else f'{m}: {a}' for m, a in ps)})"
                else:
                    call = f"inst({p.depth}) {p.name}({at})"
                text[k].append(f"let {n}: {p.otype.src} = {call};")
                if p.depth == 0:
                    define(n, p.otype, k, out)
                else:
                    arrivals.setdefault(k + p.depth, []).append((n, p.otype, out))
                for i, (l, t, v, x) in enumerate(sts):
                    states.append((f"{n}.{l}", t, v, x, (k + p.depth, f"{n}.{1 + i // 6}.{i % 6}")))
            elif kind < 0.4:
                t = g.small_type(1)
                e = g.expr(t, exprdepth, sc)
                v = fresh(t)
                nxt = e.v
                rs = ""
                if r.random() < 0.6:
                    val = g.literal(t) if isinstance(t, Scalar) else g.construct(t, 1, [])
                    trig = r.choice([x for m, x in sc if m == "rst"] or [Ex(Bool, "true", bv(1, 1))])
                    rs = f" reset({trig.s}: {val.s})"
                    nxt = t.ite(is1(trig.v), val.v, nxt)
                text[k].append(f"reg(clk) {n}: {t.src}{rs} = {e.s};")
                states.append((n, t, v, nxt, (k, n)))
                define(n, t, k, v)
            else:
                t = g.small_type(1)
                e = g.expr(t, exprdepth, sc)
                ann = f": {t.src}" if "stage(" in e.s or r.random() < 0.4 else ""
                text[k].append(f"let {n}{ann} = {e.s};")
                define(n, t, k, e.v)
        if k < depth and has_cond[k]:
            c = g.expr(Bool, 1, scope(k)) if r.random() < 0.6 else Ex(Bool, "en", vis[k]["en"][1])
            rv = [x for x in ready if x is not None]
            if any(x.eq(y) for x in allvars(c.v) for y in rv) or "rdy" in c.s:
                c = Ex(Bool, "en", vis[k]["en"][1])
            conds[k] = c.v
            text[k].append(f"reg[{c.s}];")
        elif k < depth:
            text[k].append("reg;")
    res_t = g.small_type(1)
    res = g.expr(res_t, exprdepth, scope(depth))
    # enables
    enable = [None] * (depth + 1)
    for i in range(depth - 1, -1, -1):
        down = enable[i + 1]
        if conds[i] is None:
            enable[i] = down
        else:
            enable[i] = conds[i] if down is None else conds[i] & down
    for n, t, j, s, prev in pending:
        en = enable[j - 1]
        states.append((f"{n}@{j}", t, s, prev if en is None else t.ite(is1(en), prev, s), (j, n)))
    for label, t, v, rev in reveals:
        i = int(label[5:]) - 1
        prev = valid[i] if valid[i] is not None else bv(1, 1)
        x = v if enable[i] is None else z3.If(is1(enable[i]), prev, v)
        x = prev if enable[i] is None else x
        if conds[i] is not None:
            down = enable[i + 1] if enable[i + 1] is not None else bv(1, 1)
            x = z3.If(z3.And(z3.Not(is1(conds[i])), is1(down)), bv(0, 1), x)
        states.append((label, t, v, x, rev))
    # stage.ready stands for the enable of the following registers
    pairs = [(ready[i], enable[i]) for i in range(last_cond + 1)]
    states = [(l, t, v, subst(x, pairs), rev) for l, t, v, x, rev in states if t.w]
    out = subst(res.v, pairs)
    # show all states in the last stage
    show = []
    for l, t, v, x, (j, n) in states:
        base = n.split(".")[0]
        d = j - depth
        s = base if d == 0 else f"stage(-{-d}).{base}"
        show.append((s + n[len(base):], t, v))
    groups = [show[i : i + 6] for i in range(0, len(show), 6)]
    ot, ov, os_ = [res_t], [out], [res.s]
    for gr in groups:
        gt = Tuple(*[t for _, t, _ in gr], Bool)
        ot.append(gt)
        ov.append([v for _, _, v in gr] + [bv(0, 1)])
        os_.append("(" + ", ".join(s for s, _, _ in gr) + ", false)")
    if len(ot) == 1:
        ot.append(Bool)
        ov.append(bv(0, 1))
        os_.append("false")
    O = Tuple(*ot)
    lines = [x for st in text for x in st]
    # consecutive plain regs may be written with a count
    out_lines, i = [], 0
    while i < len(lines):
        if lines[i] == "reg;" and i + 1 < len(lines) and lines[i + 1] == "reg;":
            m = i
            while m < len(lines) and lines[m] == "reg;":
                m += 1
            out_lines.append(f"reg*{m - i};")
            i = m
        else:
            out_lines.append(lines[i])
            i += 1
    sig = ", ".join(["clk: clock"] + [f"{n}: {t.src}" for n, t in ins])
    body = "\n    ".join(out_lines + [f"({', '.join(os_)})"])
    g.items.append(f"pipeline({depth}) {name}({sig}) -> {O.src} {{\n    {body}\n}}")
    return Pipe(name, [(n, t, v) for (n, t), v in zip(ins, pv)], depth, O, ov, [(l, t, v, x) for l, t, v, x, _ in states])


def allvars(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield x
        st += x.children()


class PipeCase(Case):
    """one transition from an arbitrary state, and the output, of a pipeline that shows its state"""

    def __init__(self, name, src, p, **kw):
        super().__init__(name, src, p.name, **kw)
        self.p = p

    def shown(self, v):
        n = len(self.p.states)
        return [v[1 + i // 6][i % 6] for i in range(n)]

    def obligations(self, ctx):
        p = self.p
        s = ctx.sim(free_init=True)
        fr = [s.step(), s.step()]
        ok, ip = [], []
        for i, f in enumerate(fr):
            for n, t, v in p.ins:
                x, o = in_val(f, n, t)
                ok.append(o)
                if i == 0:
                    ip += list(zip(leaves(v), leaves(x)))
        outs = [out_val(f, p.otype) for f in fr]
        st = [self.shown(v) for v, _ in outs]
        for (l, t, v, x), a in zip(p.states, st[0]):
            ip += list(zip(leaves(v), leaves(a)))
        # a state: registers hold values of their types
        b0 = outs[0][1]
        ok.append(Tuple(*p.otype.members[1:]).ok(z3.Extract(sum(m.w for m in p.otype.members[1:]) - 1, 0, b0)))
        rt = p.otype.members[0]
        if rt.w:
            want = subst(p.out[0], ip)
            yield Ob("result", [z3.Not(rt.same(outs[0][0][0], want))], [(0, "", OUT, b0)], ok, [("expected", rt, want), ("actual", rt, outs[0][0][0])])
        for i, (l, t, v, x) in enumerate(p.states):
            want = subst(x, ip)
            yield Ob(
                f"next {l}", [z3.Not(t.same(st[1][i], want))], [(0, "", OUT, b0), (1, "", OUT, outs[1][1])], ok,
                [("expected", t, want), ("actual", t, st[1][i])],
            )


def random_pipe(r, uid, enables=True):
    g = Gen(r, uid, Opts(lam=0, call=1, maxw=6, budget=70))
    g.declare_types(r.randint(0, 2))
    subs = []
    for _ in range(r.choice([0, 0, 1, 2])):
        g.size = 0
        p = pipeline(g, r.randint(0, 2), [], 1, enables)
        if p is None:
            return None
        subs.append(p)
    g.size = 0
    p = pipeline(g, r.choice([0, 1, 1, 2, 2, 3, 4, 5]), subs, 2, enables)
    if p is None or len(p.states) > 60:
        return None
    return PipeCase(p.name, "\n".join(g.items) + "\n", p)


def p14(tier, rng):
    out = []
    quick = tier == "quick"
    n = 450 if quick else 4500
    q = 0
    while len(out) < n:
        r = random.Random(rng.getrandbits(64))
        c = random_pipe(r, f"{q}", enables=q % 3 != 0)
        q += 1
        if c is not None:
            out.append(c)
    for q in range(120 if quick else 1000):
        out.append(forms(random.Random(rng.getrandbits(64)), f"f{q}"))
    return out


# ------------------------------------------------------------------ timing
# A pipeline is well timed when every part of it is used in a stage where it is ready, and the
# parts of an expression are ready at the same time. Then the value of a name in stage j at
# cycle t belongs to the inputs of cycle t - j, and the output is a function of the inputs `depth`
# cycles earlier.


class Mistimed(Exception):
    pass


W4 = UInt(4)
NAMES = ["a", "b", "c"]


class Timed:
    """a random pipeline over uint<4>, with its timing and its meaning"""

    def __init__(self, r, uid, bad):
        self.r, self.uid, self.bad = r, uid, bad
        self.subs = [(f"sub{uid}_{d}_{k}", d, k) for d in (0, 1, 2, 3) for k in (0, 1)]
        self.why = None
        self.gen = r.random() < 0.3

    def sub_src(self):
        o = []
        used = {m for m in self.subs if m[0] in self.body}
        for n, d, k in sorted(used):
            # 0: x ^ y, 1: x where y is not 0
            pre = "let z = x ^ y;" if k == 0 else "let z = if y == 0 { x } else { y };"
            cut = self.r.randint(0, d)
            o.append(f"pipeline({d}) {n}(clk: clock, x: uint<4>, y: uint<4>) -> uint<4> {{ {'reg;' * cut} {pre} {'reg;' * (d - cut)} z }}")
        return "\n".join(o) + "\n"

    @staticmethod
    def sub_val(k, x, y):
        return x ^ y if k == 0 else z3.If(y == 0, x, y)

    def fail(self, why):
        if self.why is None:
            self.why = why

    # an expression: (text, delay or None, f(s) -> value for the inputs of cycle s)
    def expr(self, k, d, want=None):
        """in stage k; want: the delay the text should have, if any"""
        r = self.r
        if d <= 0:
            return self.leaf(k, want)
        q = r.random()
        if want is not None and want > 0 or (want is None and q < 0.3):
            return self.inst(k, d, want)
        if q < 0.45:
            a, b = self.expr(k, d - 1, want), self.expr(k, d - 1, want)
            return self.mix(f"({a[0]} {r.choice('^&|')} {b[0]})", [a, b], None)
        if q < 0.62:
            a, b = self.expr(k, d - 1, want), self.expr(k, d - 1, want)
            if self.flaw(0.3):
                c = self.inst(k, 1, None)
            else:
                c = self.expr(k, 0 if self.r.random() < 0.5 else d - 1, want)
            if r.random() < 0.5:
                t = f"if {c[0]} == 0 {{ {a[0]} }} else {{ {b[0]} }}"
            else:
                t = f"match {c[0]} {{ 0 => {a[0]}, _ => {b[0]} }}"
            return t, self.join([a, b, c]), lambda s: z3.If(c[2](s) == 0, a[2](s), b[2](s))
        if q < 0.72:
            a, b = self.expr(k, d - 1, want), self.expr(k, d - 1, want)
            i = r.randrange(2)
            form = r.choice([("(", ").%d"), ("[", "][%d]")])
            t = form[0] + f"{a[0]}, {b[0]}" + form[1] % i
            if form[0] == "[":
                t = f"[{a[0]}, {b[0]}][{i}]"
            return t, self.join([a, b]), (a, b)[i][2]
        if q < 0.8:
            a = self.expr(k, d - 1, want)
            n = f"blk{r.randrange(99)}"
            if a[1] and not self.bad:
                return a
            if a[1]:
                self.fail("a delayed value bound in a block")
            return f"{{ let {n}: uint<4> = {a[0]}; {n} }}", a[1] or 0, a[2]
        return self.leaf(k, want)

    def flaw(self, p):
        return self.bad and self.r.random() < p

    def join(self, es):
        ds = {e[1] for e in es if e[1] is not None}
        if len(ds) > 1:
            self.fail(f"parts with different delays {sorted(ds)}")
        return max(ds) if ds else None

    def mix(self, t, es, _):
        op = t
        a, b = es
        o = next(c for c in t[len(a[0]) + 1 :] if c in "^&|")
        f = {"^": lambda x, y: x ^ y, "&": lambda x, y: x & y, "|": lambda x, y: x | y}[o]
        return t, self.join(es), lambda s: f(a[2](s), b[2](s))

    def inst(self, k, d, want):
        r = self.r
        room = self.depth - k
        cands = [m for m in self.subs if (want is None and m[1] <= room) or (want is not None and m[1] <= want)]
        if self.flaw(0.1):
            cands = self.subs
        if not cands:
            return self.leaf(k, want)
        n, dep, kind = r.choice(cands)
        inner = None if want is None else want - dep
        if want is not None and inner > 0 and d <= 1:
            m = [m for m in cands if m[1] == want]
            if m:
                n, dep, kind = r.choice(m)
                inner = 0
        a, b = self.expr(k, d - 1, 0 if inner is None else inner), self.expr(k, d - 1, 0 if inner is None else inner)
        ad = self.join([a, b])
        w = dep
        if self.flaw(0.06):
            w = dep + r.choice([-1, 1]) if dep else 1
            self.fail(f"{n} has depth {dep}, instantiated with {w}")
        args = f"(clk, {a[0]}, {b[0]})" if r.random() < 0.6 else f"$(y: {b[0]}, x: {a[0]}, clk)"
        return f"inst({w}) {n}{args}", (ad or 0) + dep, lambda s: self.sub_val(kind, a[2](s), b[2](s))

    def leaf(self, k, want):
        """a name that is ready in stage k; or a constant"""
        r = self.r
        if want:
            return self.inst(k, 1, want)
        ready = [n for n, (av, f) in self.names.items() if av <= k]
        notready = [n for n, (av, f) in self.names.items() if av > k]
        if notready and self.flaw(0.15):
            n = r.choice(notready)
            self.fail(f"{n} used in stage {k}, ready in {self.names[n][0]}")
            return n, 0, self.names[n][1]
        if r.random() < 0.1:
            c = r.randrange(16)
            # even a constant takes time to arrive
            return f"{c}u4", None, lambda s: (self.ins(s, "a"), bv(c, 4))[1]
        n = r.choice(ready)
        av, f = self.names[n]
        if r.random() < 0.2:
            j = r.randint(av, self.depth)
            if self.flaw(0.3):
                j = r.randint(-1, self.depth + 1)
            if j < 0 or j > self.depth:
                self.fail(f"reference to stage {j}")
            elif j < av:
                self.fail(f"{n} referenced in stage {j}, ready in {av}")
            d = j - k
            t = f"stage({'+' if d >= 0 else '-'}{abs(d)}).{n}"
            self.maxref = max(self.maxref, abs(d))
            if j in self.labels and r.random() < 0.5:
                t = f"stage({self.labels[j]}).{n}"
            # in stage j now is what the inputs of j cycles ago gave
            return t, 0, lambda s: f(s + k - j)
        return n, 0, f

    def build(self):
        r = self.r
        self.depth = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        self.labels = {k: f"L{k}" for k in range(self.depth + 1) if r.random() < 0.3}
        self.maxref = 0
        self.names = {n: (0, (lambda n: lambda s: self.ins(s, n))(n)) for n in NAMES}
        lines = []
        for k in range(self.depth + 1):
            if k in self.labels:
                lines.append("'" + self.labels[k])
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                e = self.expr(k, r.choice([1, 2, 2, 3]), None)
                n = f"v{len(self.names)}"
                lines.append(f"let {n}: uint<4> = {e[0]};")
                self.names[n] = (k + (e[1] or 0), e[2])
            if k < self.depth:
                lines.append("reg;")
        e = self.inst(self.depth, 1, None) if self.flaw(0.05) else self.expr(self.depth, 2, 0)
        if e[1]:
            self.fail(f"the result is {e[1]} cycles late")
        if self.flaw(0.1):
            if r.random() < 0.5 or not self.depth:
                lines.append("reg;")
                self.fail("one reg more than the depth")
                # everything that was ready is still there
            else:
                lines.remove("reg;")
                self.fail("one reg less than the depth")
        self.body = "\n    ".join(lines + [e[0]])
        self.f = e[2]
        self.top = f"tp{self.uid}"
        src = self.sub_src()
        src += f"pipeline({self.depth}) {self.top}(clk: clock, a: uint<4>, b: uint<4>, c: uint<4>) -> uint<4> {{\n    {self.body}\n}}\n"
        return src


def timed(r, uid, bad):
    t = Timed(r, uid, bad)
    src = t.build()
    if t.why is not None:
        return Verdict(t.top, src, False, t.why)
    reach = sum(1 for _ in range(1)) * 0 + t.depth
    # references reach at most depth stages per use, and uses nest through names
    back = t.depth * (len(t.names) + 1)

    used = {"lo": 0, "hi": 0}

    class Low(Exception):
        pass

    # find which cycles the output of cycle 0 depends on
    seen = set()

    def probe(s, n):
        seen.add(s)
        return bv(0, 4)

    t.ins = probe
    t.f(-t.depth)
    lo, hi = (min(seen), max(seen)) if seen else (0, 0)
    if hi > 0:
        # the output would need inputs of later cycles: only well formed when unused
        return None
    frames = -lo + 1
    if frames > 24:
        return None

    def f(ins):
        t.ins = lambda s, n: ins[frames - 1 + s][n]
        yield frames - 1, TRUE, t.f(-t.depth)

    return Seq(t.top, src, t.top, [(n, W4) for n in NAMES], W4, f, frames)


HAND_BAD = [
    ("no_clock", "pipeline(1) top(c: bool) -> bool { reg; c }", "no clock"),
    ("clock_type", "pipeline(1) top(clk: bool, c: bool) -> bool { reg; c }", "no clock"),
    ("reg_in_fn", "fn top(clk: clock, c: bool) -> bool { reg; c }", "reg outside a pipeline"),
    ("reg_in_entity", "entity top(clk: clock, c: bool) -> bool { reg; c }", "reg outside a pipeline"),
    ("reg_in_block", "pipeline(1) top(clk: clock, c: bool) -> bool { { reg; } c }", "reg in a block"),
    ("ref_in_entity", "entity top(clk: clock, c: bool) -> bool { stage(-1).c }", "stage reference outside a pipeline"),
    ("ready_in_entity", "entity top(clk: clock, c: bool) -> bool { stage.ready }", "stage.ready outside a pipeline"),
    ("valid_in_fn", "fn top(c: bool) -> bool { stage.valid }", "stage.valid outside a pipeline"),
    ("cond_type", "pipeline(1) top(clk: clock, c: bool, d: uint<2>) -> bool { reg[d]; c }", "condition is not a bool"),
    ("no_inst", "pipeline(1) sub(clk: clock, c: bool) -> bool { reg; c } pipeline(1) top(clk: clock, c: bool) -> bool { let x = sub(clk, c); reg; x }", "no inst"),
    ("no_depth", "pipeline(1) sub(clk: clock, c: bool) -> bool { reg; c } entity top(clk: clock, c: bool) -> bool { inst sub(clk, c) }", "no depth"),
    ("depth_fn", "fn sub(c: bool) -> bool { c } entity top(c: bool) -> bool { inst(1) sub(c) }", "depth for a function"),
    ("depth_entity", "entity sub(c: bool) -> bool { c } entity top(c: bool) -> bool { inst(1) sub(c) }", "depth for an entity"),
    ("inst_in_fn", "pipeline(1) sub(clk: clock, c: bool) -> bool { reg; c } fn top(clk: clock, c: bool) -> bool { inst(1) sub(clk, c) }", "pipeline in a function"),
    ("label_twice", "pipeline(1) top(clk: clock, c: bool) -> bool { 'a reg; 'a let x = stage(a).c; x }", "label of two stages"),
    ("label_none", "pipeline(1) top(clk: clock, c: bool) -> bool { reg; stage(q).c }", "no such label"),
    ("depth_any", "pipeline(_) top(clk: clock, c: bool) -> bool { reg; c }", "depth not given"),
    ("late_def", "pipeline(1) top(clk: clock, c: bool) -> bool { reg; let q = c; stage(-1).q }", "defined after the stage"),
    ("own_def", "pipeline(1) top(clk: clock, c: bool) -> bool { reg; let q = stage(-1).q; q }", "defined by itself"),
    ("cond_late", "pipeline(1) sub(clk: clock, c: bool) -> bool { reg; c } pipeline(1) top(clk: clock, c: bool) -> bool { reg[inst(1) sub(clk, c)]; c }", "condition is late"),
    ("cond_wait", "pipeline(1) sub(clk: clock, c: bool) -> bool { reg; c } pipeline(1) top(clk: clock, c: bool) -> bool { let x = inst(1) sub(clk, c); reg[x]; c }", "condition is late"),
    ("generic_depth", "pipeline(N) g<#int N, T>(clk: clock, c: T) -> T { reg*{N-1}; c } pipeline(3) top(clk: clock, c: bool) -> bool { let x = inst(3) g(clk, c); reg*3; x }", "depth of an instance"),
    ("generic_inst", "pipeline(N) g<#int N, T>(clk: clock, c: T) -> T { reg*N; c } pipeline(3) top(clk: clock, c: bool) -> bool { let x = inst(3) g::<2, bool>(clk, c); reg*3; x }", "depth of an instance"),
    ("generic_ref", "pipeline(N) g<#int N, #int O>(clk: clock, c: bool) -> bool { reg*N; let a = stage(+O).c; a } entity top(clk: clock, c: bool) -> bool { inst(3) g::<3, 1>(clk, c) }", "reference past the end"),
    ("neg_regs", "pipeline(N) g<#int N>(clk: clock, c: bool) -> bool { reg*{N-2}; reg; c } entity top(clk: clock, c: bool) -> bool { inst(1) g::<1>(clk, c) }", "negative count"),
    ("trait_depth", "trait Z { pipeline(2) m(self, clk: clock, c: bool) -> bool; } struct A { a: bool } impl Z for A { pipeline(1) m(self, clk: clock, c: bool) -> bool { reg; c && self.a } } pipeline(2) g<T>(clk: clock, x: T, c: bool) -> bool where T: Z { let y = x.inst(2) m(clk, c); reg*2; y } entity top(clk: clock, a: A, c: bool) -> bool { inst(2) g(clk, a, c) }", "depth of the trait"),
    ("neg_depth", "pipeline(-1) top(clk: clock, c: bool) -> bool { c }", "negative depth"),
]


def p15(tier, rng):
    quick = tier == "quick"
    out = [Verdict(n, s + "\n", False, w) for n, s, w in HAND_BAD]
    want = len(out) + (500 if quick else 5000)
    q = 0
    while len(out) < want:
        r = random.Random(rng.getrandbits(64))
        c = timed(r, f"{q}", bad=q % 2 == 0)
        q += 1
        if c is not None:
            out.append(c)
    out += positions(random.Random(rng.getrandbits(64)), quick)
    return out


# every kind of expression with its parts: (name, text, part types, result type)
U4, B1, U2 = "uint<4>", "bool", "uint<2>"
PRE = """struct SS { x: uint<4>, y: uint<4> }
enum EN { A { x: uint<4>, y: uint<4> }, B }
fn ff(x: uint<4>, y: uint<4>) -> uint<4> { x ^ (y & 7) }
fn gg<T>(x: T, y: T) -> T { y }
entity ee(x: uint<4>, y: uint<4>) -> uint<4> { x & y }
impl SS { fn mm(self, o: uint<4>) -> uint<4> { o ^ self.x } entity em(self, o: uint<4>) -> uint<4> { o | self.y } }
trait TT { fn tm(self, o: uint<4>) -> uint<4>; }
impl TT for uint<4> { fn tm(self, o: uint<4>) -> uint<4> { o & ~self } }
pipeline(1) la<T>(clk: clock, x: T) -> T { reg; x }
pipeline(2) lb<T>(clk: clock, x: T) -> T { reg; reg; x }
pipeline(1) lc(clk: clock, x: uint<4>, y: uint<4>) -> uint<4> { reg; x & ~y }
"""
FORMS = [(f"bin{i}", f"{{0}} {o} {{1}}", [U4, U4], U4) for i, o in enumerate("& | ^ << >> +. -.".split())]
FORMS += [(f"cmp{i}", f"{{0}} {o} {{1}}", [U4, U4], B1) for i, o in enumerate("== != < > <= >=".split())]
FORMS += [(f"log{i}", f"{{0}} {o} {{1}}", [B1, B1], B1) for i, o in enumerate("&& || ^^".split())]
FORMS += [
    ("add", "{0} + {1}", [U4, U4], "uint<5>"), ("mul", "{0} * {1}", [U4, U4], "uint<8>"), ("not", "!{0}", [B1], B1), ("cpl", "~{0}", [U4], U4),
    ("tup", "({0}, {1})", [U4, B1], "(uint<4>, bool)"), ("tup3", "({0}, {1}, {2})", [U4, B1, U4], "(uint<4>, bool, uint<4>)"), ("tupidx", "({0}, {1}).1", [U4, B1], B1),
    ("arr", "[{0}, {1}, {2}]", [U4, U4, U4], "[uint<4>; 3]"), ("short", "[{0}; 3]", [U4], "[uint<4>; 3]"), ("idx", "{0}[{1}]", ["[uint<4>; 4]", U2], U4),
    ("idxlit", "[{0}, {1}, {0}, {1}][{2}]", [U4, U4, U2], U4), ("range", "({0})[1..3]", ["[uint<4>; 4]"], "[uint<4>; 2]"), ("rangeidx", "({0})[1..3][{1}]", ["[uint<4>; 4]", "uint<1>"], U4),
    ("struct", "SS({0}, {1})", [U4, U4], "SS"), ("structn", "SS$(y: {0}, x: {1})", [U4, U4], "SS"), ("field", "SS({0}, {1}).y", [U4, U4], U4), ("fieldof", "{0}.x", ["SS"], U4),
    ("enum", "EN::A({0}, {1})", [U4, U4], "EN"), ("some", "Some({0})", [U4], "Option<uint<4>>"),
    ("fn", "ff({0}, {1})", [U4, U4], U4), ("fnn", "ff$(y: {0}, x: {1})", [U4, U4], U4), ("fng", "gg({0}, {1})", [U4, U4], U4), ("fnlast", "ff({0}, 3)", [U4], U4), ("fnfirst", "ff(3, {0})", [U4], U4),
    ("ent", "inst ee({0}, {1})", [U4, U4], U4), ("entn", "inst ee$(y: {0}, x: {1})", [U4, U4], U4),
    ("meth", "{0}.mm({1})", ["SS", U4], U4), ("methe", "{0}.inst em({1})", ["SS", U4], U4), ("meth2", "SS({0}, {1}).mm({2})", [U4, U4, U4], U4), ("tmeth", "({0}).tm({1})", [U4, U4], U4),
    ("if", "if {0} {{ {1} }} else {{ {2} }}", [B1, U4, U4], U4), ("ifc", "if {0} {{ 1 }} else {{ {1} }}", [B1, U4], U4), ("ifcc", "if {0} {{ 1u4 }} else {{ 2 }}", [B1], U4),
    ("elif", "if {0} {{ {1} }} else if {2} {{ 3 }} else {{ 4 }}", [B1, U4, B1], U4),
    ("match", "match {0} {{ 0 => {1}, 1 => 7, _ => {2} }}", [U2, U4, U4], U4), ("matchb", "match {0} {{ Some(x) => x ^ {1}, None => {1} }}", ["Option<uint<4>>", U4], U4),
    ("guard", "match {0} {{ 0 if {1} => {2}, _ => 9 }}", [U2, B1, U4], U4), ("guardb", "match {0} {{ Some(x) if {1} => x, _ => 9 }}", ["Option<uint<4>>", B1], U4),
    ("matchc", "match {0} {{ 0 => 1u4, _ => 2 }}", [U2], U4), ("matchonly", "match {0} {{ _ => {1} }}", [U2, U4], U4), ("matchtup", "match ({0}, {1}) {{ (0, true) => 1u4, (x, _) => x }}", [U4, B1], U4),
    ("iflet", "if let Some(x) = {0} {{ x & {1} }} else {{ {2} }}", ["Option<uint<4>>", U4, U4], U4), ("ifletc", "if let 3 = {0} {{ {1} }} else {{ 2 }}", [U4, U4], U4),
    ("block", "{{ {0} & {1} }}", [U4, U4], U4), ("unsafe", "unsafe {{ {0} | {1} }}", [U4, U4], U4), ("genif", "gen if 1 == 1 {{ {0} ^ {1} }} else {{ {0} }}", [U4, U4], U4),
    ("pipe", "inst(1) lc(clk, {0}, {1})", [U4, U4], U4), ("pipen", "inst(1) lc$(clk, y: {0}, x: {1})", [U4, U4], U4), ("pipein", "inst(1) lc(clk, {0} & {1}, {1})", [U4, U4], U4),
    ("std", "std::conv::concat({0}, {1})", [U4, U4], "uint<8>"), ("stdm", "{0}.concat({1})", ["[bool; 2]", "[bool; 2]"], "[bool; 4]"), ("conv", "std::conv::zext({0})", [U4], "uint<6>"), ("transm", "unsafe {{ std::conv::transmute({0}) }}", [U4], "int<4>"),
    ("isome", "({0}).is_some()", ["Option<uint<4>>"], B1), ("unwor", "({0}).unwrap_or({1})", ["Option<uint<4>>", U4], U4),
    ("lam", "(fn |x, y| {{ x & y & 7u4 }}).call(({0}, {1}))", [U4, U4], U4), ("lamcap", "lq.call(({0},))", [U4], U4),
    ("eqtup", "({0}, {1}) == ({2}, true)", [U4, B1, U4], B1), ("nest", "SS({0}, ff({1}, [{2}, 1][0])).y", [U4, U4, U4], U4),
]


def positions(rng, quick):
    """Parts of an expression that are d stages late make the whole d stages late; parts which are
    late by different amounts do not go together, whatever the expression."""
    out = []
    q = 0
    argt = {U4: "a b c".split(), B1: "p q r".split(), U2: ["i"], "uint<1>": ["j"], "[uint<4>; 4]": ["arr"], "SS": ["s"], "Option<uint<4>>": ["o"], "[bool; 2]": ["ba", "bb"]}
    sig = "clk: clock, a: uint<4>, b: uint<4>, c: uint<4>, p: bool, q: bool, r: bool, i: uint<2>, j: uint<1>, arr: [uint<4>; 4], s: SS, o: Option<uint<4>>, ba: [bool; 2], bb: [bool; 2]"
    ds = [0, 1, 2]
    for nm, text, parts, res in FORMS:
        extra = 1 if nm.startswith("pipe") else 0
        lamd = "let lq = fn |x| { x & 9u4 };\n    " if nm == "lamcap" else ""
        names, cnt = [], {}
        for t in parts:
            k = cnt.get(t, 0)
            cnt[t] = k + 1
            names.append(argt[t][k])
        combos = list(itertools.product(ds, repeat=len(parts)))
        if quick and len(combos) > 9:
            uni = [c for c in combos if len(set(c)) == 1]
            one = [c for c in combos if len(set(c)) == 2 and max(c.count(x) for x in set(c)) == len(c) - 1]
            combos = uni + rng.sample(one, min(len(one), 7))
        for c in combos:
            q += 1
            late = [n if d == 0 else f"inst({d}) {'la' if d == 1 else 'lb'}(clk, {n})" for n, d in zip(names, c)]
            e = text.format(*late)
            ok = len(set(c)) == 1
            if ok and c[0] and nm in ("matchb", "guardb", "matchtup", "iflet"):
                # a name a pattern binds counts as ready at once, so that a late value cannot be
                # taken apart by one that binds: more is rejected than needs to be
                continue
            D = c[0] + extra
            top = f"po{q}"
            if not ok:
                form = rng.randrange(4)
                if form == 0:
                    body = f"let x = {e};\n    reg*3;\n    x"
                elif form == 1:
                    body = f"reg*3;\n    {e}"
                elif form == 2:
                    body = f"reg*1;\n    let x = {{ {e} }};\n    reg*2;\n    x"
                else:
                    body = f"let x = {e};\n    reg*3;\n    0"
                rt = res if form < 3 else "uint<4>"
                out.append(Verdict(top, PRE + f"pipeline(3) {top}({sig}) -> {rt} {{\n    {lamd}{body}\n}}\n", False, f"{nm}: parts late by {c}"))
                continue
            if D:
                # too early by one: not ready
                k = D - 1
                rs = f"reg*{k}; " if k else ""
                out.append(Verdict(top + "e", PRE + f"pipeline({3}) {top}e({sig}) -> {res} {{\n    {lamd}let x = {e};\n    {rs}let y = x;\n    reg*{3 - k};\n    y\n}}\n", False, f"{nm}: used {k} stages later, but {D} late"))
                out.append(Verdict(top + "f", PRE + f"pipeline({k}) {top}f({sig}) -> {res} {{\n    {lamd}{rs}{e}\n}}\n", False, f"{nm}: the result is late"))
            ref = {"pipe": "{0} & ~{1}", "pipen": "{1} & ~{0}", "pipein": "{0} & {1} & ~{1}"}.get(nm, text).format(*names)
            args = ", ".join(x.split(":")[0] for x in sig.split(", "))
            out.append(Positioned(top, PRE + f"pipeline({D}) {top}p({sig}) -> {res} {{\n    {lamd}let x = {e};\n    {f'reg*{D};' if D else ''}\n    x\n}}\n"
                       f"entity {top}r({sig}) -> {res} {{\n    {lamd}{ref}\n}}\nentity {top}({sig}) -> ({res}, {res}) {{ (inst({D}) {top}p({args}), inst {top}r({args})) }}\n", top, D, group=f"po{q}"))
    stm = [
        ("assert", "assert {0} == {1};", [U4, U4]), ("assert2", "let z = {{ assert {0} == {1}; c }};", [U4, U4]), ("regv", "reg(clk) z reset(r: {1}) = {0};", [U4, U4]),
        ("regv2", "let w = {{ reg(clk) z reset(r: {1}) = {0}; z }};", [U4, U4]), ("regtrig", "reg(clk) z reset({1} == {0}: 0) = c;", [U4, U4]), ("let", "let (z, w) = ({0}, {1});", [U4, U4]),
        ("regtrig2", "reg(clk) z reset({1}: {0}) = {0};", [U4, B1]),
        ("cond", "reg[{0} == {1}]; reg[r];", [U4, U4]),
    ]
    for nm, text, parts in stm:
        names = ["a", "b" if parts[1] == U4 else "p"]
        for c in itertools.product((0, 1, 2), repeat=2):
            if nm == "regtrig2" and c[1] == 0:
                # a trigger that is ready goes with any value
                continue
            q += 1
            late = [n if d == 0 else f"inst({d}) {'la' if d == 1 else 'lb'}(clk, {n})" for n, d in zip(names, c)]
            ok = c[0] == c[1]
            if nm == "cond":
                ok = c == (0, 0)
            elif ok and "2" in nm and nm != "regtrig2" and c[0]:
                continue
            elif ok and nm == "regtrig" and c[0]:
                continue
            n = 1 if nm == "cond" else 3
            out.append(Verdict(f"ps{q}", PRE + f"pipeline(3) ps{q}({sig}) -> uint<4> {{\n    {text.format(*late)}\n    reg*{n};\n    c\n}}\n", ok, f"{nm}: parts late by {c}"))
    return out


class Positioned(Case):
    """The output is a pair; its first half is what its second half was D cycles before"""

    def __init__(self, name, src, top, D, **kw):
        super().__init__(name, src, top, **kw)
        self.D = D

    def obligations(self, ctx):
        s = ctx.sim()
        el = s.elab
        w = dict(el.outputs)[OUT]
        if w % 2:
            raise Violation("port width", f"{w} bits for a pair of equals")
        fr = [s.step() for _ in range(self.D + 2)]
        h = w // 2
        for t in range(self.D, self.D + 2):
            x, y = fr[t].out(OUT), fr[t - self.D].out(OUT)
            xx, yy = z3.Extract(w - 1, h, x), z3.Extract(h - 1, 0, y)
            yield Ob(f"cycle{t}", [xx != yy], [(t, "", OUT, x), (t - self.D, "", OUT, y)], [], [("expected", UInt(h), yy), ("actual", UInt(h), xx)])


def forms(r, uid):
    """pipelines reached in other ways: generic depth, methods, traits, lambdas, from entities"""
    T = r.choice([UInt(4), Int(3), Tuple(Bool, UInt(2)), option(UInt(3)), Array(UInt(2), 2)])
    n, m = r.randint(0, 4), r.randint(0, 3)
    top = f"pf{uid}"
    ins = [("a", T), ("b", T), ("c", Bool)]
    sig = f"clk: clock, a: {T.src}, b: {T.src}, c: bool"
    pick = lambda i: T.ite(is1(i["c"]), i["a"], i["b"])
    k = r.randrange(9)
    lat = n
    if k == 0:
        src = f"pipeline(N) gd{uid}<#int N, T>(clk: clock, c: bool, x: T, y: T) -> T {{ let v = if c {{ x }} else {{ y }}; {r.choice(['reg*N;', 'reg*{N};', 'reg*{N-1}; reg;' if n else 'reg*N;'])} v }}\n"
        g = r.choice(["", f"::<{n}, {T.src}>"])
        src += f"entity {top}({sig}) -> {T.src} {{ inst({n}) gd{uid}{g}(clk, c, a, b) }}\n"
    elif k == 1:
        src = f"pipeline(N) gd{uid}<#int N, T>(clk: clock, x: T) -> T {{ reg*N; x }}\n"
        src += f"pipeline({{N+{m}}}) ge{uid}<#int N, T>(clk: clock, c: bool, x: T, y: T) -> T {{ reg*{m}; let v = inst(N) gd{uid}::<N, T>(clk, if c {{ x }} else {{ y }}); reg*N; v }}\n"
        src += f"entity {top}({sig}) -> {T.src} {{ inst({n + m}) ge{uid}::<{n}, {T.src}>(clk, c, a, b) }}\n"
        lat = n + m
    elif k == 2:
        src = f"struct Sm{uid} {{ x: {T.src}, y: {T.src} }}\nimpl Sm{uid} {{ pipeline({n}) sel(self, clk: clock, c: bool) -> {T.src} {{ reg*{n}; if c {{ self.x }} else {{ self.y }} }} }}\n"
        src += f"entity {top}({sig}) -> {T.src} {{ Sm{uid}(a, b).inst({n}) sel(clk, c) }}\n"
    elif k == 3:
        src = f"trait Tr{uid} {{ pipeline({n}) sel(self, clk: clock, c: bool) -> {T.src}; }}\nstruct Sm{uid} {{ x: {T.src}, y: {T.src} }}\nimpl Tr{uid} for Sm{uid} {{ pipeline({n}) sel(self, clk: clock, c: bool) -> {T.src} {{ let v = if c {{ self.x }} else {{ self.y }}; reg*{n}; v }} }}\n"
        src += f"pipeline({n}) thr{uid}<U>(clk: clock, x: U, c: bool) -> {T.src} where U: Tr{uid} {{ let v = x.inst({n}) sel(clk, c); reg*{n}; v }}\n"
        src += f"entity {top}({sig}) -> {T.src} {{ inst({n}) thr{uid}(clk, Sm{uid}(a, b), c) }}\n"
    elif k == 4:
        src = f"entity {top}({sig}) -> {T.src} {{ let f = pipeline({n}) |clk, x, y, c: bool| {{ {'reg;' * n} let q: {T.src} = if c {{ x }} else {{ y }}; q }}; f.inst({n}) call(clk, (a, b, c)) }}\n"
        src = src.replace("c: bool| {", "c| {").replace("if c {", "if c == true {")
    elif k == 5:
        # the same pipeline several times, one after the other
        src = f"pipeline({n}) one{uid}({sig}) -> {T.src} {{ {'reg; ' * n} if c {{ a }} else {{ b }} }}\n"
        src += f"entity {top}({sig}) -> {T.src} {{ let x = inst({n}) one{uid}(clk, a, b, c); inst({n}) one{uid}(clk, x, x, c) }}\n"
        lat = 2 * n
    elif k == 6:
        # through a struct: the delayed part is used when it is ready
        src = f"pipeline({n}) one{uid}({sig}) -> {T.src} {{ {'reg; ' * n} if c {{ a }} else {{ b }} }}\n"
        src += f"pipeline({n + m}) {top}({sig}) -> {T.src} {{ let x = inst({n}) one{uid}$(clk, c, b: a, a: b); reg*{n}; let y = if c {{ x }} else {{ x }}; {f'reg*{m};' if m else ''} y }}\n"
        pick = lambda i: T.ite(is1(i["c"]), i["b"], i["a"])
        lat = n + m
    elif k == 7:
        # shadowing between stages
        src = f"pipeline({n + 1}) {top}({sig}) -> {T.src} {{ let v = a; {'reg; ' * n} let a = if c {{ v }} else {{ b }}; reg; let b = a; {{ let a = 3u4; b }} }}\n"
        lat = n + 1
    else:
        src = f"#[inline] pipeline({n}) one{uid}({sig}) -> {T.src} {{ {'reg; ' * n} if c {{ a }} else {{ b }} }}\n"
        src += f"pipeline({n}) {top}({sig}) -> {T.src} {{ let (x, _) = {{ (c, a) }}; let w = inst({n}) one{uid}(clk, a, b, x); {'reg; ' * n} w }}\n"

    def f(ins):
        for t in range(lat, lat + 2):
            yield t, TRUE, pick(ins[t - lat])

    if k == 5:

        def f(ins):
            for t in range(lat, lat + 2):
                yield t, TRUE, pick(ins[t - lat])

    return Seq(top, src, top, ins, T, f, lat + 2)
