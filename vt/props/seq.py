"""P13 registers, P16 optimisation passes, P34 several clocks."""
import random
import z3
from ..check import Case, Comb, Seq, Verdict, Ob, Violation, in_val, out_val, OUT
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst
from ..sym import bv, ext


class Reg:
    def __init__(self, name, ty, nxt, reset=None, initial=None, clock="clk"):
        self.name, self.ty, self.nxt, self.reset, self.initial, self.clock = name, ty, nxt, reset, initial, clock


class Machine:
    """A state machine: inputs, registers with next state, outputs = (registers..., extra)"""

    def __init__(self, inputs, regs, extra, clocks):
        self.inputs, self.regs, self.extra, self.clocks = inputs, regs, extra, clocks
        self.iv = {n: v for n, _, v in inputs}


def const_expr(g, t):
    """a constant: literals and constructors only"""
    r = g.r
    if isinstance(t, Scalar):
        e = g.literal(t)
        k = r.random()
        if isinstance(t, (Int, UInt)) and t.w > 2 and k < 0.3:
            # a sum that fits, computed at compile time
            S = type(t)(t.w - 1)
            a, b = g.literal(S), g.literal(S)
            if k < 0.15:
                return Ex(t, f"({a.s} + {b.s})", ext(a.v, t.w, t.signed) + ext(b.v, t.w, t.signed))
            return Ex(t, f"({a.s} - {b.s})", ext(a.v, t.w, t.signed) - ext(b.v, t.w, t.signed)) if t.signed else e
        return e
    if isinstance(t, Tuple):
        es = [const_expr(g, m) for m in t.members]
        return Ex(t, "(" + ", ".join(e.s for e in es) + ("," if len(es) == 1 else "") + ")", [e.v for e in es])
    if isinstance(t, Array):
        if r.random() < 0.2:
            e = const_expr(g, t.inner)
            return Ex(t, f"[{e.s}; {t.n}]", [e.v] * t.n)
        es = [const_expr(g, t.inner) for _ in range(t.n)]
        return Ex(t, "[" + ", ".join(e.s for e in es) + "]", [e.v for e in es])
    if isinstance(t, Struct):
        es = [const_expr(g, m) for m in t.members]
        return Ex(t, t.name + g.args_text(t.fields, es), [e.v for e in es])
    i = r.randrange(len(t.variants))
    fs = t.variants[i][1]
    es = [const_expr(g, m) for _, m in fs]
    return Ex(t, g.path(t, i) + (g.args_text(fs, es) if fs else ""), t.make(i, [e.v for e in es]))


def machine(r, uid, nclk=1, depth=3, attr="", big=False):
    """(source, top, Machine)"""
    g = Gen(r, uid, Opts(lam=0, call=2, maxw=8, budget=60))
    g.entity = False
    g.declare_types(r.randint(0, 3))
    ins = [(n, g.small_type(2)) for n in "abcd"[: r.randint(1, 3)]] + [("rst", Bool), ("en", Bool)]
    iv = [fresh(t) for _, t in ins]
    regs = []
    nregs = r.randint(1, 4)
    rtys = [g.small_type(2) for _ in range(nregs)]
    rv = [fresh(t) for t in rtys]
    names = [f"r{i}" for i in range(nregs)]
    sc_in = [(n, Ex(t, n, v)) for (n, t), v in zip(ins, iv)]
    clocks = [f"clk{i}" for i in range(nclk)] if nclk > 1 else ["clk"]
    decls, stmts = [], []
    forward = r.random() < 0.6
    sc_regs = [(n, Ex(t, n, v)) for n, t, v in zip(names, rtys, rv)]
    if forward:
        decls.append("decl " + ", ".join(names) + ";")
        # the type of a forward declared name is not known until its definition
        decls += [f"let w{i}: {t.src} = r{i};" for i, t in enumerate(rtys)]
        sc_regs = [(f"w{i}", Ex(t, f"w{i}", v)) for i, (t, v) in enumerate(zip(rtys, rv))]
    i = 0
    while i < nregs:
        sc = sc_in + (sc_regs if forward else sc_regs[: i + 1])
        clk = r.choice(clocks)
        group = 2 if not forward and i + 1 < nregs and r.random() < 0.2 else 1
        if group == 2:
            # a pattern binds two registers at once; neither is visible before
            sc = sc_in + sc_regs[:i]
            T = Tuple(rtys[i], rtys[i + 1])
        else:
            T = rtys[i]
        e = g.expr(T, depth, sc)
        nxt = e.v
        text = e.s
        if r.random() < 0.5 and group == 1:
            # hold unless enabled
            old = sc_regs[i][1]
            nxt = T.ite(is1(iv[-1]), e.v, old.v)
            text = f"if en {{ {e.s} }} else {{ {names[i]} }}"
        reset = initial = None
        rs = ini = ""
        k = r.random()
        if k < 0.55:
            trig = g.expr(Bool, 1, sc_in) if r.random() < 0.3 else sc_in[-2][1]
            val = g.expr(T, r.choice([0, 0, 1, 2]), sc_in if r.random() < 0.5 else [])
            reset = (trig.v, val.v)
            rs = f" reset({trig.s}: {val.s})"
        if k > 0.4 and k < 0.75:
            c = const_expr(g, T)
            initial = c.v
            ini = f" initial({c.s})"
        pat = f"({names[i]}, {names[i+1]})" if group == 2 else names[i]
        annot = f": {T.src}" if group == 2 or names[i] in text or r.random() < 0.5 else ""
        stmts.append(f"reg({clk}) {pat}{annot}{rs}{ini} = {text};")
        if group == 2:
            for j in (0, 1):
                regs.append(Reg(names[i + j], rtys[i + j], nxt[j], None if reset is None else (reset[0], reset[1][j]), None if initial is None else initial[j], clk))
        else:
            regs.append(Reg(names[i], T, nxt, reset, initial, clk))
        i += group
    xt = g.small_type(1)
    ex = g.expr(xt, 2, sc_in + sc_regs)
    O = Tuple(*rtys, xt)
    top = f"seq{uid}"
    sig = ", ".join([f"{c}: clock" for c in clocks] + [f"{n}: {t.src}" for n, t in ins])
    body = "\n    ".join(decls + stmts + [f"({', '.join(names)}, {ex.s})"])
    g.items.append(f"{attr}entity {top}({sig}) -> {O.src} {{\n    {body}\n}}")
    m = Machine([(n, t, v) for (n, t), v in zip(ins, iv)], regs, (xt, ex.v), clocks)
    m.rv = rv
    m.otype = O
    return "\n".join(g.items) + "\n", top, m


class SeqCase(Case):
    """One transition from an arbitrary state, the output function, and the initial state"""

    def __init__(self, name, src, top, m, free=False, chain=0, **kw):
        super().__init__(name, src, top, **kw)
        self.m, self.free, self.chain = m, free, chain

    def inputs(self, fr, ok):
        pairs = []
        for n, t, v in self.m.inputs:
            x, o = in_val(fr, n, t)
            ok.append(o)
            pairs += list(zip(leaves(v), leaves(x)))
        return pairs

    def obligations(self, ctx):
        m = self.m
        kw = dict(clock_ticks="free") if len(m.clocks) > 1 else {}
        s = ctx.sim(free_init=True, tag="t.", **kw)
        O = m.otype
        fr = [s.step(), s.step()]
        ok = []
        ip = [self.inputs(f, ok) for f in fr]
        outs, bits = [], []
        for f in fr:
            v, b = out_val(f, O)
            outs.append(v)
            bits.append(b)
        # a state: every register holds a value of its type
        st = [x for x in outs[0][:-1]]
        pos = O.w
        for r in m.regs:
            pos -= r.ty.w
            if r.ty.w:
                ok.append(r.ty.ok(z3.Extract(pos + r.ty.w - 1, pos, bits[0])))
        sp = []
        for v, x in zip(m.rv, st):
            sp += list(zip(leaves(v), leaves(x)))
        both = ip[0] + sp
        xt, xv = m.extra
        if xt.w:
            want = subst(xv, both)
            yield Ob("output", [z3.Not(xt.same(outs[0][-1], want))], [(0, "", OUT, bits[0])], ok, [("expected", xt, want), ("actual", xt, outs[0][-1])])
        for i, r in enumerate(m.regs):
            if not r.ty.w:
                continue
            want = subst(r.nxt, both)
            if r.reset is not None:
                c, v = subst(r.reset[0], both), subst(r.reset[1], both)
                want = r.ty.ite(is1(c), v, want)
            if len(m.clocks) > 1:
                want = r.ty.ite(self.tick(s, fr[0], r.clock), want, st[i])
            yield Ob(
                f"next {r.name}", [z3.Not(r.ty.same(outs[1][i], want))], [(0, "", OUT, bits[0]), (1, "", OUT, bits[1])], ok,
                [("expected", r.ty, want), ("actual", r.ty, outs[1][i])],
            )
        if any(r.initial is not None for r in m.regs):
            s2 = ctx.sim(tag="i.", **kw)
            f = s2.step()
            v, b = out_val(f, O)
            for i, r in enumerate(m.regs):
                if r.initial is None or not r.ty.w:
                    continue
                yield Ob(
                    f"initial {r.name}", [z3.Not(r.ty.same(v[i], r.initial))], [(0, "", OUT, b, s2)], [],
                    [("expected", r.ty, r.initial), ("actual", r.ty, v[i])],
                )

    def tick(self, s, f, clock):
        for root, t in f.ticks.items():
            if root[0] == clock + "_i":
                return t
        return z3.BoolVal(False)


def reset_case(r, uid):
    """bounded run: after a reset the output is a function of the inputs since"""
    n = r.randint(1, 4)
    T = r.choice([UInt(4), Int(6), Tuple(Bool, UInt(3)), option(UInt(2)), Array(UInt(2), 2)])
    g = Gen(r, uid)
    v0 = g.construct(T, 1, []) if not isinstance(T, Scalar) else g.literal(T)
    top = f"dl{uid}"
    how = r.choice(["reset", "plain", "entity"])
    k = n + 2
    if how == "reset":
        body = "".join(f"reg(clk) s{i} reset(rst: {v0.s}) = {'a' if i == 0 else f's{i-1}'}; " for i in range(n))
        src = f"entity {top}(clk: clock, rst: bool, a: {T.src}) -> {T.src} {{ {body} s{n-1} }}\n"

        def f(ins):
            for t in range(1, k):
                st = [v0.v] * n
                # from a reset at cycle 0 on
                for u in range(1, t):
                    nst = [ins[u]["a"]] + st[:-1]
                    st = [T.ite(is1(ins[u]["rst"]), v0.v, x) for x in nst]
                yield t, is1(ins[0]["rst"]), st[-1]

    elif how == "plain":
        body = "".join(f"reg(clk) s{i} = {'a' if i == 0 else f's{i-1}'}; " for i in range(n))
        src = f"entity {top}(clk: clock, rst: bool, a: {T.src}) -> {T.src} {{ {body} s{n-1} }}\n"

        def f(ins):
            for t in range(n, k):
                yield t, z3.BoolVal(True), ins[t - n]["a"]

    else:
        src = f"entity one{uid}<T>(clk: clock, x: T) -> T {{ reg(clk) y = x; y }}\n"
        body = "".join(f"let s{i} = inst one{uid}(clk, {'a' if i == 0 else f's{i-1}'}); " for i in range(n))
        src += f"entity {top}(clk: clock, rst: bool, a: {T.src}) -> {T.src} {{ {body} s{n-1} }}\n"

        def f(ins):
            for t in range(n, k):
                yield t, z3.BoolVal(True), ins[t - n]["a"]

    return Seq(top, src, top, [("rst", Bool), ("a", T)], T, f, k)


def p13(tier, rng):
    out = []
    quick = tier == "quick"
    for q in range(500 if quick else 5000):
        r = random.Random(rng.getrandbits(64))
        src, top, m = machine(r, f"{q}")
        out.append(SeqCase(top, src, top, m))
    for q in range(120 if quick else 1000):
        out.append(reset_case(random.Random(rng.getrandbits(64)), f"{q}"))
    # registers without bits among others
    for i, (T, ini) in enumerate([(UInt(0), "0"), (Tuple(UInt(0), Int(0)), "(0, 0)"), (Array(UInt(0), 3), "[0, 0, 0]"), (Tuple(UInt(0), UInt(3)), "(0, 5)")]):
        for j, (rst, ini) in enumerate([("", ""), (" reset(rst: rv)", ""), (" reset(rst: rv)", f" initial({ini})"), ("", f" initial({ini})")]):
            top = f"zr{i}_{j}"
            O = Tuple(Bool, T)
            src = f"entity {top}(clk: clock, rst: bool, rv: {T.src}, a: {T.src}, b: bool) -> {O.src} {{ reg(clk) x{rst}{ini} = a; reg(clk) y = b; (y, x) }}\n"

            def f(ins, T=T, rst=rst):
                for t in (1, 2):
                    p = ins[t - 1]
                    yield t, z3.BoolVal(True), [p["b"], T.ite(is1(p["rst"]), p["rv"], p["a"]) if rst else p["a"]]

            out.append(Seq(top, src, top, [("rst", Bool), ("rv", T), ("a", T), ("b", Bool)], O, f, 3))
    return out


def p34(tier, rng):
    out = []
    for q in range(250 if tier == "quick" else 2500):
        r = random.Random(rng.getrandbits(64))
        src, top, m = machine(r, f"{q}", nclk=r.choice([2, 2, 3]))
        out.append(SeqCase(top, src, top, m))
    return out


PASSES = ["enum_clock_gating", "split_compound_regs"]


def p16(tier, rng):
    out = []
    quick = tier == "quick"
    sets = [[PASSES[0]], [PASSES[1]], PASSES, PASSES[::-1], []]
    for q in range(500 if quick else 5000):
        r = random.Random(rng.getrandbits(64))
        ps = sets[q % 5]
        how = r.random() < 0.5
        attr = ""
        if how or not ps:
            attr = f"#[optimize({', '.join(ps or PASSES)})]\n"
            ps = [] if ps else []
        src, top, m = machine(r, f"o{q}", attr=attr)
        out.append(SeqCase(top, src, top, m, opts=dict(opt=ps) if ps else {}))
    E = Enum("Og", [("A", []), ("B", [("x", UInt(0)), ("y", UInt(2))])])
    F = Enum("Of", [("A", []), ("B", [("x", UInt(0))])])
    types = [option(t) for t in (UInt(0), Tuple(UInt(0), Int(0)), Array(UInt(0), 2), Bool, UInt(1), UInt(5), Tuple(UInt(0), Bool), Tuple(Bool, UInt(3)), option(UInt(0)), option(UInt(2)))] + [E, F]
    for i, T in enumerate(types):
        for j, ps in enumerate(sets[:4]):
            for rst in ("", "reset(rst: rv) "):
                top = f"gz{i}_{j}{len(rst)}"
                src = "\n".join(t.decl() for t in (E, F)) + f"\nentity {top}(clk: clock, rst: bool, rv: {T.src}, a: {T.src}) -> {T.src} {{ reg(clk) x {rst}= a; x }}\n"

                def f(ins, rst=rst, T=T):
                    for t in (1, 2):
                        p = ins[t - 1]
                        yield t, z3.BoolVal(True), T.ite(is1(p["rst"]), p["rv"], p["a"]) if rst else p["a"]

                out.append(Seq(top, src, top, [("rst", Bool), ("rv", T), ("a", T)], T, f, 3, opts=dict(opt=ps)))
    return out
