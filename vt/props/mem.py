"""P17 memories."""
import random
import z3
from ..check import Case, Seq, Verdict, Ob, Violation, in_val, out_val, OUT
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst
from ..sym import bv, ext
from .seq import const_expr

TRUE = z3.BoolVal(True)
HEAD = "use std::mem::clocked_memory;\nuse std::mem::clocked_memory_init;\nuse std::mem::read_memory;\n"


def addr_lit(i, aw):
    return f"{i}u{aw}"


class Mem(Case):
    """an entity with memories whose contents are shown by constant reads: one step from any contents,
    reads at computed addresses, and the initial contents"""

    def __init__(self, r, uid):
        g = Gen(r, uid, Opts(lam=0, call=1, maxw=7, budget=60))
        g.declare_types(r.randint(0, 3))
        self.ins = [(n, g.small_type(1)) for n in ("ia", "ib")] + [("en", Bool)]
        mems = []
        lines = []
        for k in range(r.choice([1, 1, 1, 2])):
            T = g.small_type(2)
            while T.w == 0:
                T = g.small_type(2)
            n = r.choice([1, 2, 2, 3, 4, 4, 5, 8])
            aw = (n - 1).bit_length()
            ports = r.choice([0, 1, 1, 1, 2, 2, 3])
            mems.append((f"m{k}", T, n, aw, ports, r.random() < 0.4))
            if aw:
                self.ins.append((f"ra{k}", UInt(aw)))
                for p in range(ports):
                    self.ins.append((f"wa{k}_{p}", UInt(aw)))
        pv = [fresh(t) for _, t in self.ins]
        self.pv = pv
        iv = dict(zip([n for n, _ in self.ins], pv))
        sc = [(n, Ex(t, n, v)) for (n, t), v in zip(self.ins, pv)]
        self.shown = []  # (label, type, state var, next, initial)
        self.dyn = []
        reads = []
        for name, T, n, aw, ports, init in mems:
            k = name[1:]
            st = [fresh(T) for _ in range(n)]
            ws, nxt = [], list(st)
            for p in range(ports):
                we = g.expr(Bool, r.choice([0, 1, 2]), sc)
                wv = iv.get(f"wa{k}_{p}")
                a = Ex(UInt(aw), f"wa{k}_{p}", wv) if aw else Ex(UInt(0), "z0", None)
                if aw and r.random() < 0.25:
                    a = g.expr(UInt(aw), 2, sc)
                d = g.expr(T, r.choice([0, 1, 2]), sc)
                ws.append(f"({we.s}, {a.s}, {d.s})")
                for i in range(n):
                    hit = is1(we.v) if not aw else z3.And(is1(we.v), a.v == bv(i, aw))
                    # of several writes to an address, the last port's stays
                    nxt[i] = T.ite(hit, d.v, nxt[i])
            warr = "[" + ", ".join(ws) + "]"
            if not aw:
                lines.append("let z0: uint<0> = 0;") if "let z0: uint<0> = 0;" not in lines else None
            if r.random() < 0.3 and ports:
                lines.append(f"let w{k} = {warr};")
                warr = f"w{k}"
            iv0 = None
            fn = "clocked_memory"
            args = [("clk", "clk"), ("writes", warr)]
            if init:
                c = const_expr(g, Array(T, n))
                iv0 = c.v
                fn = "clocked_memory_init"
                args.append(("initial_values", c.s))
            gen = f"::<{n}, {ports}, {aw}, {T.src}>" if r.random() < 0.3 or not ports else ""
            if r.random() < 0.4:
                r.shuffle(args)
                call = f"inst {fn}{gen}$({', '.join(f'{x}: {y}' if x != y else x for x, y in args)})"
            else:
                call = f"inst {fn}{gen}({', '.join(y for _, y in args)})"
            lines.append(f"let {name}: Memory<{T.src}, {n}> = {call};")
            use = name
            if r.random() < 0.2:
                lines.append(f"let al{k} = {name};")
                use = f"al{k}"
            for i in range(n):
                a = addr_lit(i, aw) if aw else "z0"
                call = f"inst read_memory({use}, {a})" if r.random() < 0.7 else f"inst read_memory$(addr: {a}, mem: {use})"
                self.shown.append((f"{name}[{i}]", T, st[i], nxt[i], None if iv0 is None else iv0[i]))
                reads.append(call)
            if aw:
                a = Ex(UInt(aw), f"ra{k}", iv[f"ra{k}"])
                v = st[n - 1]
                for i in range(n - 2, -1, -1):
                    v = T.ite(a.v == bv(i, aw), st[i], v)
                # a read past the end gives nothing in particular
                self.dyn.append((f"{name}[ra]", T, v, z3.ULE(a.v, bv(n - 1, aw))))
                reads.append(f"inst read_memory({use}, ra{k})")
            else:
                self.dyn.append((f"{name}[0]", T, st[0], TRUE))
                reads.append(f"inst read_memory({use}, z0)")
        # the order of the output: for each memory its elements, then the computed read
        order, di, si = [], iter(self.dyn), iter(self.shown)
        for name, T, n, aw, ports, init in mems:
            order += [next(si) for _ in range(n)] + [next(di)]
        self.order = order
        self.otype = Tuple(*[o[1] for o in order], Bool)
        top = f"mm{uid}"
        sig = ", ".join(["clk: clock"] + [f"{n}: {t.src}" for n, t in self.ins])
        body = "\n    ".join(x for x in lines if x) + f"\n    ({', '.join(reads)}, false)"
        g.items.append(f"entity {top}({sig}) -> {self.otype.src} {{\n    {body}\n}}")
        super().__init__(top, HEAD + "\n".join(g.items) + "\n", top, solo=True)

    def obligations(self, ctx):
        s = ctx.sim(free_init=True, tag="t.")
        fr = [s.step(), s.step()]
        ok, pairs, p0 = [], [], []
        for i, f in enumerate(fr):
            for (n, t), v in zip(self.ins, self.pv):
                x, o = in_val(f, n, t)
                ok.append(o)
                if i == 0:
                    p0 += list(zip(leaves(v), leaves(x)))
        outs = [out_val(f, self.otype) for f in fr]
        idx = {id(o): i for i, o in enumerate(self.order)}
        pos = self.otype.w
        for o in self.order:
            pos -= o[1].w
            if len(o) == 5:
                ok.append(o[1].ok(z3.Extract(pos + o[1].w - 1, pos, outs[0][1])))
        for o in self.shown:
            p0 += list(zip(leaves(o[2]), leaves(outs[0][0][idx[id(o)]])))
        probes = [(0, "", OUT, outs[0][1]), (1, "", OUT, outs[1][1])]
        for o in self.dyn:
            l, t, v, pre = o
            want, got = subst(v, p0), outs[0][0][idx[id(o)]]
            yield Ob(f"read {l}", [z3.substitute(pre, *p0), z3.Not(t.same(got, want))], probes[:1], ok, [("expected", t, want), ("actual", t, got)])
        for o in self.shown:
            l, t, v, x, init = o
            want, got = subst(x, p0), outs[1][0][idx[id(o)]]
            yield Ob(f"next {l}", [z3.Not(t.same(got, want))], probes, ok, [("expected", t, want), ("actual", t, got)])
        if any(o[4] is not None for o in self.shown):
            s2 = ctx.sim(tag="i.")
            f = s2.step()
            v, b = out_val(f, self.otype)
            for o in self.shown:
                if o[4] is not None:
                    got = v[idx[id(o)]]
                    yield Ob(f"initial {o[0]}", [z3.Not(o[1].same(got, o[4]))], [(0, "", OUT, b, s2)], [], [("expected", o[1], o[4]), ("actual", o[1], got)])


BAD = [
    ("addr_width_w", "entity top(clk: clock, d: uint<4>, a: uint<2>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory::<2, 1, 2, uint<4>>(clk, [(false, a, d)]); inst read_memory(m, 0) }", "an address width given that does not fit the size"),
    ("addr_width_i", "entity top(clk: clock, d: uint<4>, a: uint<2>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory_init::<2, 1, 2, uint<4>>(clk, [(false, a, d)], [0, 1]); inst read_memory(m, 0) }", "an address width given that does not fit the size"),
    ("addr_width_r", "entity top(clk: clock, d: uint<4>, a: uint<2>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory(clk, [(false, 0u1, d)]); inst read_memory::<2, uint<4>, 2>(m, a) }", "an address width given that does not fit the size"),
    ("addr_wide", "entity top(clk: clock, d: uint<4>, a: uint<2>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory(clk, [(false, a, d)]); inst read_memory(m, 0u1) }", "a write address of another width"),
    ("non_const", "entity top(clk: clock, d: uint<4>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory_init(clk, [(false, 0u1, 0)], [d, 1]); inst read_memory(m, 0u1) }", "initial contents that are not constant"),
    ("wrong_count", "entity top(clk: clock, d: uint<4>) -> uint<4> { let m: Memory<uint<4>, 3> = inst clocked_memory_init(clk, [(false, 0u1, 0)], [0, 1]); inst read_memory(m, 0u1) }", "two initial values for three elements"),
    ("wrong_type", "entity top(clk: clock, d: uint<5>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory(clk, [(false, 0u1, d)]); inst read_memory(m, 0u1) }", "writes another type"),
    ("in_reg", "entity top(clk: clock, d: uint<4>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory(clk, [(false, 0u1, d)]); reg(clk) n = m; inst read_memory(n, 0u1) }", "a memory in a register"),
    ("read_other", "entity top(clk: clock, d: uint<4>) -> uint<4> { inst read_memory(d, 0u1) }", "reads something else"),
    ("big_init", "entity top(clk: clock, d: uint<4>) -> uint<4> { let m: Memory<uint<4>, 2> = inst clocked_memory_init(clk, [(false, 0u1, 0)], [16, 1]); inst read_memory(m, 0u1) }", "an initial value that does not fit"),
]


def p17(tier, rng):
    quick = tier == "quick"
    out = [Verdict(n, HEAD + s + "\n", False, w) for n, s, w in BAD]
    for q in range(260 if quick else 2600):
        out.append(Mem(random.Random(rng.getrandbits(64)), f"{q}"))
    return out
