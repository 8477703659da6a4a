"""P31: units written in Verilog get what the program gives them, and the other way around."""
import hashlib
import random
import z3
from ..check import Case, Ob, Violation, Verdict
from ..spec import *
from ..sym import cat, extract
from ..gen import Opts, fresh, leaves, subst
from .inouts import G


def plain(t):
    """every bit has a meaning"""
    return not isinstance(t, (Enum, ClockT)) and all(plain(m) for m in getattr(t, "members", [])) and (not isinstance(t, Array) or plain(t.inner))


def const(key, j, w):
    h = hashlib.sha256(repr((key, j)).encode()).digest() * (w // 256 + 1)
    return int.from_bytes(h, "big") & ((1 << w) - 1)


def place(b, j, w):
    return (b + 3 * (b // w) + j) % w


class Ext:
    """An external unit. ports: [(name, type, 'in'|'inv'|'both', no_mangle)]"""

    def __init__(self, name, path, kind, generics, ports, ret, mangled):
        self.name, self.path, self.kind, self.generics, self.ports, self.ret, self.mangled = name, path, kind, generics, ports, ret, mangled
        self.all = False

    def decl(self):
        gs = f"<{', '.join('#' + k + ' ' + n for n, k in self.generics)}>" if self.generics else ""
        ps = []
        for n, t, d, nm, src in self.ports:
            a = "#[no_mangle] " if nm and not self.all else ""
            s = {"in": src, "inv": f"inv {src}", "both": f"({src}, inv {src})"}[d]
            ps.append(f"{a}{n}: {s}")
        if self.kind == "entity" and self.clk:
            ps.insert(0, ("#[no_mangle] " if self.clk == "plain" and not self.all else "") + "clk: clock")
        attr = "#[no_mangle(all)] " if self.all else "" if self.mangled else "#[no_mangle] "
        ret = f" -> {self.ret.src}" if self.ret.w else ""
        return f"{attr}{'pub ' if '::' in self.path else ''}extern {self.kind} {self.name}{gs}({', '.join(ps)}){ret};"

    def module(self):
        return self.path if self.mangled else self.name

    def wires(self, types):
        """[(port, width)] in and out"""
        ins, outs = [], []
        for (n, _, d, nm, _), t in zip(self.ports, types):
            if d in ("in", "both") and t.w:
                ins.append((n if nm else n + "_i", t.w))
            if d in ("inv", "both") and t.w:
                outs.append((n if nm else n + "_o", t.w))
        if self.ret.w:
            outs.append(("output__", self.ret.w))
        return ins, outs

    def key(self, params):
        return (self.name, sorted((k, str(v)) for k, v in params.items()))

    def verilog(self, types, params):
        ins, outs = self.wires(types)
        ps = [f"input[{w - 1}:0] {n}" if w > 1 else f"input {n}" for n, w in ins]
        ps += [f"output[{w - 1}:0] {n}" if w > 1 else f"output {n}" for n, w in outs]
        if self.clk:
            ps.insert(0, "input " + ("clk" if self.clk == "plain" else "clk_i"))
        text = f"module \\{self.module()} ({', '.join(ps)});\n"
        for j, (n, w) in enumerate(outs):
            c = const(self.key(params), j, w)
            terms = [[f"1'b{c >> i & 1}"] for i in range(w)]
            b = 0
            for m, v in ins:
                for i in range(v):
                    terms[place(b, j, w)].append(f"{m}[{i}]" if v > 1 else m)
                    b += 1
            text += f"assign {n} = {{{', '.join(' ^ '.join(t) for t in reversed(terms))}}};\n"
        return text + "endmodule\n"

    def value(self, args, types, params):
        """({port: value}, result)"""
        ins, outs = self.wires(types)
        allb = []
        for (n, _, d, nm, _), t, a in zip(self.ports, types, args):
            if d in ("in", "both") and t.w:
                e = t.encode(a, None)
                allb += [extract(e, i, i) for i in range(t.w)]
        res = {}
        for j, (n, w) in enumerate(outs):
            c = const(self.key(params), j, w)
            bits = [z3.BitVecVal(c >> i & 1, 1) for i in range(w)]
            for b, x in enumerate(allb):
                k = place(b, j, w)
                bits[k] = bits[k] ^ x
            res[n] = cat(list(reversed(bits)))
        out = []
        for (n, _, d, nm, _), t in zip(self.ports, types):
            if d != "in":
                out.append(t.decode(res.get(n if nm else n + "_o")))
        return out, self.ret.decode(res.get("output__"))


class W:
    def __init__(self, r, uid):
        self.r, self.uid = r, uid
        self.g = G(r, uid, Opts(maxw=8))
        self.exts, self.items, self.insts = [], [], []
        self.n = 0

    def type(self):
        while True:
            t = self.g.small_type(2)
            if plain(t):
                return t

    def ext(self):
        r = self.r
        name = f"{r.choice(['ext', 'Mod', 'buffer_x', 'pad'])}{self.uid}_{len(self.exts)}"
        kind = r.choice(["fn", "entity", "entity"])
        gs = [(n, r.choice(["uint", "uint", "int", "str"])) for n in r.sample(["N", "M", "WIDTH", "S", "init"], r.choice([0, 0, 1, 2, 3]))]
        e = Ext(name, "", kind, gs, [], Tuple(), r.random() < 0.5)
        e.clk = r.choice(["", "", "plain", "mangled"]) if kind == "entity" else ""
        e.all = kind == "entity" and r.random() < 0.25
        us = [n for n, k in gs if k == "uint"]
        if e.all:
            e.mangled = False
            e.clk = e.clk and "plain"
        for i in range(r.randint(1, 4)):
            d = "in" if kind == "fn" or i == 0 else r.choice(["in", "in", "inv", "both"])
            if e.all and d == "both":
                d = "inv"
            nm = e.all or (d != "both" and r.random() < 0.4)
            n = r.choice(["a", "data", "x", "sig", "in_x"]) + str(i)
            if us and r.random() < 0.5:
                g = r.choice(us)
                k = r.choice(["uint<%s>", "int<%s>", "[bool; %s]", "(bool, uint<%s>)"])
                e.ports.append((n, (k, g), d, nm, k % g))
            else:
                t = self.type() if r.random() < 0.95 else Tuple()
                e.ports.append((n, t, d, nm, t.src))
        if not e.all and r.random() < 0.8:
            e.ret = self.type()
        mod = r.choice(["", f"v{self.uid}", f"v{self.uid}::deep"]) if r.random() < 0.6 else ""
        e.path = (mod + "::" if mod else "") + name
        self.items.append((mod, e.decl()))
        self.exts.append(e)
        return e

    def modules(self):
        """the declarations, each module once"""
        out = ""
        by = {}
        for m, d in self.items:
            by.setdefault(m, []).append(d)
        out += "\n".join(by.get("", [])) + "\n"
        a, b = by.get(f"v{self.uid}", []), by.get(f"v{self.uid}::deep", [])
        if a or b:
            out += f"mod v{self.uid} {{\n" + "\n".join(a) + ("\npub mod deep {\n" + "\n".join(b) + "\n}" if b else "") + "\n}\n"
        return out

    def concrete(self, e, vals):
        ts = []
        for n, t, d, nm, src in e.ports:
            if isinstance(t, tuple):
                k, g = t
                v = vals[g]
                t = {"uint<%s>": UInt, "int<%s>": Int, "[bool; %s]": lambda v: Array(Bool, v), "(bool, uint<%s>)": lambda v: Tuple(Bool, UInt(v))}[k](v)
            ts.append(t)
        return ts

    def pick(self, e):
        r = self.r
        vals = {}
        sized = {t[1] for _, t, _, _, _ in e.ports if isinstance(t, tuple)}
        for n, k in e.generics:
            if n in sized:
                vals[n] = r.choice([1, 2, 3, 5, 8, r.randint(1, 12)])
            elif k == "uint":
                vals[n] = r.choice([0, 1, 7, 255, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 5000000000, (1 << 63) + 5, r.randint(0, 1 << 40)])
            elif k == "int":
                vals[n] = r.choice([0, 1, -1, -5, 12, -(1 << 31), -(1 << 31) - 1, (1 << 31), -(1 << 40), r.randint(-1000, 1000)])
            else:
                vals[n] = r.choice(["", "x", "TRUE", "a b", "50%", "1.5", "it's", "back\\slash", "é", "(*", "//", "`x"])
        return vals

    def statements(self, sc):
        """a call of an external unit; extends sc"""
        r, g = self.r, self.g
        e = r.choice(self.exts)
        vals = self.pick(e)
        types = self.concrete(e, vals)
        key = {n: v for n, v in vals.items()}
        self.insts.append((e, types, key))
        out, args, rds, vs = "", [], [], []
        for (n, _, d, nm, _), t in zip(e.ports, types):
            k = f"{n}_{self.n}"
            if d == "in":
                a = g.expr(t, 2, sc) if t.w else Ex(t, "()", t.decode(None))
                args.append((n, a.s))
                vs.append(a.v)
                continue
            out += f"    let (r{k}, w{k}): ({t.src}, inv {t.src}) = port();\n"
            rds.append((f"r{k}", t))
            if d == "inv":
                args.append((n, f"w{k}"))
                vs.append(None)
            else:
                a = g.expr(t, 2, sc)
                args.append((n, f"({a.s}, w{k})"))
                vs.append(a.v)
        self.n += 1
        res, ret = e.value(vs, types, key)
        if e.clk:
            args.insert(0, ("clk", "clk"))
        lit = lambda v: f'"{v}"' if isinstance(v, str) else f"{{0 - {-v}}}" if v < 0 else str(v) if r.random() < 0.6 or v == 0 else f"{{{v - 1} + 1}}"
        tf = ""
        if e.generics:
            if r.random() < 0.3:
                tf = "::$<" + ", ".join(f"{n}: {lit(vals[n])}" for n, _ in r.sample(e.generics, len(e.generics))) + ">"
            else:
                tf = "::<" + ", ".join(lit(vals[n]) for n, _ in e.generics) + ">"
        inst = "inst " if e.kind == "entity" else ""
        us = [n for n, k in e.generics if k == "uint" and vals[n] > 0]
        if us and r.random() < 0.4 and not e.clk:
            # through a unit which is generic itself
            u = r.choice(us)
            nm = f"via{self.uid}_{self.n}"
            off = r.randint(0, min(2, vals[u] - 1)) if vals[u] else 0
            tfs = "::<" + ", ".join((f"{{K + {off}}}" if off else "K") if n == u else lit(vals[n]) for n, _ in e.generics) + ">"
            base = vals[u] - off
            ps, fw = [], []
            for (n, t, d, _, src), ct in zip(e.ports, types):
                s = ct.src if not isinstance(t, tuple) or t[1] != u else t[0] % (f"{{K + {off}}}" if off else "K")
                ps.append(n + ": " + {"in": s, "inv": f"inv {s}", "both": f"({s}, inv {s})"}[d])
                fw.append(n)
            ret_s = f" -> {e.ret.src}" if e.ret.w else ""
            deco = "#[inline] " if r.random() < 0.3 else ""
            self.extra.append(f"{deco}{e.kind} {nm}<#uint K>({', '.join(ps)}){ret_s} {{ {inst}{e.path}{tfs}({', '.join(fw)}){'' if e.ret.w else ';'} }}")
            call = f"{inst}{nm}::<{base}>({', '.join(s for _, s in args)})"
        elif r.random() < 0.3:
            l = list(args)
            r.shuffle(l)
            call = f"{inst}{e.path}{tf}$({', '.join(n + ': ' + s for n, s in l)})"
        else:
            call = f"{inst}{e.path}{tf}({', '.join(s for _, s in args)})"
        if e.ret.w:
            k = f"y{self.n}"
            out += f"    let {k}: {e.ret.src} = {call};\n"
            sc.append((k, Ex(e.ret, k, ret)))
        else:
            out += f"    {call};\n" if r.random() < 0.5 else f"    let _ = {call};\n"
        for (k, t), v in zip(rds, res):
            sc.append((k, Ex(t, k, v)))
        return out


class ExtCase(Case):
    def __init__(self, name, src, top, params, outs, insts, clk, all_, **kw):
        super().__init__(name, src, top, **kw)
        self.params, self.outs, self.insts, self.clk, self.all = params, outs, insts, clk, all_

    def obligations(self, ctx):
        d = ctx.design
        seen = []
        for e, types, key in self.insts:
            if e.module() in d:
                raise Violation("external unit", f"{e.module()} is defined by the compiler")

            def stub(ps, e=e):
                got = {n: v[1:-1].replace("\\\\", "\\").replace("\\'", "'") if isinstance(v, str) else v for n, v in ps.items()}
                for f, ts, k in self.insts:
                    if f is e and k == got:
                        seen.append((f.name, tuple(sorted(k.items(), key=str))))
                        return f.verilog(ts, k)
                raise Violation("parameters", f"{e.name} is instantiated with {got}; the program has {[k for f, _, k in self.insts if f is e]}")

            d.stubs[e.module()] = stub
        s = ctx.sim()
        fr = s.step()
        ports = [(a, n, w) for a, n, w in s.elab.top.module.ports]
        want = [("input", "clk", 1)] if self.clk else []
        for n, t, _ in self.params:
            if t.w:
                want.append(("input", n if self.all else n + "_i", t.w))
        for n, t, _ in self.outs:
            want.append(("output", n, t.w))
        if sorted(ports) != sorted(want):
            raise Violation("ports", f"{self.top} has the ports {ports}, the program says {want}")
        for e, types, key in self.insts:
            if (e.name, tuple(sorted(key.items(), key=str))) not in seen:
                raise Violation("instances", f"{e.name} is not instantiated with {key}")
        pairs, ok = [], []
        for n, t, v in self.params:
            if t.w:
                bits = fr.input(n if self.all else n + "_i", t.w)
                ok.append(t.ok(bits))
                pairs += list(zip(leaves(v), leaves(t.decode(bits))))
        for n, t, v in self.outs:
            w = subst(v, pairs)
            bits = fr.out(n)
            got = t.decode(bits)
            yield Ob(f"out {n}", [z3.Not(t.same(got, w))], [(0, "", n, bits)], ok, [("expected", t, w), ("actual", t, got)])


def make(r, uid):
    w = W(r, uid)
    w.extra = []
    w.g.declare_types(r.randint(0, 2))
    w.g.entity = True
    for _ in range(r.randint(1, 3)):
        w.ext()
    clk = any(e.clk for e in w.exts)
    params = [(n, w.g.small_type(2)) for n in ["a", "b", "c"][: r.randint(1, 3)]]
    pv = [fresh(t) for _, t in params]
    sc = [(n, Ex(t, n, v)) for (n, t), v in zip(params, pv)]
    body = "".join(w.statements(sc) for _ in range(r.randint(1, 4)))
    all_ = r.random() < 0.5
    outs = []
    new = sc[len(params):]
    es = [e for _, e in new] + [w.g.expr(w.g.small_type(2), 2, sc) for _ in range(r.choice([0, 1]))]
    es = es or [w.g.expr(w.g.small_type(2), 2, sc)]
    top = f"xt{uid}"
    ps = (["clk: clock"] if clk else []) + [f"{n}: {t.src}" for n, t in params]
    if clk:
        ps[0] = "clk: clock" if all_ else "#[no_mangle] clk: clock"
    if all_:
        for i, e in enumerate(es):
            n = f"q{i}"
            outs.append((n, e.ty, e.v))
            ps.append(f"{n}: inv {e.ty.src}")
            body += f"    set {n} = {e.s};\n"
        sig = f"#[no_mangle(all)]\nentity {top}({', '.join(ps)}) {{\n{body}}}"
    else:
        t = Tuple(*[e.ty for e in es]) if len(es) != 1 else es[0].ty
        v = [e.v for e in es] if len(es) != 1 else es[0].v
        outs.append(("output__", t, v))
        res = "(" + ", ".join(e.s for e in es) + ")" if len(es) != 1 else es[0].s
        sig = f"entity {top}({', '.join(ps)}) -> {t.src} {{\n{body}    {res}\n}}"
    src = "\n".join(w.g.items) + "\n" + w.modules() + "\n".join(w.extra) + "\n" + sig + "\n"
    return ExtCase(top, src, top, [(n, t, v) for (n, t), v in zip(params, pv)], [o for o in outs if o[1].w], w.insts, clk, all_)


VERDICTS = [
    ("extern entity e<T>(x: T) -> bool; entity top(a: bool) -> bool { inst e(a) }", False, "generic in a type"),
    ("extern entity e<#uint N>(x: uint<N>) -> bool; entity top(a: uint<4>) -> bool { inst e(a) }", True, "parameter inferred"),
    ("extern entity e<#uint N>(x: bool) -> bool; entity top(a: bool) -> bool { inst e(a) }", False, "parameter unknown"),
    ("extern entity e(x: bool) -> bool; entity top(a: bool) -> bool { e(a) }", False, "entity without inst"),
    ("extern fn e(x: bool) -> bool; entity top(a: bool) -> bool { inst e(a) }", False, "function with inst"),
    ("extern fn e(x: bool) -> bool; fn top(a: bool) -> bool { e(a) }", True, "function"),
    ("extern entity e(x: bool) -> bool; fn top(a: bool) -> bool { inst e(a) }", False, "entity in a function"),
    ("extern entity e(x: bool) -> bool; entity top(a: uint<1>) -> bool { inst e(a) }", False, "argument type"),
    ("extern entity e(x: bool) -> bool { x } entity top(a: bool) -> bool { inst e(a) }", False, "with a body"),
    ("#[no_mangle(all)] extern entity e(x: bool) -> bool; entity top(a: bool) -> bool { inst e(a) }", False, "output without a name"),
    ("#[no_mangle(all)] entity top(a: bool) -> bool { a }", False, "output without a name"),
    ("#[no_mangle(all)] entity top(a: bool, o: inv bool) { set o = a; }", True, "named output"),
    ("entity top(#[no_mangle] a: (bool, inv bool)) { set a.1 = a.0; }", False, "a name for two directions"),
    ("#[no_mangle(all)] entity top(a: (bool, inv bool)) { set a.1 = a.0; }", False, "a name for two directions"),
    ("extern pipeline(2) e(clk: clock, x: bool) -> bool; entity top(clk: clock, a: bool) -> bool { inst(2) e(clk, a) }", True, "pipeline"),
    ("extern pipeline(2) e(clk: clock, x: bool) -> bool; entity top(clk: clock, a: bool) -> bool { inst(3) e(clk, a) }", False, "pipeline depth"),
]


def p31(tier, rng):
    n = 500 if tier == "quick" else 6000
    out = [make(random.Random(rng.getrandbits(64)), f"{i}") for i in range(n)]
    for i, (src, want, why) in enumerate(VERDICTS):
        out.append(Verdict(f"form{i}", src + "\n", want, why))
    return out
