"""P09 calls and generics, P10 lambdas, P11 type level computation, P12 traits."""
import random
import z3
from ..check import Comb, Verdict
from ..spec import *
from ..gen import Gen, Opts, program, fresh, leaves, subst
from .data import comb, rand_type, rand_enum, dedecl


# ------------------------------------------------------------------ parametric programs
class PT:
    """a type with type variables"""

    def __init__(self, src, inst):
        self.src, self.inst = src, inst


def pv(n):
    return PT(n, lambda m: m[n])


def ptup(*ts):
    return PT("(" + ", ".join(t.src for t in ts) + ")", lambda m: Tuple(*[t.inst(m) for t in ts]))


def parr(t, n):
    return PT(f"[{t.src}; {n}]", lambda m: Array(t.inst(m), n))


def popt(t):
    return PT(f"Option<{t.src}>", lambda m: option(t.inst(m)))


def pconst(t):
    return PT(t.src, lambda m: t)


def puint(src, f, cls=UInt):
    nm = "uint" if cls is UInt else "int"
    return PT(f"{nm}<{src}>", lambda m: cls(f(m)))


class PGen:
    """A random generic function: text once, meaning per instance."""

    def __init__(self, r, uid):
        self.r, self.uid = r, uid
        self.cnt = 0
        self.funs = []

        def pstruct(a, b):
            return PT(f"Pr{uid}<{a.src}, {b.src}>", lambda m: Struct(f"Pr{uid}", [("l", a.inst(m)), ("r", b.inst(m))], f"<{a.inst(m).src}, {b.inst(m).src}>"))

        def penum(a, b):
            return PT(f"Ei{uid}<{a.src}, {b.src}>", lambda m: Enum(f"Ei{uid}", [("Nil", []), ("L", [("v", a.inst(m))]), ("R", [("v", b.inst(m)), ("k", Bool)])], f"<{a.inst(m).src}, {b.inst(m).src}>"))

        self.pstruct, self.penum = pstruct, penum
        self.decls = f"struct Pr{uid}<A, B> {{ l: A, r: B }}\nenum Ei{uid}<A, B> {{ Nil, L{{v: A}}, R{{v: B, k: bool}} }}\n"
        self.kinds = {}

    def ptype(self, d, tvs):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.4:
            t = r.choice(tvs)
        elif k < 0.55:
            ts = [self.ptype(d - 1, tvs) for _ in range(r.randint(2, 3))]
            t = ptup(*ts)
            self.kinds[t.src] = ("tup", ts)
        elif k < 0.65:
            e = self.ptype(d - 1, tvs)
            n = r.choice([1, 2, 3])
            t = parr(e, n)
            self.kinds[t.src] = ("arr", e, n)
        elif k < 0.78:
            e = self.ptype(d - 1, tvs)
            t = popt(e)
            self.kinds[t.src] = ("opt", e)
        elif k < 0.9:
            a, b = self.ptype(d - 1, tvs), self.ptype(d - 1, tvs)
            t = self.pstruct(a, b)
            self.kinds[t.src] = ("str", a, b)
        else:
            a, b = self.ptype(d - 1, tvs), self.ptype(d - 1, tvs)
            t = self.penum(a, b)
            self.kinds[t.src] = ("enu", a, b)
        return t

    # an expression is (text, f) with f(m, env) -> value
    def expr(self, t, d, scope):
        r = self.r
        vs = [n for n, x in scope if x.src == t.src]
        opts = []
        if vs:
            opts += ["var"] * (3 if d > 0 else 10)
        kind = self.kinds.get(t.src)
        if kind:
            opts += ["cons"] * 3
        if d > 0:
            opts += ["if"]
            if any(self.contains(x, t) for _, x in scope):
                opts += ["proj"] * 3
            if self.funs:
                opts += ["call"]
        if t.src == "bool" and d > 0:
            opts += ["not", "and"]
        if not opts:
            raise Retry()
        k = r.choice(opts)
        if k == "var":
            n = r.choice(vs)
            return n, lambda m, e: e[n]
        if k == "not":
            s, f = self.expr(t, d - 1, scope)
            return f"!{s}", lambda m, e: ~f(m, e)
        if k == "and":
            s, f = self.expr(t, d - 1, scope)
            s2, f2 = self.expr(t, d - 1, scope)
            return f"({s} && {s2})", lambda m, e: f(m, e) & f2(m, e)
        if k == "if":
            c, cf = self.expr(BOOL, d - 1, scope)
            a, af = self.expr(t, d - 1, scope)
            b, bf = self.expr(t, d - 1, scope)
            return f"(if {c} {{ {a} }} else {{ {b} }})", lambda m, e: t.inst(m).ite(is1(cf(m, e)), af(m, e), bf(m, e))
        if k == "cons":
            return self.cons(t, kind, d, scope)
        if k == "proj":
            n, x = r.choice([(n, x) for n, x in scope if self.contains(x, t)])
            return self.proj(n, lambda m, e, n=n: e[n], x, t, d, scope)
        if k == "call":
            # a generic function applied at other types
            g = r.choice(self.funs)
            out = self.match_out(g, t)
            if out is None:
                if vs:
                    n = vs[0]
                    return n, lambda m, e: e[n]
                raise Retry()
            args = [self.expr(self.substv(p, out), d - 1, scope) for _, p in g["params"]]
            g_env = out

            def f(m, e, g=g, args=args, g_env=g_env):
                m2 = {k: PT_inst(v, m) for k, v in g_env.items()}
                return g["f"](m2, {n: a[1](m, e) for (n, _), a in zip(g["params"], args)})

            # spelled out where inference could be left without a unique answer
            tf = "::<" + ", ".join(out[v].src for v in g["tvs"]) + ">" if any(len(x.src) > 5 for x in out.values()) else ""
            return f"{g['name']}{tf}({', '.join(a[0] for a in args)})", f
        raise KeyError(k)

    def match_out(self, g, t):
        """bind the callee's type variables so that it returns t"""
        if g["out"].src in g["tvs"]:
            m = {g["out"].src: t}
            for v in g["tvs"]:
                if v not in m:
                    m[v] = self.r.choice([BOOL, t])
            return m
        return None

    def substv(self, p, m):
        """the callee's parameter type in terms of the caller's variables"""
        if p.src in m:
            return m[p.src]
        k = self.kinds.get(p.src)
        if not k:
            return p
        if k[0] == "tup":
            ts = [self.substv(x, m) for x in k[1]]
            t = ptup(*ts)
            self.kinds[t.src] = ("tup", ts)
        elif k[0] == "arr":
            e = self.substv(k[1], m)
            t = parr(e, k[2])
            self.kinds[t.src] = ("arr", e, k[2])
        elif k[0] == "opt":
            e = self.substv(k[1], m)
            t = popt(e)
            self.kinds[t.src] = ("opt", e)
        else:
            a, b = self.substv(k[1], m), self.substv(k[2], m)
            t = (self.pstruct if k[0] == "str" else self.penum)(a, b)
            self.kinds[t.src] = (k[0], a, b)
        return t

    def contains(self, x, t):
        k = self.kinds.get(x.src)
        if not k:
            return False
        if k[0] == "tup":
            return any(y.src == t.src for y in k[1])
        if k[0] in ("arr", "opt"):
            return k[1].src == t.src
        return t.src in (k[1].src, k[2].src)

    def proj(self, n, f, x, t, d, scope):
        r = self.r
        k = self.kinds[x.src]
        if k[0] == "tup":
            i = r.choice([i for i, y in enumerate(k[1]) if y.src == t.src])
            return f"{n}.{i}", lambda m, e: f(m, e)[i]
        if k[0] == "arr":
            i = r.randrange(k[2])
            return f"{n}[{i}]", lambda m, e: f(m, e)[i]
        if k[0] == "opt":
            s, df = self.expr(t, d - 1, scope)
            return f"(match {n} {{ Some(q) => q, None => {s} }})", lambda m, e: t.inst(m).ite(x.inst(m).is_(f(m, e), 1), f(m, e)[1][1][0], df(m, e))
        if k[0] == "str":
            i = r.choice([i for i, y in enumerate(k[1:]) if y.src == t.src])
            return f"{n}.{'lr'[i]}", lambda m, e: f(m, e)[i]
        i = r.choice([i for i, y in enumerate(k[1:]) if y.src == t.src])
        s, df = self.expr(t, d - 1, scope)
        pat = f"Ei{self.uid}::L(q)" if i == 0 else f"Ei{self.uid}::R(q, _)"
        return f"(match {n} {{ {pat} => q, _ => {s} }})", lambda m, e: t.inst(m).ite(x.inst(m).is_(f(m, e), i + 1), f(m, e)[1][i + 1][0], df(m, e))

    def cons(self, t, k, d, scope):
        r = self.r
        if k[0] == "tup":
            xs = [self.expr(y, d - 1, scope) for y in k[1]]
            return "(" + ", ".join(s for s, _ in xs) + ")", lambda m, e: [f(m, e) for _, f in xs]
        if k[0] == "arr":
            xs = [self.expr(k[1], d - 1, scope) for _ in range(k[2])]
            return "[" + ", ".join(s for s, _ in xs) + "]", lambda m, e: [f(m, e) for _, f in xs]
        if k[0] == "opt":
            s, f = self.expr(k[1], d - 1, scope)
            return f"Some({s})", lambda m, e: t.inst(m).make(1, [f(m, e)])
        if k[0] == "str":
            xs = [self.expr(y, d - 1, scope) for y in k[1:]]
            if r.random() < 0.5:
                return f"Pr{self.uid}({xs[0][0]}, {xs[1][0]})", lambda m, e: [f(m, e) for _, f in xs]
            return f"Pr{self.uid}$(r: {xs[1][0]}, l: {xs[0][0]})", lambda m, e: [f(m, e) for _, f in xs]
        if r.random() < 0.5:
            s, f = self.expr(k[1], d - 1, scope)
            return f"Ei{self.uid}::L({s})", lambda m, e: t.inst(m).make(1, [f(m, e)])
        s, f = self.expr(k[2], d - 1, scope)
        s2, f2 = self.expr(BOOL, d - 1, scope)
        return f"Ei{self.uid}::R({s}, {s2})", lambda m, e: t.inst(m).make(2, [f(m, e), f2(m, e)])


def PT_inst(t, m):
    return t.inst(m)


class Retry(Exception):
    pass


BOOL = pconst(Bool)


def generic_program(r, uid):
    """(source, cases): generic functions, and monomorphic units that call them at several types"""
    while True:
        try:
            g = PGen(r, uid)
            text = g.decls
            for i in range(r.randint(1, 3)):
                tvs = ["T", "U"][: r.choice([1, 2, 2])]
                tv = [pv(x) for x in tvs] + [BOOL]
                params = [(f"p{j}", g.ptype(2, tv)) for j in range(r.randint(1, 3))] + [("c", BOOL)]
                # every variable occurs in the parameters
                for v in tvs:
                    params.append((f"z{v}", pv(v)))
                r.shuffle(params)
                out = r.choice([pv(r.choice(tvs)), g.ptype(2, tv), r.choice(params)[1]])
                s, f = g.expr(out, r.choice([2, 3, 4]), params)
                name = f"gf{uid}_{i}"
                kind = r.choice(["fn", "fn", "#[inline]\nfn"])
                text += f"{kind} {name}<{', '.join(tvs)}>({', '.join(f'{n}: {t.src}' for n, t in params)}) -> {out.src} {{\n    {s}\n}}\n"
                g.funs.append(dict(name=name, params=params, out=out, tvs=tvs, f=f))
            break
        except Retry:
            continue
    return text, g


def instances(r, uid, text, g, n):
    fn = g.funs[-1]
    out = []
    for k in range(n):
        m = {v: rand_type(r, r.choice([0, 0, 1, 2])) for v in fn["tvs"]}
        if any(t.w == 0 or t.w > 60 for t in m.values()):
            continue
        ins = [(x, t.inst(m)) for x, t in fn["params"]]
        o = fn["out"].inst(m)
        if sum(t.w for _, t in ins) > 900:
            continue
        out.append((m, ins, o, fn))
    return out


def p09(tier, rng):
    out = []
    quick = tier == "quick"
    for q in range(160 if quick else 1600):
        r = random.Random(rng.getrandbits(64))
        text, g = generic_program(r, f"{q}")
        insts = instances(r, f"{q}", text, g, 4)
        # all the instances live in one program, so that they can be mixed up
        units = ""
        cs = []
        for k, (m, ins, o, fn) in enumerate(insts):
            nm = f"use{q}_{k}"
            tf = "::<" + ", ".join(m[v].src for v in fn["tvs"]) + ">" if r.random() < 0.5 else ""
            if r.random() < 0.3:
                perm = list(ins)
                r.shuffle(perm)
                call = f"{fn['name']}{tf}$({', '.join(f'{n}: {n}' if r.random() < 0.5 else n for n, _ in perm)})"
            else:
                call = f"{fn['name']}{tf}({', '.join(n for n, _ in ins)})"
            units += f"fn {nm}({', '.join(f'{n}: {t.src}' for n, t in ins)}) -> {o.src} {{ {call} }}\n"
            cs.append((nm, ins, o, lambda m=m, fn=fn, **v: fn["f"](m, v)))
        for nm, ins, o, f in cs:
            out.append(Comb(nm, text + units, nm, ins, o, f, group=f"g{q}"))
    # positional, named, mixed types and repeated calls
    for q in range(120 if quick else 800):
        r = random.Random(rng.getrandbits(64))
        n = r.randint(2, 6)
        T = r.choice([UInt(5), UInt(5), Int(4), Bool, Tuple(Bool, UInt(3))])
        ps = [f"{r.choice('abcdxyz')}{i}" for i in range(n)]
        R = Tuple(*[T] * n)
        perm = list(range(n))
        r.shuffle(perm)
        kind = r.choice(["fn", "entity", "#[inline]\nfn", "#[inline]\nentity"])
        callee = f"{kind} cal{q}({', '.join(f'{p}: {T.src}' for p in ps)}) -> {R.src} {{ ({', '.join(ps[i] for i in perm)}) }}\n"
        ins = [(f"i{j}", T) for j in range(n)]

        def call(order, named, r=r):
            i = "inst " if "entity" in kind else ""
            if not named:
                return f"{i}cal{q}({', '.join(f'i{j}' for j in order)})"
            ps2 = list(zip(ps, order))
            r.shuffle(ps2)
            return f"{i}cal{q}$({', '.join(f'{p}: i{j}' for p, j in ps2)})"

        o1, o2 = [r.randrange(n) for _ in range(n)], [r.randrange(n) for _ in range(n)]
        body = f"let one = {call(o1, r.random() < 0.6)}; let two = {call(o2, r.random() < 0.6)}; (two, one)"
        nm = f"args{q}"

        def f(o1=o1, o2=o2, perm=perm, **v):
            return [[v[f"i{o2[i]}"] for i in perm], [v[f"i{o1[i]}"] for i in perm]]

        out.append(Comb(nm, callee + f"entity {nm}({', '.join(f'{a}: {t.src}' for a, t in ins)}) -> {Tuple(R, R).src} {{ {body} }}\n", nm, ins, Tuple(R, R), f))
        if q % 3 == 0:
            # a method: self first
            S = Struct(f"Me{q}", [("u", T), ("v", T)])
            src = f"struct Me{q} {{ u: {T.src}, v: {T.src} }}\nimpl Me{q} {{\n  {kind.replace('entity', 'fn')} mm(self, p: {T.src}, s: {T.src}) -> {Tuple(T, T, T, T).src} {{ (self.v, s, self.u, p) }}\n}}\n"
            call = r.choice(["x.mm(y, z)", "x.mm$(s: z, p: y)", "x.mm$(p: y, s: z)"])
            out.append(Comb(f"meth{q}", src + f"fn meth{q}(x: {S.src}, y: {T.src}, z: {T.src}) -> {Tuple(T, T, T, T).src} {{ {call} }}\n", f"meth{q}", [("x", S), ("y", T), ("z", T)], Tuple(T, T, T, T),
                            lambda x, y, z: [x[1], z, x[0], y]))
    # composite programs rich in calls
    for i in range(200 if quick else 2000):
        r = random.Random(rng.getrandbits(64))
        src, top, ins, t, f = program(r, f"c{i}", depth=r.choice([3, 4, 5]), opts=Opts(call=14, op=3, lam=0, maxw=6))
        out.append(Comb(f"calls{i}", src, top, ins, t, f))
    # calls that do not fit
    bad = [
        ("missing", "f(a)", False), ("extra", "f(a, b, a)", False), ("ok", "f(a, b)", True), ("swapped", "f(b, a)", False), ("named", "f$(y: b, x: a)", True),
        ("twice", "f$(x: a, x: a, y: b)", False), ("unknown", "f$(x: a, z: b)", False), ("lacking", "f$(x: a)", False), ("short", "{ let x = a; let y = b; f$(y, x) }", True),
        ("inst", "inst f(a, b)", False), ("undefined", "q(a, b)", False), ("turbo", "f::<bool>(a, b)", False),
    ]
    for n, call, want in bad:
        out.append(Verdict(f"fit_{n}", f"fn f(x: bool, y: uint<3>) -> bool {{ x }}\nfn t(a: bool, b: uint<3>) -> bool {{ {call} }}\n", want, "arguments fit the parameters"))
    out.append(Verdict("fit_ent", "entity f(x: bool) -> bool { x }\nentity t(a: bool) -> bool { f(a) }\n", False, "entities are instantiated"))
    out.append(Verdict("fit_fnent", "entity f(x: bool) -> bool { x }\nfn t(a: bool) -> bool { inst f(a) }\n", False, "functions hold no instances"))
    out.append(Verdict("fit_reg", "fn t(c: clock, a: bool) -> bool { reg(c) x = a; x }\n", False, "functions hold no registers"))
    return out


# ------------------------------------------------------------------ P10
def p10(tier, rng):
    out = []
    quick = tier == "quick"
    k = 0
    for q in range(220 if quick else 2200):
        r = random.Random(rng.getrandbits(64))
        nm = f"lm{q}"
        n = r.randint(1, 3)
        T = r.choice([UInt(4), Int(5), Tuple(Bool, UInt(3)), option(UInt(2)), Array(Bool, 3)])
        # captured values, parameters with the same names, captures of captures
        ins = [("a", T), ("b", T), ("c", Bool), ("d", Bool)]
        form = q % 11
        if form == 0:
            src = f"fn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ let f = fn |x, y| {{ if c {{ x }} else {{ y }} }}; f.call((b, a)) }}"
            f = lambda a, b, c, d, T=T: T.ite(is1(c), b, a)
        elif form == 1:
            # a parameter hides what is outside
            src = f"fn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ let f = fn |c, a| {{ if c {{ a }} else {{ b }} }}; f.call((d, b)) }}"
            f = lambda a, b, c, d, T=T: b
        elif form == 2:
            src = f"fn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ let f = fn |a| {{ if d {{ a }} else {{ b }} }}; if c {{ f.call((a,)) }} else {{ f.call((b,)) }} }}"
            f = lambda a, b, c, d, T=T: T.ite(z3.And(is1(c), is1(d)), a, b)
        elif form == 3:
            src = f"fn h{nm}(f: impl Fn(T) -> T, x: T) -> T {{ f.call((f.call((x,)),)) }}\nfn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ h{nm}(fn |x| {{ if c {{ b }} else {{ x }} }}, a) }}"
            f = lambda a, b, c, d, T=T: T.ite(is1(c), b, a)
        elif form == 4:
            # the value captured is the one at the definition
            src = f"fn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ let v = a; let f = fn |x| {{ if x {{ v }} else {{ b }} }}; let v = b; let w = v; if d {{ w }} else {{ f.call((c,)) }} }}"
            f = lambda a, b, c, d, T=T: T.ite(is1(d), b, T.ite(is1(c), a, b))
        elif form == 5:
            src = f"fn h{nm}<A, B>(f: impl Fn(A) -> B, x: A) -> B {{ f.call((x,)) }}\nfn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ let p: (T, bool) = h{nm}(fn |x| {{ (x, c) }}, a); let q: T = h{nm}(fn |z| {{ if z {{ p.0 }} else {{ b }} }}, p.1); q }}"
            f = lambda a, b, c, d, T=T: T.ite(is1(c), a, b)
        elif form == 6:
            src = f"fn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ let f = fn |(x, y), z| {{ if z {{ x }} else {{ y }} }}; f.call(((a, b), d)) }}"
            f = lambda a, b, c, d, T=T: T.ite(is1(d), a, b)
        elif form == 7:
            # two lambdas with the same shape but different captures
            src = f"fn {nm}(a: T, b: T, c: bool, d: bool) -> (T, T) {{ let f = fn |x| {{ if x {{ a }} else {{ b }} }}; let g = fn |x| {{ if x {{ b }} else {{ a }} }}; (f.call((c,)), g.call((d,))) }}"
            f = lambda a, b, c, d, T=T: [T.ite(is1(c), a, b), T.ite(is1(d), b, a)]
        elif form == 8:
            src = f"fn h{nm}<#uint N>(xs: [T; N], f: impl Fn(T) -> bool) -> [bool; N] {{ xs.map(f) }}\nfn {nm}(a: T, b: T, c: bool, d: bool) -> [bool; 2] {{ h{nm}([a, b], fn |x| {{ if c {{ x == a }} else {{ d }} }}) }}"
            if not isinstance(T, (UInt, Int)):
                T = UInt(6)
                ins = [("a", T), ("b", T), ("c", Bool), ("d", Bool)]
            f = lambda a, b, c, d, T=T: [ite(is1(c), bv(1, 1), d), ite(is1(c), tob(a == b), d)]
        elif form == 9:
            src = f"fn h{nm}(f: impl Fn(bool) -> T, g: impl Fn(bool) -> T, s: bool) -> (T, T) {{ (f.call((s,)), g.call((s,))) }}\nfn {nm}(a: T, b: T, c: bool, d: bool) -> (T, T) {{ h{nm}(fn |x| {{ if x {{ a }} else {{ b }} }}, fn |x| {{ if x && c {{ b }} else {{ a }} }}, d) }}"
            f = lambda a, b, c, d, T=T: [T.ite(is1(d), a, b), T.ite(z3.And(is1(d), is1(c)), b, a)]
        else:
            # a lambda passed on through a generic chain
            src = (f"fn i{nm}<F>(f: F, x: bool) -> T where F: Fn(bool) -> T {{ f.call((!x,)) }}\n"
                   if False else f"fn i{nm}(f: impl Fn(bool) -> T, x: bool) -> T {{ f.call((!x,)) }}\n") + f"fn h{nm}(f: impl Fn(bool) -> T, x: bool) -> T {{ i{nm}(f, !x) }}\nfn {nm}(a: T, b: T, c: bool, d: bool) -> T {{ h{nm}(fn |x| {{ if x && d {{ a }} else {{ b }} }}, c) }}"
            f = lambda a, b, c, d, T=T: T.ite(z3.And(is1(c), is1(d)), a, b)
        O = Tuple(T, T) if form in (7, 9) else Array(Bool, 2) if form == 8 else T
        import re

        src = re.sub(r"\bT\b", T.src, src) + "\n"
        out.append(Comb(nm, src, nm, ins, O, f))
    for i in range(250 if quick else 2500):
        r = random.Random(rng.getrandbits(64))
        src, top, ins, t, f = program(r, f"l{i}", depth=r.choice([3, 4, 5]), opts=Opts(lam=14, call=2, op=3, maxw=6))
        out.append(Comb(f"lam{i}", src, top, ins, t, f))
    # nested lambdas
    out.append(Comb("nested1", "fn nested1(a: uint<4>, b: uint<4>, c: bool) -> uint<4> { let f = fn |x| { let x: uint<4> = x; let g = fn |y| { let y: uint<4> = y; if c { x } else { y } }; g.call((b,)) }; f.call((a,)) }\n",
                    "nested1", [("a", UInt(4)), ("b", UInt(4)), ("c", Bool)], UInt(4), lambda a, b, c: ite(is1(c), a, b)))
    out.append(Comb("nested2", "fn nested2(q: (bool, int<5>)) -> int<5> { let f = fn |q1| { let q1: (bool, int<5>) = q1; let g = fn |r| { let r: int<5> = r; r }; g.call(({ let h = fn |z| { let z: bool = z; let w: int<5> = q1.1; w }; h.call((true,)) },)) }; f.call((q,)) }\n",
                    "nested2", [("q", Tuple(Bool, Int(5)))], Int(5), lambda q: q[1]))
    for n, body, want in [
        ("arity0", "let f = fn |x| { x }; f.call((a, b))", False), ("arity1", "let f = fn |x, y| { x && y }; f.call((a,))", False), ("type", "let f = fn |x| { !x }; f.call((c,))", False),
        ("okay", "let f = fn |x| { !x }; f.call((a,))", True), ("impl", "h(fn |x| { x })", True), ("implbad", "h(fn |x| { 3u4 })", False), ("implarity", "h(fn |x, y| { x })", False),
    ]:
        out.append(Verdict(f"lv_{n}", f"fn h(f: impl Fn(bool) -> bool) -> bool {{ f.call((true,)) }}\nfn t(a: bool, b: bool, c: uint<4>) -> bool {{ {body} }}\n", want, "lambda arguments fit"))
    return out


# ------------------------------------------------------------------ P11
class TE:
    """type level integer expressions"""

    def __init__(self, r, vars_, bools=(), strs=(), signed=False):
        self.r, self.vars, self.bools, self.strs, self.signed = r, vars_, list(bools), list(strs), signed

    def int_(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            if r.random() < 0.6:
                v = r.choice(list(self.vars))
                return v, lambda m: m[v]
            n = r.choice([0, 1, 2, 3, 5, 7, 8, 16, 100])
            return str(n), lambda m: n
        if self.signed and k > 0.92:
            a, fa = self.int_(d - 1)
            if r.random() < 0.5:
                return f"(-{a})", lambda m: -fa(m)

            def ib(m):
                x = fa(m)
                if x in (0, -1):
                    # one bit would do; how zero is treated is documented nowhere
                    raise Undefined()
                return (x if x >= 0 else -x - 1).bit_length() + 1

            return f"int::bits_for({a})", ib
        if k < 0.88:
            op = r.choice("+-*+-*/%")
            a, fa = self.int_(d - 1)
            b, fb = self.int_(d - 1)

            def f(m):
                x, y = fa(m), fb(m)
                if op == "+":
                    return x + y
                if op == "-":
                    return x - y
                if op == "*":
                    return x * y
                if y == 0:
                    raise Undefined()
                # rounds towards zero, like the operators on values
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == "/" else x - q * y

            return f"({a} {op} {b})", f
        a, fa = self.int_(d - 1)

        def g(m):
            x = fa(m)
            if x < 0:
                raise Undefined()
            return x.bit_length()

        return f"uint::bits_for({a})", g

    def bool_(self, d):
        r = self.r
        k = r.random()
        if self.bools and k < 0.15:
            b = r.choice(self.bools)
            return b, lambda m: m[b]
        if self.strs and k < 0.25:
            a, b = r.choice(self.strs), r.choice(self.strs + STRS * 2)
            val = lambda m, x: x if x in STRS else m[x]
            eq = r.random() < 0.5
            q = lambda x: f'"{x}"' if x in STRS else x
            return f"({q(a)} {'==' if eq else '!='} {q(b)})", lambda m: (val(m, a) == val(m, b)) == eq
        if self.bools and d > 0 and k < 0.33:
            a, fa = self.bool_(d - 1)
            b, fb = self.bool_(d - 1) if r.random() < 0.6 else r.choice([("true", lambda m: True), ("false", lambda m: False)])
            eq = r.random() < 0.5
            return f"({a} {'==' if eq else '!='} {b})", lambda m: (fa(m) == fb(m)) == eq
        k = r.random()
        if d <= 0 or k < 0.6:
            op = r.choice(["==", "!=", "<", ">", "<=", ">="])
            a, fa = self.int_(d - 1)
            b, fb = self.int_(d - 1)
            import operator as o

            fn = {"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}[op]
            return f"({a} {op} {b})", lambda m: fn(fa(m), fb(m))
        if k < 0.7:
            a, fa = self.bool_(d - 1)
            return f"(!{a})", lambda m: not fa(m)
        op = r.choice(["&&", "||", "^^"])
        a, fa = self.bool_(d - 1)
        b, fb = self.bool_(d - 1)
        return f"({a} {op} {b})", lambda m: (fa(m) and fb(m)) if op == "&&" else (fa(m) or fb(m)) if op == "||" else fa(m) != fb(m)


STRS = ["ab", "ba", "a", "abc", "Ab", "x y"]


class Undefined(Exception):
    pass


def te_case(q, r):
    """a unit with parameters of every kind: a choice, a number, a boolean, a width and a where clause"""
    te = TE(r, ["N", "M"], ["B", "C"], ["S", "Z"], signed=True)
    m = dict(N=r.choice([0, 1, 2, 3, 5, 8, -1, -2, -3, -7, -8, 33]), M=r.choice([0, 1, 2, 3, 4, 9, -1, -2, -4, -5]), B=r.random() < 0.5, C=r.random() < 0.5, S=r.choice(STRS), Z=r.choice(STRS))
    gens = "#int N, #int M, #bool B, #bool C, #str S, #str Z"
    lo = lambda b: "true" if b else "false"
    num = lambda n: f"{{{n}}}" if n < 0 else str(n)
    args = f"{num(m['N'])}, {num(m['M'])}, {lo(m['B'])}, {lo(m['C'])}, \"{m['S']}\", \"{m['Z']}\""
    conds = [te.bool_(r.choice([0, 1, 2, 3])) for _ in range(r.randint(1, 3))]
    val, fval = te.int_(r.choice([1, 2, 3]))
    bl, fbl = te.bool_(2)
    left, fleft = r.choice([("N", lambda m: m["N"]), ("B", lambda m: m["B"]), ("S", lambda m: m["S"])])
    import operator as o

    cv, v, b = [f(m) for _, f in conds], fval(m), fbl(m)
    if abs(v) > 1 << 60:
        raise Undefined()
    if left == "N":
        op, fn = r.choice(list({"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}.items()))
        rs, fr = te.int_(r.choice([0, 1, 2]))
    elif left == "B":
        op, fn = r.choice([("==", o.eq), ("!=", o.ne)])
        rs, fr = te.bool_(r.choice([0, 1, 2]))
    else:
        op, fn = r.choice([("==", o.eq), ("!=", o.ne)])
        z = r.choice(STRS + ["Z"] * 3)
        rs, fr = (z, lambda m: m["Z"]) if z == "Z" else (f'"{z}"', lambda m: z)
    holds = bool(fn(fleft(m), fr(m)))
    branch = next((i for i, c in enumerate(cv) if c), len(cv))
    body = "gen " + "".join(f"if {s} {{ (c, {i}) }} else " for i, (s, _) in enumerate(conds)) + f"{{ (!c, {len(conds)}) }}"
    out = []
    src = f"fn ga{q}<{gens}>(c: bool) -> (bool, uint<4>) {{ {body} }}\nfn ta{q}(c: bool) -> (bool, uint<4>) {{ ga{q}::<{args}>(c) }}\n"
    out.append(Comb(f"ta{q}", src, f"ta{q}", [("c", Bool)], Tuple(Bool, UInt(4)), lambda c, b=branch, n=len(conds): [c if b < n else ~c, bv(b, 4)]))
    src = (f"fn gn{q}<#int N>() -> int<64> {{ N }}\nfn gb{q}<#bool B>() -> bool {{ B }}\nfn gh{q}<{gens}>() -> (int<64>, bool) {{ (gn{q}::<{{{val}}}>(), gb{q}::<{{{bl}}}>()) }}\n"
           f"fn tn{q}() -> (int<64>, bool) {{ gh{q}::<{args}>() }}\n")
    out.append(Comb(f"tn{q}", src, f"tn{q}", [], Tuple(Int(64), Bool), lambda v=v, b=b: [bv(v % (1 << 64), 64), bv(int(b), 1)]))
    if 1 <= v <= 70:
        src = f"fn gw{q}<{gens}>(x: uint<{{{val}}}>) -> uint<{{{val} + 1}}> {{ x + x }}\nfn tz{q}(x: uint<{v}>) -> uint<{v+1}> {{ gw{q}::<{args}>(x) }}\n"
        T = UInt(v)
        out.append(Comb(f"tz{q}", src, f"tz{q}", [("x", T)], UInt(v + 1), lambda x, T=T: widen(T, x, T.w + 1) + widen(T, x, T.w + 1)))
        d = r.choice([-1, 1, 2])
        if v + d >= 1:
            out.append(Verdict(f"tzx{q}", src.replace(f"x: uint<{v}>", f"x: uint<{v+d}>"), False, "the width is the value of the expression"))
    out.append(Verdict(f"whr{q}", f"fn g<{gens}>(c: bool) -> bool where {left} {op} {rs} {{ c }}\nfn f(c: bool) -> bool {{ g::<{args}>(c) }}\n", holds, f"{left} {op} {rs} at {m}"))
    return out


def p11(tier, rng):
    out = []
    quick = tier == "quick"
    # gen if and values of type level expressions
    q = 0
    while q < (260 if quick else 2600):
        r = random.Random(rng.getrandbits(64))
        te = TE(r, ["N", "M"])
        conds = [te.bool_(r.choice([0, 1, 2])) for _ in range(r.randint(1, 3))]
        m = dict(N=r.choice([0, 1, 2, 3, 4, 7, 8, 31, 33]), M=r.choice([0, 1, 2, 3, 5, 9, 64]))
        val, fval = te.int_(r.choice([1, 2, 3]))
        try:
            cv = [f(m) for _, f in conds]
            v = fval(m)
        except Undefined:
            continue
        if abs(v) > 1 << 60:
            continue
        q += 1
        branch = next((i for i, c in enumerate(cv) if c), len(cv))
        # a width that depends on the expression, and its value
        W = v if 1 <= v <= 70 else None
        body = "gen " + "".join(f"if {s} {{ (c, {i}) }} else " for i, (s, _) in enumerate(conds)) + f"{{ (!c, {len(conds)}) }}"
        src = f"fn gi{q}<#uint N, #uint M>(c: bool) -> (bool, uint<4>) {{ {body} }}\nfn ti{q}(c: bool) -> (bool, uint<4>) {{ gi{q}::<{m['N']}, {m['M']}>(c) }}\n"
        out.append(Comb(f"ti{q}", src, f"ti{q}", [("c", Bool)], Tuple(Bool, UInt(4)), lambda c, b=branch, n=len(conds): [c if b < n else ~c, bv(b, 4)]))
        if W:
            for T in (UInt(W), Int(W)):
                nm = f"tw{q}{'s' if T.signed else ''}"
                k = "int" if T.signed else "uint"
                src = f"fn g{nm}<#uint N, #uint M>(x: {k}<{{{val}}}>) -> {k}<{{{val} + 1}}> {{ x + x }}\nfn {nm}(x: {T.src}) -> {k}<{W+1}> {{ g{nm}::<{m['N']}, {m['M']}>(x) }}\n"
                out.append(Comb(nm, src, nm, [("x", T)], type(T)(W + 1), lambda x, T=T: widen(T, x, T.w + 1) + widen(T, x, T.w + 1)))
        elif r.random() < 0.5:
            # as a constant
            nm = f"tv{q}"
            src = f"fn g{nm}<#int N>() -> int<64> {{ N }}\nfn h{nm}<#uint N, #uint M>() -> int<64> {{ g{nm}::<{{{val}}}>() }}\nfn {nm}() -> int<64> {{ h{nm}::<{m['N']}, {m['M']}>() }}\n"
            out.append(Comb(nm, src, nm, [], Int(64), lambda v=v: bv(v % (1 << 64), 64)))
    # parameters of every kind
    q = 0
    while q < (90 if quick else 1200):
        try:
            out += te_case(q, random.Random(rng.getrandbits(64)))
        except Undefined:
            continue
        q += 1
    # bits_for
    for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 1000, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 70) + 3]:
        w = n.bit_length()
        if w:
            out.append(Comb(f"ub{n}", f"fn gub{n}<#uint N>() -> uint<{{uint::bits_for(N)}}> {{ N }}\nfn ub{n}() -> uint<{w}> {{ gub{n}::<{n}>() }}\n", f"ub{n}", [], UInt(w), lambda n=n, w=w: bv(n, w)))
        x = z3.Int("x")
        for dw in (-1, 1):
            if w + dw < 0:
                continue
            out.append(Verdict(f"ubx{n}_{dw+1}", f"fn g<#uint N>() -> uint<{{uint::bits_for(N)}}> {{ 0 }}\nfn f() -> uint<{w+dw}> {{ g::<{n}>() }}\n", False, "bits_for is the least width",
                               formula=([x >= 0, x < 1 << (w + dw), x == n], dw < 0)))
        for v in (n, -n, -n - 1):
            wi = (v.bit_length() if v >= 0 else (-v - 1).bit_length()) + 1
            nm = f"ib{str(v).replace('-', 'm')}"
            src = f"fn g{nm}<#int N>() -> int<{{int::bits_for(N)}}> {{ N }}\nfn {nm}() -> int<{wi}> {{ g{nm}::<{{{v}}}>() }}\n"
            if not any(c.name == nm for c in out):
                if v in (0, -1):
                    # one bit would do; how zero is treated is documented nowhere
                    continue
                out.append(Comb(nm, src, nm, [], Int(wi), lambda v=v, wi=wi: bv(v % (1 << wi), wi)))
    # recursion on a type level number
    for n in range(0, 9):
        if n:
            out.append(Comb(f"par{n}", f"fn gp{n}<#uint N>(a: [bool; N]) -> bool {{ gen if N == 0 {{ false }} else {{ a[0] ^^ gp{n}(a[1..N]) }} }}\nfn par{n}(a: [bool; {n}]) -> bool {{ gp{n}(a) }}\n", f"par{n}", [("a", Array(Bool, n))], Bool,
                            lambda a: reduce_xor(a)))
    # where clauses
    q = 0
    while q < (90 if quick else 900):
        r = random.Random(rng.getrandbits(64))
        te = TE(r, ["N", "M"])
        import operator as o
        op, fn = r.choice(list({"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}.items()))
        e, fe = te.int_(r.choice([0, 1, 2]))
        s, f = f"N {op} {e}", lambda m: fn(m["N"], fe(m))
        m = dict(N=r.choice([0, 1, 2, 3, 8]), M=r.choice([0, 1, 2, 3, 9]))
        try:
            v = f(m)
        except Undefined:
            continue
        q += 1
        out.append(Verdict(f"where{q}", f"fn g<#uint N, #uint M>(c: bool) -> bool where {s} {{ c }}\nfn f(c: bool) -> bool {{ g::<{m['N']}, {m['M']}>(c) }}\n", bool(v), f"{s} at {m}"))
    # clauses on every sort of unit, with parameters found from the arguments, directly or through another generic unit
    q = 0
    while q < (90 if quick else 900):
        r = random.Random(rng.getrandbits(64))
        te = TE(r, ["N", "M"])
        cl = []
        for _ in range(r.choice([1, 1, 2, 3])):
            op, fn = r.choice(list({"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}.items()))
            e, fe = te.int_(r.choice([0, 1, 1, 2]))
            p = r.choice("NM")
            cl.append((f"{p} {op} {e}", lambda m, p=p, fn=fn, fe=fe: fn(m[p], fe(m))))
        m = dict(N=r.choice([1, 2, 3, 4, 8]), M=r.choice([1, 2, 3, 5, 9]))
        try:
            v = all([f(m) for _, f in cl])
        except Undefined:
            continue
        q += 1
        form = r.choice(["fn", "entity", "pipe", "impl", "method", "nested", "trait", "extern"])
        w = "where " + ", ".join(c for c, _ in cl)
        ps, tys, gen = "x: uint<N>, y: [bool; M]", f"x: uint<{m['N']}>, y: [bool; {m['M']}]", "#uint N, #uint M"
        if form in ("fn", "extern"):
            src = f"{'extern ' if form == 'extern' else ''}fn g<{gen}>({ps}) -> bool {w}{';' if form == 'extern' else ' { y[0] }'}\nfn f({tys}) -> bool {{ g(x, y) }}"
        elif form == "entity":
            src = f"entity g<{gen}>(clk: clock, {ps}) -> bool {w} {{ y[0] }}\nentity f(clk: clock, {tys}) -> bool {{ inst g(clk, x, y) }}"
        elif form == "pipe":
            src = f"pipeline(1) g<{gen}>(clk: clock, {ps}) -> bool {w} {{ reg; y[0] }}\npipeline(1) f(clk: clock, {tys}) -> bool {{ let z = inst(1) g(clk, x, y); reg; z }}"
        elif form == "impl":
            src = f"struct S<#uint A, #uint B> {{ x: uint<A>, y: [bool; B] }}\nimpl<{gen}> S<N, M> {w} {{ fn g(self) -> bool {{ self.y[0] }} }}\nfn f({tys}) -> bool {{ S(x, y).g() }}"
        elif form == "method":
            src = f"impl<#uint M> [bool; M] {{ fn g<#uint N>(self, x: uint<N>) -> bool {w} {{ self[0] }} }}\nfn f({tys}) -> bool {{ y.g(x) }}"
        elif form == "nested":
            src = f"fn g<{gen}>({ps}) -> bool {w} {{ y[0] }}\nfn h<#uint B, #uint A>(x: uint<A>, y: [bool; B]) -> bool {{ g(x, y) }}\nfn f({tys}) -> bool {{ h(x, y) }}"
        else:
            src = f"trait T {{ fn g<{gen}>(self, {ps}) -> bool {w}; }}\nimpl T for bool {{ fn g<{gen}>(self, {ps}) -> bool {w} {{ y[0] }} }}\nfn f({tys}) -> bool {{ true.g(x, y) }}"
        out.append(Verdict(f"wf{q}_{form}", src + "\n", bool(v), f"{w} at {m}"))
    # widths that depend on parameters
    for n, src, want in [
        ("neg", "fn g<#uint N>(x: bool) -> bool { x }\nfn f(c: bool) -> bool { g::<{2 - 3}>(c) }", False),
        ("negw", "fn f() -> bool { let x: uint<{2 - 3}> = 0; true }", False),
        ("kind", "fn g<#uint N>(x: bool) -> bool { x }\nfn f(c: bool) -> bool { g::<bool>(c) }", False),
        ("kindb", "fn g<#bool N>(x: bool) -> bool { x }\nfn f(c: bool) -> bool { g::<3>(c) }", False),
        ("kindt", "fn g<T>(x: bool) -> bool { x }\nfn f(c: bool) -> bool { g::<3>(c) }", False),
        ("eqok", "fn g<#uint N>(x: uint<N>, y: uint<{N + 1}>) -> bool { true }\nfn f(a: uint<4>, b: uint<5>) -> bool { g(a, b) }", True),
        ("eqbad", "fn g<#uint N>(x: uint<N>, y: uint<{N + 1}>) -> bool { true }\nfn f(a: uint<4>, b: uint<6>) -> bool { g(a, b) }", False),
        ("same", "fn g<#uint N>(x: uint<N>, y: uint<N>) -> bool { true }\nfn f(a: uint<4>, b: uint<4>) -> bool { g(a, b) }", True),
        ("samebad", "fn g<#uint N>(x: uint<N>, y: uint<N>) -> bool { true }\nfn f(a: uint<4>, b: uint<6>) -> bool { g(a, b) }", False),
        ("div0", "fn f() -> bool { let x: uint<{2 / 0}> = 0; true }", False), ("mod0", "fn f() -> bool { let x: uint<{2 % 0}> = 0; true }", False),
        ("untaken", "fn g<#uint N>(a: [bool; N]) -> bool { gen if N == 0 { true } else { a[0] } }\nfn f() -> bool { g::<0>([]) }", True),
    ]:
        out.append(Verdict(f"tl_{n}", src + "\n", want, "type level arguments"))
    return out


def reduce_xor(a):
    r = a[0]
    for x in a[1:]:
        r = r ^ x
    return r


# ------------------------------------------------------------------ P12
def impl_type(r, d, named):
    """a closed type an implementation can be for"""
    k = r.random()
    if d <= 0 or k < 0.15:
        return r.choice([Bool, UInt(r.randint(1, 4)), Int(r.randint(1, 4))] + named)
    if k < 0.45:
        return Array(impl_type(r, d - 1, named), r.randint(1, 4))
    if k < 0.8:
        return Tuple(*[impl_type(r, d - 1, named) for _ in range(r.randint(2, 3))])
    return option(impl_type(r, d - 1, named))


def near(r, t, named):
    """a different type that is almost t"""
    if isinstance(t, Array):
        return Array(t.inner, t.n % 4 + 1) if r.random() < 0.5 else Array(near(r, t.inner, named), t.n)
    if isinstance(t, Tuple):
        ms = list(t.members)
        k = r.random()
        if k < 0.25 and len(ms) < 4:
            return Tuple(*ms, r.choice([Bool, UInt(2)]))
        if k < 0.4 and ms != ms[::-1]:
            return Tuple(*ms[::-1])
        i = r.randrange(len(ms))
        ms[i] = near(r, ms[i], named)
        return Tuple(*ms)
    if isinstance(t, (Int, UInt)):
        return type(t)(t.w % 4 + 1) if r.random() < 0.6 else (UInt if isinstance(t, Int) else Int)(t.w)
    if isinstance(t, Enum) and t.name == "Option":
        return option(near(r, t.variants[1][1][0][1], named)) if r.random() < 0.8 else Tuple(t, Bool)
    return r.choice([x for x in [Bool, UInt(1), Array(Bool, 1)] + named if x.src != t.src])


def overlapping(r, quick):
    """implementations for types with parameters: which one applies is decided by the closed parts"""
    out = []
    fams = [
        # (impl header, matches a type?)
        ("<A> {T} for (A, bool)", lambda t: isinstance(t, Tuple) and len(t.members) == 2 and t.members[1] == Bool),
        ("<A> {T} for (A, uint<3>)", lambda t: isinstance(t, Tuple) and len(t.members) == 2 and t.members[1] == UInt(3)),
        ("<#uint N> {T} for (uint<N>, int<N>)", lambda t: isinstance(t, Tuple) and len(t.members) == 2 and isinstance(t.members[0], UInt) and isinstance(t.members[1], Int)),
        ("<A, B, C> {T} for (A, B, C)", lambda t: isinstance(t, Tuple) and len(t.members) == 3),
        ("<A> {T} for [A; 2]", lambda t: isinstance(t, Array) and t.n == 2),
        ("<A> {T} for [A; 3]", lambda t: isinstance(t, Array) and t.n == 3),
        ("<#uint N> {T} for [[bool; N]; 4]", lambda t: isinstance(t, Array) and t.n == 4),
        ("<#uint N> {T} for uint<N>", lambda t: isinstance(t, UInt)),
        (" {T} for int<2>", lambda t: t == Int(2)),
        (" {T} for int<3>", lambda t: t == Int(3)),
        (" {T} for Option<bool>", lambda t: t.src == "Option<bool>"),
        ("<#uint N> {T} for Option<uint<N>>", lambda t: t.src.startswith("Option<uint")),
        ("<A> {T} for Option<(bool, A)>", lambda t: t.src.startswith("Option<(")),
        (" {T} for Option<[bool; 2]>", lambda t: t.src == "Option<[bool; 2]>"),
        (" {T} for Option<[bool; 3]>", lambda t: t.src == "Option<[bool; 3]>"),
    ]
    B = Bool
    types = [Tuple(UInt(2), B), Tuple(B, B), Tuple(B, UInt(3)), Tuple(Int(2), UInt(3)), Tuple(UInt(4), Int(4)), Tuple(B, B, UInt(3)), Array(B, 2), Array(UInt(3), 2), Array(B, 3), Array(Array(B, 2), 3),
             Array(Array(B, 2), 4), Array(Array(B, 3), 4), UInt(1), UInt(9), Int(2), Int(3), option(B), option(UInt(3)), option(UInt(1)), option(Tuple(B, UInt(2))), option(Array(B, 2)), option(Array(B, 3))]
    for q in range(60 if quick else 600):
        sel = r.sample(range(len(fams)), r.randint(3, len(fams)))
        T = f"Ov{q}"
        text = f"trait {T} {{ fn k(self) -> uint<5>; }}\n"
        num = {}
        for i in sel:
            num[i] = r.randrange(32)
            text += f"impl{fams[i][0].replace('{T}', T)} {{ fn k(self) -> uint<5> {{ {num[i]} }} }}\n"
        text += f"fn ovg{q}<A: {T}>(a: A) -> uint<5> {{ a.k() }}\n"
        cs = []
        for j, t in enumerate(types):
            m = [i for i in sel if fams[i][1](t)]
            assert len(m) <= 1 or m == [2, 0], (t, m)
            if len(m) == 1 and r.random() < 0.6:
                g = r.random() < 0.4
                call = f"ovg{q}(a)" if g else "a.k()"
                text += f"fn ov{q}_{j}(a: {t.src}) -> uint<5> {{ {call} }}\n"
                cs.append((f"ov{q}_{j}", t, num[m[0]]))
        for nm, t, n in cs:
            out.append(Comb(nm, text, nm, [("a", t)], UInt(5), lambda a, n=n: bv(n, 5), group=f"ov{q}"))
    # a type that none of them is for
    for q in range(60 if quick else 600):
        sel = r.sample(range(len(fams)), r.randint(2, 6))
        t = r.choice(types)
        m = [i for i in sel if fams[i][1](t)]
        T = f"Oq{q}"
        text = f"trait {T} {{ fn k(self) -> uint<5>; }}\n" + "".join(f"impl{fams[i][0].replace('{T}', T)} {{ fn k(self) -> uint<5> {{ {i} }} }}\n" for i in sel)
        text += f"fn oq{q}(a: {t.src}) -> uint<5> {{ a.k() }}\n"
        out.append(Verdict(f"oq{q}", text, bool(m), "which implementation applies"))
    return out


def p12(tier, rng):
    out = []
    quick = tier == "quick"
    for q in range(150 if quick else 1500):
        r = random.Random(rng.getrandbits(64))
        uid = f"{q}"
        # a trait with an implementation for several types, each with its own behaviour
        tys = []
        pool = [
            ("bool", Bool, "bool"), ("uint<7>", UInt(7), "uint<7>"), ("int<7>", Int(7), "int<7>"), ("(bool, uint<2>)", Tuple(Bool, UInt(2)), "(bool, uint<2>)"),
            ("[uint<3>; 2]", Array(UInt(3), 2), "[uint<3>; 2]"), ("Option<bool>", option(Bool), "Option<bool>"),
        ]
        sd = Struct(f"St{uid}", [("u", UInt(3)), ("v", Bool)])
        ed = Enum(f"En{uid}", [("A", []), ("B", [("v", UInt(3))])])
        src = f"struct St{uid} {{ u: uint<3>, v: bool }}\nenum En{uid} {{ A, B{{v: uint<3>}} }}\n"
        pool += [(sd.src, sd, sd.src), (ed.src, ed, ed.src)]
        sel = r.sample(pool, r.randint(2, 5))
        if q % 3:
            # types that are alike but for one width, one length or one member
            fam = [impl_type(r, r.choice([1, 2, 2, 3]), [sd, ed])]
            for _ in range(r.randint(1, 4)):
                fam.append(near(r, r.choice(fam), [sd, ed]))
            sel = list({t.src: (t.src, t, t.src) for t in fam if t is not None and t.w < 90}.values())
            if not sel:
                continue
        src += f"trait Tr{uid} {{ fn id(self) -> uint<8>; fn pick(self, o: Self, c: bool) -> Self; }}\n"
        vals = {}
        for i, (imp, t, _) in enumerate(sel):
            n = r.randrange(256)
            sw = r.random() < 0.5
            vals[t.src] = (n, sw)
            src += f"impl Tr{uid} for {imp} {{ fn id(self) -> uint<8> {{ {n} }} fn pick(self, o: Self, c: bool) -> Self {{ if c {{ {'o' if sw else 'self'} }} else {{ {'self' if sw else 'o'} }} }} }}\n"

        def pick(t, a, b, c, vals=vals):
            n, sw = vals[t.src]
            return t.ite(is1(c), b if sw else a, a if sw else b)

        # generic over the trait
        src += f"fn gid{uid}<T: Tr{uid}>(x: T) -> uint<8> {{ x.id() }}\nfn gp{uid}<T>(x: T, y: T, c: bool) -> T where T: Tr{uid} {{ x.pick(y.pick(x, c), !c) }}\n"
        src += f"fn g2{uid}<T: Tr{uid}, U: Tr{uid}>(x: T, y: U) -> (uint<8>, uint<8>) {{ (gid{uid}(y), x.id()) }}\n"
        # a blanket implementation on containers of implementors
        bl = r.random() < 0.7
        if bl:
            src += f"struct Bx{uid}<T> {{ i: T, j: T }}\nimpl<T: Tr{uid}> Tr{uid} for Bx{uid}<T> {{ fn id(self) -> uint<8> {{ self.i.id() ^ 85 }} fn pick(self, o: Self, c: bool) -> Self {{ Bx{uid}(self.i.pick(o.i, c), o.j.pick(self.j, c)) }} }}\n"
        units = []
        for i, (imp, t, _) in enumerate(sel):
            for form in r.sample(["direct", "gen", "gp", "g2", "bx"], 3):
                nm = f"tr{uid}_{i}_{form}"
                if form == "direct":
                    units.append((nm, [("a", t), ("b", t), ("c", Bool)], Tuple(UInt(8), t), "(a.id(), a.pick(b, c))", lambda a, b, c, t=t, pick=pick, vals=vals: [bv(vals[t.src][0], 8), pick(t, a, b, c)]))
                elif form == "gen":
                    units.append((nm, [("a", t)], UInt(8), f"gid{uid}(a)", lambda a, t=t, vals=vals: bv(vals[t.src][0], 8)))
                elif form == "gp":
                    units.append((nm, [("a", t), ("b", t), ("c", Bool)], t, f"gp{uid}(a, b, c)", lambda a, b, c, t=t, pick=pick: pick(t, a, pick(t, b, a, c), ~c)))
                elif form == "g2":
                    u = r.choice(sel)[1]
                    units.append((nm, [("a", t), ("b", u)], Tuple(UInt(8), UInt(8)), f"g2{uid}(a, b)", lambda a, b, t=t, u=u, vals=vals: [bv(vals[u.src][0], 8), bv(vals[t.src][0], 8)]))
                elif bl:
                    B = Struct(f"Bx{uid}", [("i", t), ("j", t)], f"<{t.src}>")
                    units.append((nm, [("a", B), ("b", B), ("c", Bool)], Tuple(UInt(8), B), f"(gid{uid}(a), a.pick(b, c))",
                                  lambda a, b, c, t=t, pick=pick, vals=vals: [bv(vals[t.src][0] ^ 85, 8), [pick(t, a[0], b[0], c), pick(t, b[1], a[1], c)]]))
        text = src + "".join(f"fn {nm}({', '.join(f'{n}: {t.src}' for n, t in ins)}) -> {o.src} {{ {b} }}\n" for nm, ins, o, b, f in units)
        for nm, ins, o, b, f in units:
            out.append(Comb(nm, text, nm, ins, o, f, group=f"t{uid}"))
    out += overlapping(random.Random(rng.getrandbits(64)), quick)
    # operators through traits: a user type takes part in ==, +, ...
    out += op_traits()
    # inherent methods win by type, methods of generic impls on matching arguments only
    out.append(Comb("spec1", "struct W1<T> { x: T }\nimpl W1<bool> { fn k(self) -> uint<4> { 1 } }\nimpl W1<uint<3>> { fn k(self) -> uint<4> { 2 } }\nfn spec1(a: W1<bool>, b: W1<uint<3>>) -> (uint<4>, uint<4>) { (a.k(), b.k()) }\n", "spec1",
                    [("a", Struct("W1", [("x", Bool)], "<bool>")), ("b", Struct("W1", [("x", UInt(3))], "<uint<3>>"))], Tuple(UInt(4), UInt(4)), lambda a, b: [bv(1, 4), bv(2, 4)]))
    T = "trait T { fn m(self) -> uint<3>; }\n"
    for n, src, want in [
        ("unimpl", T + "fn f(a: bool) -> uint<3> { a.m() }", False), ("bound", T + "fn g<A: T>(a: A) -> uint<3> { a.m() }\nfn f(a: bool) -> uint<3> { g(a) }", False),
        ("bounded", T + "impl T for bool { fn m(self) -> uint<3> { 1 } }\nfn g<A: T>(a: A) -> uint<3> { a.m() }\nfn f(a: bool) -> uint<3> { g(a) }", True),
        ("unbounded", T + "impl T for bool { fn m(self) -> uint<3> { 1 } }\nfn g<A>(a: A) -> uint<3> { a.m() }\nfn f(a: bool) -> uint<3> { g(a) }", False),
        ("wrongtype", T + "impl T for bool { fn m(self) -> uint<3> { 1 } }\nfn g<A: T>(a: A) -> uint<3> { a.m() }\nfn f(a: uint<1>) -> uint<3> { g(a) }", False),
        ("wrongwidth", T + "impl T for uint<2> { fn m(self) -> uint<3> { 1 } }\nfn f(a: uint<1>) -> uint<3> { a.m() }", False),
        ("missing", T + "impl T for bool { }", False), ("extra", T + "impl T for bool { fn m(self) -> uint<3> { 1 } fn n(self) -> bool { true } }", False),
        ("sig", T + "impl T for bool { fn m(self) -> uint<4> { 1 } }", False), ("sigarg", T + "impl T for bool { fn m(self, x: bool) -> uint<3> { 1 } }", False),
        ("dup", T + "impl T for bool { fn m(self) -> uint<3> { 1 } }\nimpl T for bool { fn m(self) -> uint<3> { 2 } }", False),
        ("overlap", T + "impl T for uint<3> { fn m(self) -> uint<3> { 1 } }\nimpl<#uint N> T for uint<N> { fn m(self) -> uint<3> { 2 } }\nfn f(a: uint<3>) -> uint<3> { a.m() }", False),
        ("nested", T + "impl T for bool { fn m(self) -> uint<3> { 1 } }\nimpl<A: T> T for Option<A> { fn m(self) -> uint<3> { 2 } }\nfn f(a: Option<bool>) -> uint<3> { a.m() }", True),
        ("nestedbad", T + "impl<A: T> T for Option<A> { fn m(self) -> uint<3> { 2 } }\nfn f(a: Option<bool>) -> uint<3> { a.m() }", False),
        ("nosuch", T + "fn f(a: bool) -> uint<3> { a.zzz() }", False),
        ("addbool", "fn f(a: bool, b: bool) -> bool { a == b }\nfn g(a: bool, b: bool) -> bool { a & b }", False),
    ]:
        out.append(Verdict(f"tv_{n}", src + "\n", want, "trait obligations"))
    return out


def op_traits():
    """operators on a user type go to the implementation, operands in order"""
    out = []
    for q, (tr, fn, op, body, ret, f) in enumerate([
        ("PartialEq", "eq", "==", "self.x == rhs.x", Bool, lambda a, b: tob(a[0] == b[0])),
        ("PartialEq", "ne", "!=", "self.x == rhs.x", Bool, lambda a, b: tob(a[0] == b[0])),
        ("BitAnd", "bit_and", "&", "V(self.x | rhs.x, rhs.y)", None, lambda a, b: [a[0] | b[0], b[1]]),
        ("BitOr", "bit_or", "|", "V(rhs.x, self.y)", None, lambda a, b: [b[0], a[1]]),
        ("BitXor", "bit_xor", "^", "V(self.x & rhs.x, rhs.y)", None, lambda a, b: [a[0] & b[0], b[1]]),
        ("And", "and", "&&", "V(self.x | rhs.x, rhs.y)", None, lambda a, b: [a[0] | b[0], b[1]]),
        ("Or", "or", "||", "V(rhs.x, self.y)", None, lambda a, b: [b[0], a[1]]),
        ("Xor", "xor", "^^", "V(self.x & rhs.x, rhs.y)", None, lambda a, b: [a[0] & b[0], b[1]]),
        ("Not", "not", "!", "V(~self.x, self.y)", None, lambda a: [~a[0], a[1]]),
        ("BitNot", "bit_not", "~", "V(self.x, ~self.y)", None, lambda a: [a[0], ~a[1]]),
    ]):
        U = Struct(f"V{q}", [("x", UInt(4)), ("y", Int(5))])
        body = body.replace("V(", f"V{q}(")
        rt = ret or U
        un = "ot" in fn
        rest = "fn ne(self, rhs: Self) -> bool { self.y != rhs.y }" if fn == "eq" else "fn eq(self, rhs: Self) -> bool { self.y == rhs.y }" if fn == "ne" else ""
        src = f"struct V{q} {{ x: uint<4>, y: int<5> }}\nimpl core::ops::{tr} for V{q} {{ fn {fn}(self{'' if un else ', rhs: Self'}) -> {rt.src.replace(f'V{q}', 'Self')} {{ {body} }} {rest} }}\n"
        src += f"fn ot{q}(a: V{q}{'' if un else f', b: V{q}'}) -> {rt.src} {{ {op + 'a' if un else 'a ' + op + ' b'} }}\n"
        out.append(Comb(f"ot{q}", src, f"ot{q}", [("a", U)] + ([] if un else [("b", U)]), rt, f))
    return out
