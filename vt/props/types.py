"""P32: a program is accepted only if its types fit together."""
import random
import re
import z3
from ..check import Verdict, solve

# ------------------------------------------------------------------ types as terms of the solver
_D = z3.Datatype("Ty")
_L = z3.Datatype("TyList")
_D.declare("uint", ("uw", z3.IntSort()))
_D.declare("int", ("iw", z3.IntSort()))
_D.declare("bool")
_D.declare("clock")
_D.declare("inv", ("of", z3.DatatypeSort("Ty")))
_D.declare("array", ("el", z3.DatatypeSort("Ty")), ("len", z3.IntSort()))
_D.declare("con", ("id", z3.IntSort()), ("args", z3.DatatypeSort("TyList")))
_L.declare("nil")
_L.declare("cons", ("hd", z3.DatatypeSort("Ty")), ("tl", z3.DatatypeSort("TyList")))
Ty, TyList = z3.CreateDatatypes(_D, _L)
TUPLE, OPTION = 0, 1


def con(i, args=()):
    l = TyList.nil
    for a in reversed(list(args)):
        l = TyList.cons(a, l)
    return Ty.con(i, l)


class T:
    """a closed type: its source text and its term"""

    def __init__(self, src, term, kind, **kw):
        self.src, self.term, self.kind = src, term, kind
        self.__dict__.update(kw)

    def __eq__(self, o):
        return self.src == o.src

    def __hash__(self):
        return hash(self.src)


def u(n):
    return T(f"uint<{n}>", Ty.uint(n), "u", n=n)


def s(n):
    return T(f"int<{n}>", Ty.int(n), "s", n=n)


BOOL = T("bool", Ty.bool, "b")
CLK = T("clock", Ty.clock, "c")


def tup(ts):
    return T("(" + ", ".join(t.src for t in ts) + ")", con(TUPLE, [t.term for t in ts]), "t", ts=list(ts))


def arr(t, n):
    return T(f"[{t.src}; {n}]", Ty.array(t.term, n), "a", t=t, n=n)


def opt(t):
    return T(f"Option<{t.src}>", con(OPTION, [t.term]), "o", t=t)


class Gen:
    """well typed programs, with the constraints their types have to satisfy; the slot number `at`, if
    reached, is filled with something of another type"""

    def __init__(self, r, uid, at):
        self.r, self.uid, self.at = r, uid, at
        self.n = self.slots = 0
        self.cs = []
        self.items, self.params, self.generic = [], [], []
        self.hit = None
        self.structs, self.enums, self.gstructs = [], [], []
        self.ids = 10
        self.kind = "fn"
        self.lets = []
        self.lam = False

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def tv(self):
        self.n += 1
        return z3.Const(f"t{self.n}", Ty)

    def iv(self):
        self.n += 1
        return z3.Int(f"n{self.n}")

    # ---- types
    def ty(self, d=2, data=True):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            k = r.random()
            if self.generic and k < 0.2:
                return r.choice(self.generic)
            return u(r.randint(1, 9)) if k < 0.65 else s(r.randint(2, 9)) if k < 0.82 else BOOL
        if k < 0.65:
            return tup([self.ty(d - 1) for _ in range(r.randint(2, 3))])
        if k < 0.75:
            return arr(self.ty(d - 1), r.randint(2, 4))
        if k < 0.82 and self.structs:
            return r.choice(self.structs)
        if k < 0.89 and self.enums:
            return r.choice(self.enums)
        if k < 0.95 and self.gstructs:
            return self.gtype(r.choice(self.gstructs), [self.ty(d - 1)])
        return opt(self.ty(d - 1))

    def gtype(self, g, args):
        return T(f"{g.name}<{', '.join(a.src for a in args)}>", con(g.id, [a.term for a in args]), "g", g=g, args=args)

    def other(self, t):
        """a type other than t, as near to it as possible"""
        r = self.r
        while True:
            k = r.random()
            o = None
            if t.kind in "us" and k < 0.5:
                f = u if t.kind == "u" else s
                o = f(max(1, t.n + r.choice([-1, 1, 2, -2])))
            elif t.kind in "us" and k < 0.75:
                o = (s if t.kind == "u" else u)(t.n)
            elif t.kind == "u" and t.n == 1 and k < 0.85:
                o = BOOL
            elif t.kind == "b" and k < 0.5:
                o = r.choice([u(1), CLK, s(1)])
            elif t.kind == "c":
                o = r.choice([BOOL, u(1)])
            elif t.kind == "t" and k < 0.8:
                ts = list(t.ts)
                k = r.random()
                if k < 0.6:
                    i = r.randrange(len(ts))
                    ts[i] = self.other(ts[i])
                elif k < 0.8:
                    ts.append(ts[0])
                else:
                    r.shuffle(ts)
                o = tup(ts)
            elif t.kind == "a" and k < 0.8:
                o = arr(t.t, t.n + 1) if r.random() < 0.5 else arr(self.other(t.t), t.n)
            elif t.kind == "o" and k < 0.8:
                o = opt(self.other(t.t)) if r.random() < 0.6 else t.t
            elif t.kind == "g" and k < 0.8:
                o = self.gtype(t.g, [self.other(t.args[0])]) if r.random() < 0.6 else t.args[0]
            elif t.kind == "S" and k < 0.8 and len(self.structs) > 1:
                o = r.choice(self.structs)
            elif t.kind == "E" and k < 0.8 and len(self.enums) > 1:
                o = r.choice(self.enums)
            elif t.kind == "G" and k < 0.6 and len(self.generic) > 1:
                o = r.choice(self.generic)
            if o is None:
                o = self.ty(1)
            if o != t and not (o.kind == "t" and len(o.ts) < 2):
                return o

    # ---- where a fault can be
    def slot(self, t, d, want=None):
        """an expression of type t; the constraint says that what is put in has this type"""
        self.slots += 1
        if self.slots == self.at:
            o = self.other(t)
            self.hit = f"{o.src} where {t.src} is needed"
            e = self.expr(o, min(d, self.r.randint(0, 1)))
            self.cs.append(o.term == t.term)
            return e
        return self.expr(t, d)

    def ann(self, t):
        """the text of a type where the program has to say t"""
        self.slots += 1
        if self.slots == self.at:
            o = self.other(t)
            self.hit = f"type {o.src} written where {t.src} is meant"
            self.cs.append(o.term == t.term)
            return o.src
        return t.src

    def num(self, n):
        """a number which has to be n"""
        self.slots += 1
        if self.slots == self.at:
            o = max(0, n + self.r.choice([-1, 1]))
            if o == n:
                o = n + 1
            self.hit = f"{o} where {n} is needed"
            self.cs.append(z3.IntVal(o) == n)
            return o
        return n

    # ---- expressions
    def var(self, t):
        """something whose type is exactly t"""
        r = self.r
        c = [n for n, x in self.lets + self.params if x == t]
        if c and r.random() < 0.7:
            return r.choice(c)
        n = self.fresh("p")
        self.params.append((n, t))
        return n

    def leaf(self, t):
        r = self.r
        if t.kind == "u" and r.random() < 0.25:
            v = r.randrange(2**t.n)
            return f"{v}u{t.n}"
        if t.kind == "b" and r.random() < 0.2:
            return r.choice(["true", "false"])
        return self.var(t)

    def expr(self, t, d):
        r = self.r
        if d <= 0 or t.kind == "c" or r.random() < 0.12:
            return self.leaf(t)
        d -= 1
        fs = [self.e_if, self.e_match, self.e_block, self.e_field, self.e_index, self.e_tupidx, self.e_call, self.e_generic, self.e_method, self.e_lambda, self.e_loose]
        if t.kind in "us":
            fs += [self.e_arith, self.e_arith, self.e_bits, self.e_width]
        if t.kind == "b":
            fs += [self.e_cmp, self.e_logic]
        if t.kind in "taoSEg":
            fs += [self.e_make] * 5
        if t.kind == "a":
            fs += [self.e_slice]
        if self.kind != "fn":
            fs += [self.e_reg, self.e_inst, self.e_pipe]
        return r.choice(fs)(t, d) or self.leaf(t)

    def e_if(self, t, d):
        return f"(if {self.slot(BOOL, d)} {{ {self.slot(t, d)} }} else {{ {self.slot(t, d)} }})"

    def pattern(self, t, d, binds):
        r = self.r
        self.slots += 1
        if self.slots == self.at:
            o = self.other(t)
            tries = 0
            while o.kind not in "tSEog" and tries < 20:
                o = self.other(t)
                tries += 1
            if o.kind in "tSEog":
                self.hit = f"a pattern for {o.src} where {t.src} is matched"
                p, term = self.pat(o, d, binds, rigid=False)
                self.cs.append(term == t.term)
                return p
        return self.pat(t, d, binds)[0]

    def pat(self, t, d, binds, rigid=True):
        """a pattern, and the term of the type it has (names and wildcards fit any type)"""
        r = self.r
        k = r.random()
        if not rigid:
            k = 1.0
        if d <= 0 and rigid or k < 0.2:
            if r.random() < 0.3:
                return "_", t.term if rigid else self.tv()
            n = self.fresh("m")
            binds.append((n, t))
            return n, t.term

        def sub(x):
            if rigid:
                return self.pattern(x, d - 1, binds), x.term
            return "_", self.tv()

        if t.kind == "t":
            l = [sub(x) for x in t.ts]
            return f"({', '.join(p for p, _ in l)})", con(TUPLE, [x for _, x in l])
        if t.kind == "a" and rigid:
            l = [sub(t.t) for _ in range(t.n)]
            return f"[{', '.join(p for p, _ in l)}]", t.term
        if t.kind == "S":
            ps = [(f, sub(x)[0]) for f, x in t.fields]
            if r.random() < 0.5:
                return f"{t.src}({', '.join(p for _, p in ps)})", t.term
            r.shuffle(ps)
            return f"{t.src}$({', '.join(f'{f}: {p}' for f, p in ps)})", t.term
        if t.kind == "g":
            p, x = sub(t.args[0])
            return f"{t.g.name}({p})", con(t.g.id, [x])
        if t.kind == "o":
            p, x = sub(t.t)
            return f"Some({p})", con(OPTION, [x])
        if t.kind == "E":
            v, xs = r.choice([v for v in t.variants])
            ps = [sub(x)[0] for x in xs]
            return f"{t.src}::{v}" + (f"({', '.join(ps)})" if ps else ""), t.term
        n = self.fresh("m")
        binds.append((n, t))
        return n, t.term

    def e_match(self, t, d):
        m = self.ty(2)
        e = self.slot(m, d)
        arms = []
        for _ in range(self.r.randint(1, 2)):
            binds = []
            p = self.pattern(m, 2, binds)
            keep = self.lets
            self.lets = self.lets + binds
            g = f" if {self.slot(BOOL, d - 1)}" if self.r.random() < 0.3 else ""
            arms.append(f"{p}{g} => {self.slot(t, d)}")
            self.lets = keep
        arms.append(f"_ => {self.slot(t, d)}")
        # the scrutinee is bound so that its own type is known
        n = self.fresh("q")
        return f"{{ let {n}: {self.ann(m)} = {e}; match {n} {{ {', '.join(arms)} }} }}"

    def e_block(self, t, d):
        keep = self.lets
        out = []
        for _ in range(self.r.randint(1, 2)):
            x = self.ty(2)
            n = self.fresh("v")
            e = self.slot(x, d)
            if self.r.random() < 0.6:
                out.append(f"let {n}: {self.ann(x)} = {e};")
            else:
                out.append(f"let {n} = {e}; let {self.fresh('w')}: {self.ann(x)} = {n};")
            self.lets = self.lets + [(n, x)]
        e = self.slot(t, d)
        self.lets = keep
        return f"{{ {' '.join(out)} {e} }}"

    def e_field(self, t, d):
        c = [(x, f) for x in self.structs for f, y in x.fields if y == t]
        if not c:
            return None
        x, f = self.r.choice(c)
        n = self.fresh("q")
        return f"{{ let {n}: {x.src} = {self.slot(x, d)}; {n}.{f} }}"

    def e_index(self, t, d):
        n = self.r.randint(2, 5)
        a = arr(t, n)
        i = u((n - 1).bit_length())
        q = self.fresh("q")
        return f"{{ let {q}: {self.ann(a)} = {self.slot(a, d)}; {q}[{self.slot(i, d)}] }}"

    def e_tupidx(self, t, d):
        ts = [self.ty(1) for _ in range(self.r.randint(1, 2))]
        i = self.r.randint(0, len(ts))
        ts.insert(i, t)
        q = self.fresh("q")
        return f"{{ let {q}: {self.ann(tup(ts))} = {self.slot(tup(ts), d)}; {q}.{i} }}"

    def args(self, names, ts, d):
        r = self.r
        es = [self.slot(x, d) for x in ts]
        self.slots += 1
        wrong = r.choice(["few", "many"]) if self.slots == self.at else None
        if r.random() < 0.6:
            if wrong == "few":
                es.pop(r.randrange(len(es)))
            elif wrong:
                es.insert(r.randint(0, len(es)), self.expr(self.ty(1), 0))
            if wrong:
                self.hit = f"{len(es)} arguments for {len(ts)} parameters"
                self.cs.append(z3.IntVal(len(es)) == len(ts))
            return f"({', '.join(es)})"
        l = [(n, e) for n, e in zip(names, es)]
        r.shuffle(l)
        if wrong == "few":
            l.pop()
        elif wrong:
            n, e = r.choice(l)
            l.append((r.choice([n, "zz"]), e))
        if wrong:
            self.hit = f"named arguments {[n for n, _ in l]} for parameters {names}"
            self.cs.append(z3.And([z3.Sum([z3.IntVal(int(m == n)) for m, _ in l] + [z3.IntVal(0)]) == 1 for n in names] + [z3.IntVal(len(l)) == len(names)]))
        return f"$({', '.join(f'{n}: {e}' for n, e in l)})"

    def how(self, kind, depth=None):
        """the way a unit is used has to be that of its kind"""
        self.slots += 1
        ways = {"fn": "", "entity": "inst ", "pipeline": f"inst({depth or 1}) "}
        if self.slots == self.at:
            o = self.r.choice([k for k in ways if k != kind])
            self.hit = f"a {kind} is used as a {o}"
            self.cs.append(z3.StringVal(o) == z3.StringVal(kind))
            return ways[o]
        if kind == "pipeline":
            return f"inst({self.num(depth)}) "
        return ways[kind]

    def e_loose(self, t, d):
        """a value whose type is only known from how it is used"""
        r = self.r
        q, w = self.fresh("q"), self.fresh("w")
        if t.kind == "o" and r.random() < 0.5:
            e = "None"
        elif t.kind == "u" and r.random() < 0.5:
            e = str(r.randrange(2 ** t.n)) if r.random() < 0.5 else f"trunc({self.expr(u(t.n + r.randint(0, 2)), d)})"
        elif t.kind == "a" and r.random() < 0.5:
            return f"{{ let {q} = std::undef::undef(); let {w} = [{', '.join([q] * t.n)}]; let {self.fresh('w')}: {self.ann(t.t)} = {q}; let {self.fresh('w')}: {self.ann(t)} = {w}; {w} }}"
        else:
            e = "std::undef::undef()"
        k = r.randrange(4)
        if k == 0:
            return f"{{ let {q} = {e}; let {w}: {self.ann(t)} = {q}; {q} }}"
        if k == 1:
            return f"{{ let {q} = {e}; gpick_{self.uid}({self.slot(BOOL, d)}, {q}, {self.slot(t, d)}) }}"
        if k == 2:
            return f"{{ let {q} = {e}; if {self.slot(BOOL, d)} {{ {q} }} else {{ {self.slot(t, d)} }} }}"
        return f"{{ let {q} = ({e}, {self.slot(t, d)}); let {w} = gswap_{self.uid}({q}.1, {q}.0); let {self.fresh('w')}: {self.ann(tup([t, t]))} = {q}; {w}.0 }}"

    def e_call(self, t, d):
        """a unit of its own, with a body"""
        ts = self.closed_types(t, 3)
        if not ts:
            return None
        f, names = self.unit("fn", ts, t, min(d, 1))
        return self.how("fn") + f + self.args(names, ts, d)

    def closed_types(self, t, n):
        """types of the parameters of a unit with result t, which is no place for the parameters of the top unit"""
        if any(g.src in t.src for g in self.generic):
            return None
        saved, self.generic = self.generic, []
        ts = [self.ty(2) for _ in range(self.r.randint(1, n))]
        self.generic = saved
        return ts

    def unit(self, kind, ts, t, d, depth=0):
        """an item with parameters ts and result t"""
        r = self.r
        f = self.fresh("f") + f"_{self.uid}"
        saved = self.params, self.lets, self.generic, self.kind
        self.generic = []
        names = [self.fresh("a") for _ in ts]
        # parameters that the body asks for cannot be added: only those there are
        self.lets, self.kind = list(zip(names, ts)), kind
        anns = [self.ann(x) for x in ts]
        rt = self.ann(t)
        self.params = None
        body = self.closed(t, d)
        self.params, self.lets, self.generic, self.kind = saved
        clk = "clk: clock, " if kind != "fn" else ""
        k = f"pipeline({depth})" if kind == "pipeline" else kind
        regs = "reg*%d; " % depth if depth else ""
        self.items.append(f"{k} {f}({clk}{', '.join(f'{n}: {x}' for n, x in zip(names, anns))}) -> {rt} {{ {regs}{body} }}")
        return f, names

    def closed(self, t, d):
        """an expression of type t from the parameters of the unit, or std::undef"""
        self.slots += 1
        if self.slots == self.at:
            o = self.other(t)
            self.hit = f"{o.src} where {t.src} is returned"
            self.cs.append(o.term == t.term)
            t = o
        return self.build(t)

    def build(self, t):
        r = self.r
        c = [n for n, x in self.lets if x == t]
        if c and r.random() < 0.8:
            return r.choice(c)
        if t.kind == "u":
            return f"{r.randrange(2 ** t.n)}u{t.n}"
        if t.kind == "s":
            return f"{{ let x: int<{t.n}> = {r.randrange(2 ** (t.n - 1))}; x }}"
        if t.kind == "b":
            return r.choice(["true", "false"])
        if t.kind == "t":
            return f"({', '.join(self.build(x) for x in t.ts)})"
        if t.kind == "a":
            return f"[{', '.join(self.build(t.t) for _ in range(t.n))}]"
        if t.kind == "o":
            return f"Some({self.build(t.t)})"
        if t.kind == "S":
            return f"{t.src}({', '.join(self.build(x) for _, x in t.fields)})"
        if t.kind == "g":
            return f"{t.g.name}({self.build(t.args[0])})"
        if t.kind == "E":
            v, xs = r.choice(t.variants)
            return f"{t.src}::{v}" + (f"({', '.join(self.build(x) for x in xs)})" if xs else "")
        n = self.fresh("x")
        return f"{{ let {n}: {t.src} = std::undef::undef(); {n} }}" if t.kind != "c" else "clk"

    def e_generic(self, t, d):
        """calls of generic functions: what the parameters are follows from the arguments"""
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return f"gid_{self.uid}({self.slot(t, d)})"
        if k == 1:
            x = self.ty(1)
            q = self.fresh("q")
            return f"{{ let {q}: {self.ann(tup([x, t]))} = gswap_{self.uid}({self.slot(t, d)}, {self.slot(x, d)}); {q}.1 }}"
        if k == 2:
            # both of the same type
            return f"gpick_{self.uid}({self.slot(BOOL, d)}, {self.slot(t, d)}, {self.slot(t, d)})"
        if k == 3:
            n = r.randint(1, 4)
            a = arr(t, n)
            return f"gfirst_{self.uid}({self.slot(a, d)})" if r.random() < 0.5 else f"gat_{self.uid}::<{t.src}, {self.num(n)}>({self.slot(a, d)})"
        if k == 4 and t.kind == "t" and len(t.ts) == 2 and t.ts[0] == t.ts[1]:
            return f"gdup_{self.uid}({self.slot(t.ts[0], d)})"
        if k == 5 and t.kind == "u" and t.n > 2:
            return f"gwide_{self.uid}({self.slot(u(t.n - 2), d)})"
        return None

    def e_method(self, t, d):
        r = self.r
        if self.gstructs and r.random() < 0.5:
            g = r.choice(self.gstructs)
            x = self.gtype(g, [t])
            q = self.fresh("q")
            return f"{{ let {q}: {self.ann(x)} = {self.slot(x, d)}; {q}.get({self.slot(BOOL, d)}) }}"
        c = [(x, m) for x in self.structs for m in x.methods if m[2] == t]
        if c:
            x, (m, a, _) = r.choice(c)
            q = self.fresh("q")
            return f"{{ let {q}: {x.src} = {self.slot(x, d)}; {q}.{m}({self.slot(a, d)}) }}"
        # traits: only the types that implement them
        if t.kind == "b":
            self.slots += 1
            impls = [u(8), BOOL] + self.structs[:1]
            x = r.choice(impls)
            if self.slots == self.at:
                o = self.other(x)
                self.hit = f"{o.src} does not implement the trait"
                self.cs.append(z3.Or([o.term == i.term for i in impls]))
                x = o
            return f"gtr_{self.uid}({self.expr(x, d)})" if r.random() < 0.5 else f"{self.expr(x, 0)}.tr_{self.uid}()"
        return None

    def e_lambda(self, t, d):
        # (a lambda inside a lambda is not always given a type, see P10)
        if self.lam:
            return None
        ts = [self.ty(1) for _ in range(self.r.randint(1, 2))]
        names = [self.fresh("l") for _ in ts]
        f, q = self.fresh("lam"), self.fresh("q")
        keep = self.lets
        self.lets = self.lets + list(zip(names, ts))
        kind, self.kind, self.lam = self.kind, "fn", True
        b = self.slot(t, d)
        self.kind, self.lam = kind, False
        self.lets = keep
        # the parameters get their types from the call; they are pinned inside
        pins = " ".join(f"let {n}: {self.ann(x)} = {n};" for n, x in zip(names, ts))
        return f"{{ let {f} = fn |{', '.join(names)}| {{ {pins} {b} }}; let {q}: {self.ann(t)} = {f}.call(({', '.join(self.slot(x, d) for x in ts)},)); {q} }}"

    def e_arith(self, t, d):
        r = self.r
        k = r.random()
        f = u if t.kind == "u" else s
        if k < 0.35 and t.n > (1 if t.kind == "u" else 2):
            return f"({self.slot(f(t.n - 1), d)} {r.choice('+-')} {self.slot(f(t.n - 1), d)})"
        if k < 0.55 and t.n > (1 if t.kind == "u" else 3):
            a = r.randint(1, t.n - 1)
            return f"({self.slot(f(a), d)} * {self.slot(f(t.n - a), d)})"
        return f"({self.slot(t, d)} {r.choice(['+.', '-.', '*.'])} {self.slot(t, d)})"

    def e_bits(self, t, d):
        r = self.r
        if r.random() < 0.2:
            return f"(~{self.slot(t, d)})"
        return f"({self.slot(t, d)} {r.choice(['&', '|', '^', '<<', '>>'])} {self.slot(t, d)})"

    def e_width(self, t, d):
        r = self.r
        f = u if t.kind == "u" else s
        k = r.randrange(4)
        q = self.fresh("q")
        if k == 0:
            m = t.n + r.randint(0, 2)
            return f"{{ let {q}: {self.ann(t)} = trunc({self.narrow(f, m, t.n, d)}); {q} }}"
        if k == 1 and t.kind == "u":
            m = r.randint(1, t.n)
            return f"{{ let {q}: {self.ann(t)} = zext({self.widen(m, t.n, d)}); {q} }}"
        if k == 2 and t.n > 1:
            a = r.randint(1, t.n - 1)
            return f"({self.slot(f(a), d)}.concat({self.slot(f(t.n - a), d)}))"
        if t.kind == "u":
            return f"{{ let {q}: {self.ann(t)} = std::conv::int_to_uint({self.slot(s(t.n), d)}); {q} }}" if t.n > 1 else None
        return f"{{ let {q}: {self.ann(t)} = std::conv::uint_to_int({self.slot(u(t.n), d)}); {q} }}"

    def narrow(self, f, m, n, d):
        return self.expr(f(m), d)

    def widen(self, m, n, d):
        return self.expr(u(m), d)

    def e_cmp(self, t, d):
        r = self.r
        x = u(r.randint(1, 9)) if r.random() < 0.5 else s(r.randint(2, 9))
        op = r.choice(["==", "!=", "<", ">", "<=", ">="])
        if op in ("==", "!=") and r.random() < 0.2:
            x = BOOL
        return f"({self.slot(x, d)} {op} {self.slot(x, d)})"

    def e_logic(self, t, d):
        r = self.r
        if r.random() < 0.2:
            return f"(!{self.slot(BOOL, d)})"
        return f"({self.slot(BOOL, d)} {r.choice(['&&', '||', '^^'])} {self.slot(BOOL, d)})"

    def e_make(self, t, d):
        r = self.r
        if t.kind == "t":
            return f"({', '.join(self.slot(x, d) for x in t.ts)})"
        if t.kind == "a":
            if r.random() < 0.3:
                return f"[{self.slot(t.t, d)}; {self.num(t.n)}]"
            n = self.num(t.n)
            return f"[{', '.join(self.slot(t.t, d) for _ in range(n))}]" if n else None
        if t.kind == "o":
            return f"Some({self.slot(t.t, d)})" if r.random() < 0.8 else f"{{ let q: {self.ann(t)} = None; q }}"
        if t.kind == "S":
            return t.src + self.args([f for f, _ in t.fields], [x for _, x in t.fields], d)
        if t.kind == "g":
            return f"{t.g.name}{self.args(['x'], t.args, d)}"
        if t.kind == "E":
            v, xs = r.choice(t.variants)
            return f"{t.src}::{v}" + (self.args(["abc"[i] for i in range(len(xs))], xs, d) if xs else "")

    def e_slice(self, t, d):
        n = t.n + self.r.randint(0, 2)
        a = self.r.randint(0, n - t.n)
        q, p = self.fresh("q"), self.fresh("q")
        x = arr(t.t, n)
        return f"{{ let {q}: {x.src} = {self.slot(x, d)}; let {p}: {self.ann(t)} = {q}[{a}..{a + self.num(t.n)}]; {p} }}"

    def e_reg(self, t, d):
        r = self.r
        n = self.fresh("r")
        c = self.slot(CLK, 0)
        a = f": {self.ann(t)}" if r.random() < 0.6 else ""
        rst = f" reset ({self.slot(BOOL, 0)}: {self.slot(t, d)})" if r.random() < 0.6 else ""
        if self.kind == "pipeline":
            return None
        return f"{{ reg({c}) {n}{a}{rst} = {self.slot(t, d)}; {n} }}"

    def e_inst(self, t, d):
        ts = self.closed_types(t, 2)
        if not ts:
            return None
        f, names = self.unit("entity", ts, t, 0)
        return self.how("entity") + f + self.args(["clk"] + names, [CLK] + ts, d)

    def e_pipe(self, t, d):
        if self.kind == "pipeline":
            return None
        depth = self.r.randint(1, 3)
        ts = self.closed_types(t, 2)
        if not ts:
            return None
        f, names = self.unit("pipeline", ts, t, 0, depth)
        return self.how("pipeline", depth) + f + self.args(["clk"] + names, [CLK] + ts, d)

    # ---- declarations
    def types(self):
        r = self.r
        for _ in range(r.randint(1, 2)):
            self.ids += 1
            n = f"S{self.ids}_{self.uid}"
            fs = [(f"f{i}", self.ty(1)) for i in range(r.randint(1, 3))]
            self.structs.append(T(n, con(self.ids), "S", fields=fs, methods=[]))
        if r.random() < 0.4:
            # another of the same shape
            x = self.structs[0]
            self.ids += 1
            self.structs.append(T(f"S{self.ids}_{self.uid}", con(self.ids), "S", fields=x.fields, methods=[]))
        for _ in range(r.randint(0, 2)):
            self.ids += 1
            vs = [(f"V{i}", [self.ty(1) for _ in range(r.randint(0, 2))]) for i in range(r.randint(2, 3))]
            self.enums.append(T(f"E{self.ids}_{self.uid}", con(self.ids), "E", variants=vs))
        for _ in range(r.randint(0, 2)):
            self.ids += 1
            g = type("G", (), {})()
            g.id, g.name = self.ids, f"G{self.ids}_{self.uid}"
            self.gstructs.append(g)

    def declared(self):
        r, out, k = self.r, [], self.uid
        for x in self.structs:
            out.append(f"struct {x.src} {{ {', '.join(f'{f}: {y.src}' for f, y in x.fields)} }}")
            a, b = self.ty(1), r.choice(x.fields)
            self.lets = [("self_", x), ("a", a)]
            saved, self.params, g, self.generic = self.params, None, self.generic, []
            body = f"if a == a {{ self.{b[0]} }} else {{ self.{b[0]} }}" if a.kind in "usb" else f"self.{b[0]}"
            self.params, self.generic, self.lets = saved, g, []
            out.append(f"impl {x.src} {{ fn m(self, a: {a.src}) -> {self.ann(b[1])} {{ {body} }} }}")
            x.methods.append(("m", a, b[1]))
        for x in self.enums:
            vs = [v + (f"{{ {', '.join(f'{n}: {y.src}' for n, y in zip('abc', ys))} }}" if ys else "") for v, ys in x.variants]
            out.append(f"enum {x.src} {{ {', '.join(vs)} }}")
        for g in self.gstructs:
            out.append(f"struct {g.name}<T> {{ x: T }}\nimpl<T> {g.name}<T> {{ fn get(self, c: bool) -> T {{ if c {{ self.x }} else {{ self.x }} }} }}")
        if r.random() < 0.25:
            self.impl(out)
        impls = "".join(f"impl Tr_{k} for {t} {{ fn tr_{k}(self) -> bool {{ true }} }}\n" for t in ["uint<8>", "bool"] + [x.src for x in self.structs[:1]])
        out.append(f"""trait Tr_{k} {{ fn tr_{k}(self) -> bool; }}
{impls}fn gtr_{k}<T: Tr_{k}>(x: T) -> bool {{ x.tr_{k}() }}
fn gid_{k}<T>(x: T) -> T {{ x }}
fn gswap_{k}<A, B>(a: A, b: B) -> (B, A) {{ (b, a) }}
fn gpick_{k}<T>(c: bool, a: T, b: T) -> T {{ if c {{ a }} else {{ b }} }}
fn gfirst_{k}<T, #uint N>(a: [T; N]) -> T {{ a[0] }}
fn gat_{k}<T, #uint N>(a: [T; N]) -> T {{ a[0] }}
fn gdup_{k}<T>(a: T) -> (T, T) {{ (a, a) }}
fn gwide_{k}<#uint N, #uint M>(a: uint<N>) -> uint<M> where M: {{ N + 2 }} {{ zext(a) }}""")
        return out

    def impl(self, out):
        r, k = self.r, self.uid
        # what an impl says has to be what the trait says
        mt = [self.ty(1) for _ in range(3)]
        sig = f"fn mt_{k}(self, a: {mt[0].src}, b: {mt[1].src}) -> {mt[2].src}"
        out.append(f"struct Is_{k} {{ x: bool }}\ntrait Ts_{k} {{ {sig}; }}")
        a, b, c = self.ann(mt[0]), self.ann(mt[1]), self.ann(mt[2])
        x, y = ("a", "b")
        self.slots += 1
        if self.slots == self.at:
            self.hit = "the parameters of an impl are not those of the trait"
            x = r.choice(["b", "z"])
            y = "a" if x == "b" else "b"
            self.cs.append(z3.StringVal(x) == z3.StringVal("a"))
        self.slots += 1
        more = ""
        if self.slots == self.at:
            self.hit = "an impl has a method that the trait does not have"
            self.cs.append(z3.IntVal(2) == 1)
            more = f" fn other_{k}(self) -> bool {{ true }}"
        self.slots += 1
        un = f"{{ fn mt_{k}(self, {x}: {a}, {y}: {b}) -> {c} {{ std::undef::undef() }}{more} }}"
        if self.slots == self.at:
            self.hit = "an impl lacks a method of the trait"
            self.cs.append(z3.IntVal(0) == 1)
            un = "{}"
        out.append(f"impl Ts_{k} for Is_{k} {un}")

    def program(self):
        r = self.r
        self.types()
        decls = self.declared()
        self.kind = r.choice(["fn", "entity", "entity"])
        inst, pending = [], []
        if r.random() < 0.35:
            for i in range(2):
                c = self.ty(1)
                inst.append(c)
                pending.append(T(f"T{i}", c.term, "G"))
            self.generic = pending
        if self.kind != "fn":
            self.params = [("clk", CLK), ("rst", BOOL)]
        t = self.ty(2)
        e = self.slot(t, r.choice([2, 3, 3]))
        rt = self.ann(t)
        g = f"<{', '.join(x.src for x in self.generic)}>" if self.generic else ""
        top = f"{self.kind} top_{self.uid}{g}({', '.join(f'{n}: {x.src}' for n, x in self.params)}) -> {rt} {{ {e} }}"
        use = ""
        if inst:
            # the bodies of generic units are checked when they are used
            def closed(t):
                return re.sub(r"\bT([01])\b", lambda m: inst[int(m[1])].src, t.src)

            use = (f"{self.kind} use_{self.uid}({', '.join(f'{n}: {closed(x)}' for n, x in self.params)}) -> {closed(t)} {{ "
                   f"{'inst ' if self.kind != 'fn' else ''}top_{self.uid}::<{', '.join(c.src for c in inst)}>({', '.join(n for n, _ in self.params)}) }}")
        return "\n".join(decls + self.items + [top, use]) + "\n"


def program(seed, uid, at):
    g = Gen(random.Random(seed), uid, at)
    src = g.program()
    return g, src


def p32(tier, rng):
    quick = tier == "quick"
    out = []
    uid = 0
    while len(out) < (1000 if quick else 10000):
        uid += 1
        seed = rng.getrandbits(64)
        g, src = program(seed, uid, 0)
        if len(src) > 6000:
            continue
        out.append(Verdict(f"ok{uid}", src, True, "all types fit", formula=(g.cs, False)))
        for at in rng.sample(range(1, g.slots + 1), min(3, g.slots)):
            h, src = program(seed, uid, at)
            if h.hit is None:
                continue
            if solve(h.cs, 10)[0] != "unsat":
                continue
            out.append(Verdict(f"bad{uid}_{at}", src, False, h.hit, formula=(h.cs, True)))
    return out
