"""Seeded generator of well-typed Spade programs together with their meaning.

Every production builds the source text and the z3 value side by side, so the meaning never passes
through the compiler.
"""
import z3
from .spec import *
from .sym import bv, ext, extract, ite


def tmap(f, v):
    if v is None:
        return None
    if isinstance(v, tuple):
        return (None if v[0] is None else f(v[0]), [[tmap(f, x) for x in p] for p in v[1]])
    if isinstance(v, list):
        return [tmap(f, x) for x in v]
    return f(v)


def leaves(v):
    if v is None:
        return
    if isinstance(v, tuple):
        if v[0] is not None:
            yield v[0]
        for p in v[1]:
            for x in p:
                yield from leaves(x)
    elif isinstance(v, list):
        for x in v:
            yield from leaves(x)
    else:
        yield v


_n = [0]


def fresh(ty):
    """a value of ty made of fresh variables"""

    def mkv(v):
        _n[0] += 1
        return z3.BitVec(f"p{_n[0]}", v.size())

    return tmap(mkv, zero(ty))


def subst(v, pairs):
    return tmap(lambda x: z3.substitute(x, *pairs) if pairs else x, v)


class Fun:
    def __init__(self, name, params, ret, pv, val, method_of=None, kind="fn"):
        self.name, self.params, self.ret, self.pv, self.val = name, params, ret, pv, val
        self.method_of = method_of
        self.kind = kind

    def apply(self, args):
        pairs = []
        for p, a in zip(self.pv, args):
            pairs += list(zip(leaves(p), leaves(a.v)))
        return subst(self.val, pairs)


def pattern_cost(t):
    """The compiler's exhaustiveness analysis enumerates constructor combinations"""
    if isinstance(t, Enum):
        return sum(pattern_cost(Tuple(*[x for _, x in fs])) for _, fs in t.variants)
    if isinstance(t, Scalar):
        return 2
    p = 1
    for m in t.members:
        p *= pattern_cost(m)
    return p


class Opts:
    """weights for the productions"""

    def __init__(self, **kw):
        self.w = dict(var=6, leaf=2, op=6, if_=3, match=3, let=3, call=3, proj=4, block=1, lam=1, iflet=1, maxw=12)
        self.w.update(kw)


class Gen:
    def __init__(self, rng, uid, opts=None):
        self.r = rng
        self.uid = uid
        self.o = (opts or Opts()).w
        self.items = []
        self.enums, self.structs, self.funs = [], [], []
        self.size = 0
        self.entity = False
        self.lamdepth, self.nolam = 0, False
        self.cnt = 0

    def name(self, p):
        self.cnt += 1
        return f"{p}{self.uid}_{self.cnt}"

    # -- types
    def scalar(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return Bool
        w = r.choice([1, 2, 3, 4, 5, 6, 8, r.randint(1, self.o["maxw"])])
        return Int(w) if k < 0.6 else UInt(w)

    def small_type(self, d=1):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            return self.scalar()
        if k < 0.65:
            return Tuple(*[self.small_type(d - 1) for _ in range(r.randint(2, 3))])
        if k < 0.75:
            return Array(self.small_type(d - 1), r.choice([1, 2, 3, 4]))
        if k < 0.8:
            return option(self.small_type(d - 1))
        if k < 0.92 and self.enums:
            return r.choice(self.enums)
        if self.structs:
            return r.choice(self.structs)
        return self.scalar()

    def declare_types(self, n):
        for _ in range(n):
            if self.r.random() < 0.6:
                name = self.name("E")
                vs = []
                for i in range(self.r.choice([1, 2, 2, 3, 3, 4, 5])):
                    fs = [(f"f{j}", self.small_type(1)) for j in range(self.r.choice([0, 0, 1, 1, 2, 3]))]
                    vs.append((f"V{i}", fs))
                t = Enum(name, vs)
                if t.w == 0:
                    continue
                self.enums.append(t)
            else:
                t = Struct(self.name("S"), [(f"m{j}", self.small_type(1)) for j in range(self.r.randint(1, 4))])
                self.structs.append(t)
            self.items.append(t.decl())

    # -- constructors
    def path(self, t, i):
        if t.name == "Option":
            return t.variants[i][0]
        return f"{t.name}::{t.variants[i][0]}"

    def args_text(self, params, args):
        """positional, or named in any order"""
        if not params:
            return "()"
        if self.r.random() < 0.5:
            return "(" + ", ".join(a.s for a in args) + ")"
        ps = list(zip(params, args))
        self.r.shuffle(ps)
        return "$(" + ", ".join(n if a.s == n and self.r.random() < 0.7 else f"{n}: {a.s}" for (n, _), a in ps) + ")"

    def construct(self, t, d, sc):
        if isinstance(t, Tuple):
            es = [self.expr(m, d - 1, sc) for m in t.members]
            return Ex(t, "(" + ", ".join(e.s for e in es) + ("," if len(es) == 1 else "") + ")", [e.v for e in es])
        if isinstance(t, Array):
            if t.n > 1 and self.r.random() < 0.15:
                e = self.expr(t.inner, d - 1, sc)
                return Ex(t, f"[{e.s}; {t.n}]", [e.v] * t.n)
            es = [self.expr(t.inner, d - 1, sc) for _ in range(t.n)]
            return Ex(t, "[" + ", ".join(e.s for e in es) + "]", [e.v for e in es])
        if isinstance(t, Struct):
            es = [self.expr(m, d - 1, sc) for m in t.members]
            return Ex(t, t.name + self.args_text(t.fields, es), [e.v for e in es])
        if isinstance(t, Enum):
            i = self.r.randrange(len(t.variants))
            fs = t.variants[i][1]
            es = [self.expr(m, d - 1, sc) for _, m in fs]
            if t.name == "Option" and i == 0:
                return Ex(t, self.annot(t, "None"), t.make(0, []))
            return Ex(t, self.path(t, i) + (self.args_text(fs, es) if fs else self.r.choice(["", "()"]) if t.name != "Option" else ""), t.make(i, [e.v for e in es]))
        raise TypeError(t)

    def literal(self, t):
        r = self.r
        if isinstance(t, BoolT):
            b = r.random() < 0.5
            return Ex(Bool, "true" if b else "false", bv(int(b), 1))
        w = t.w
        if t.signed:
            n = r.choice([0, 1 if w > 1 else 0, -1, -(1 << (w - 1)), (1 << (w - 1)) - 1, r.randint(-(1 << (w - 1)), (1 << (w - 1)) - 1)])
            s = f"{n}i{w}" if n >= 0 else f"(-{-n}i{w})"
        else:
            n = r.choice([0, 1, (1 << w) - 1, r.randrange(1 << w)])
            s = r.choice([f"{n}u{w}", f"0x{n:x}u{w}", f"0b{n:b}u{w}"])
        return Ex(t, s, bv(n, w))

    # -- paths to a value of type t inside the scope
    def projections(self, t, sc):
        out = []

        def walk(e, depth):
            if e.ty == t:
                out.append(e)
            if depth == 0:
                return
            T = e.ty
            if isinstance(T, Tuple):
                for i, m in enumerate(T.members):
                    walk(Ex(m, f"{e.s}.{i}", e.v[i]), depth - 1)
            elif isinstance(T, Struct):
                for (n, m), v in zip(T.fields, e.v):
                    walk(Ex(m, f"{e.s}.{n}", v), depth - 1)
            elif isinstance(T, Array):
                for i in range(T.n):
                    walk(Ex(T.inner, f"{e.s}[{i}]", e.v[i]), depth - 1)

        for n, e in self.visible(sc):
            walk(e, 3)
        return out

    @staticmethod
    def visible(sc):
        seen = {}
        for n, e in sc:
            seen[n] = e
        return list(seen.items())

    def cast(self, t, d, sc):
        """numeric conversions ending in t"""
        r = self.r
        k = r.random()
        if isinstance(t, Int):
            if k < 0.35:
                s = self.expr(Int(t.w + r.randint(1, 3)), d - 1, sc)
                return Ex(t, f"trunc::<{s.ty.w}, {t.w}>({s.s})" if False else f"{s.s}.trunc::<{t.w}>()", extract(s.v, t.w - 1, 0))
            if k < 0.65 and t.w > 1:
                s = self.expr(Int(r.randint(1, t.w)), d - 1, sc)
                return Ex(t, f"std::num::sext::<int<{s.ty.w}>, _, {s.ty.w}, {t.w}>({s.s})" if False else self.annot(t, f"sext({s.s})"), ext(s.v, t.w, True))
            s = self.expr(UInt(t.w), d - 1, sc)
            return Ex(t, f"{s.s}.as_int()", s.v)
        if k < 0.35:
            s = self.expr(UInt(t.w + r.randint(1, 3)), d - 1, sc)
            return Ex(t, f"{s.s}.trunc::<{t.w}>()", extract(s.v, t.w - 1, 0))
        if k < 0.65 and t.w > 1:
            s = self.expr(UInt(r.randint(1, t.w)), d - 1, sc)
            return Ex(t, self.annot(t, f"zext({s.s})"), ext(s.v, t.w, False))
        s = self.expr(Int(t.w), d - 1, sc)
        return Ex(t, f"{s.s}.as_uint()", s.v)

    def annot(self, t, s):
        v = self.name("an")
        return "{ let " + f"{v}: {t.src} = {s}; {v}" + " }"

    def op(self, t, d, sc):
        r = self.r
        if isinstance(t, BoolT):
            k = r.random()
            if k < 0.5:
                T = self.scalar()
                ops = ["==", "!="] if isinstance(T, BoolT) else ["==", "!=", "<", "<=", ">", ">="]
                return binop(r.choice(ops), self.expr(T, d - 1, sc), self.expr(T, d - 1, sc))
            if k < 0.6:
                return unop("!", self.expr(Bool, d - 1, sc))
            return binop(r.choice(["&&", "||", "^^"]), self.expr(Bool, d - 1, sc), self.expr(Bool, d - 1, sc))
        k = r.random()
        T = type(t)
        if k < 0.3 and t.w > 1:
            s = T(t.w - 1)
            return binop(r.choice("+-"), self.expr(s, d - 1, sc), self.expr(s, d - 1, sc))
        if k < 0.38 and 2 <= t.w <= 12:
            a = r.randint(1, t.w - 1)
            return binop("*", self.expr(T(a), d - 1, sc), self.expr(T(t.w - a), d - 1, sc))
        if k < 0.55:
            return binop(r.choice("&|^"), self.expr(t, d - 1, sc), self.expr(t, d - 1, sc))
        if k < 0.62:
            return binop(r.choice(["<<", ">>", ">>>"]), self.expr(t, d - 1, sc), self.expr(t, d - 1, sc))
        if k < 0.7:
            return binop(r.choice(["+.", "-."]), self.expr(t, d - 1, sc), self.expr(t, d - 1, sc))
        if k < 0.78:
            return unop("~", self.expr(t, d - 1, sc))
        if k < 0.84 and isinstance(t, Int):
            return unop("-", self.expr(t, d - 1, sc))
        if k < 0.88 and t.w >= (3 if isinstance(t, Int) else 2):
            e = r.randint(0, t.w - (2 if isinstance(t, Int) else 1))
            n = 1 << e
            return binop(r.choice("/%"), self.expr(t, d - 1, sc), Ex(t, str(n), bv(n, t.w)))
        return self.cast(t, d, sc)

    # -- patterns: (text, condition, bindings)
    def pattern(self, t, v, d, irrefutable=False, names=None):
        r = self.r
        names = names if names is not None else set()

        def bind():
            for _ in range(20):
                n = r.choice("abcdefghxyz")
                if n not in names:
                    names.add(n)
                    return n
            n = self.name("v")
            names.add(n)
            return n

        k = r.random()
        if d <= 0 or k < (0.3 if not irrefutable else 0.45):
            if r.random() < 0.35:
                return "_", z3.BoolVal(True), []
            n = bind()
            return n, z3.BoolVal(True), [(n, Ex(t, n, v))]
        if k > 0.93:
            n = bind()
            s, c, b = self.pattern(t, v, d - 1, irrefutable, names)
            return f"{n} @ {s}", c, b + [(n, Ex(t, n, v))]
        if isinstance(t, Scalar):
            if irrefutable:
                n = bind()
                return n, z3.BoolVal(True), [(n, Ex(t, n, v))]
            if isinstance(t, BoolT):
                b = r.random() < 0.5
                return ("true" if b else "false"), v == bv(int(b), 1), []
            # a literal that fits whatever sign the type has
            n = r.choice([0, r.randrange(1 << (t.w - (1 if t.signed else 0))), (1 << (t.w - (1 if t.signed else 0))) - 1])
            if t.signed and r.random() < 0.3:
                n = -r.choice([1, 1 << (t.w - 1), r.randrange(1, 1 + (1 << (t.w - 1)))])
            return str(n), v == bv(n % (1 << t.w), t.w), []
        if isinstance(t, Enum):
            i = 0 if irrefutable and len(t.variants) == 1 else r.randrange(len(t.variants))
            if irrefutable and len(t.variants) > 1:
                n = bind()
                return n, z3.BoolVal(True), [(n, Ex(t, n, v))]
            return self.vpat(t, v, i, d, irrefutable, names)
        ms = t.members
        subs = [self.pattern(m, x, d - 1, irrefutable, names) for m, x in zip(ms, v)]
        c = z3.And(*[s[1] for s in subs] or [z3.BoolVal(True)])
        bs = [b for s in subs for b in s[2]]
        if isinstance(t, Struct):
            return t.name + self.pargs(t.fields, subs), c, bs
        if isinstance(t, Array):
            return "[" + ", ".join(s[0] for s in subs) + "]", c, bs
        return "(" + ", ".join(s[0] for s in subs) + ("," if len(subs) == 1 else "") + ")", c, bs

    def vpat(self, t, v, i, d, irrefutable=False, names=None):
        names = names if names is not None else set()
        fs = t.variants[i][1]
        subs = [self.pattern(m, x, d - 1, irrefutable, names) for (_, m), x in zip(fs, v[1][i])]
        c = z3.And(t.is_(v, i), *[s[1] for s in subs])
        bs = [b for s in subs for b in s[2]]
        return self.path(t, i) + (self.pargs(fs, subs) if fs else ""), c, bs

    def pargs(self, fields, subs):
        if self.r.random() < 0.5:
            return "(" + ", ".join(s[0] for s in subs) + ")"
        ps = list(zip(fields, subs))
        self.r.shuffle(ps)
        return "$(" + ", ".join(n if s[0] == n and self.r.random() < 0.5 else f"{n}: {s[0]}" for (n, _), s in ps) + ")"

    def scrutinee(self, d, sc):
        cands = [e for n, e in self.visible(sc)]
        r = self.r
        if cands and r.random() < 0.7:
            e = r.choice(cands)
            if r.random() < 0.3 and len(cands) > 1:
                f = r.choice(cands)
                return Ex(Tuple(e.ty, f.ty), f"({e.s}, {f.s})", [e.v, f.v])
            return e
        return self.expr(self.small_type(2), d - 1, sc)

    def match(self, t, d, sc):
        r = self.r
        s = self.scrutinee(d, sc)
        if s.ty.w == 0 or pattern_cost(s.ty) > 3000:
            return self.expr(t, d - 1, sc)
        arms = []
        T = s.ty
        full = False
        if isinstance(T, Enum) and r.random() < 0.6:
            order = list(range(len(T.variants)))
            r.shuffle(order)
            pats = []
            for i in order:
                if r.random() < 0.25:
                    pats.append(self.vpat(T, s.v, i, 2))
                names = set()
                fs = T.variants[i][1]
                subs = [self.pattern(m, x, 1, True, names) for (_, m), x in zip(fs, s.v[1][i])]
                pats.append((self.path(T, i) + (self.pargs(fs, subs) if fs else ""), T.is_(s.v, i), [b for q in subs for b in q[2]]))
        else:
            pats = [self.pattern(T, s.v, 3) for _ in range(r.randint(1, 4))]
            if isinstance(T, BoolT) and r.random() < 0.5:
                pats = [("true", is1(s.v), []), ("false", z3.Not(is1(s.v)), [])]
                r.shuffle(pats)
                full = True
            else:
                pats.append(self.pattern(T, s.v, 2, True))
        for i, (txt, c, bs) in enumerate(pats):
            inner = sc + bs
            guard = ""
            if r.random() < 0.12 and i < len(pats) - 1 and not full and not (isinstance(T, Enum)):
                g = self.expr(Bool, 1, inner)
                guard = f" if {g.s}"
                c = z3.And(c, is1(g.v))
            arms.append((txt + guard, c, self.expr(t, d - 1, inner)))
        v = arms[-1][2].v
        for txt, c, e in reversed(arms[:-1]):
            v = t.ite(c, e.v, v)
        body = ", ".join(f"{txt} => {e.s}" for txt, c, e in arms)
        return Ex(t, f"match {s.s} {{ {body} }}", v)

    def iflet(self, t, d, sc):
        s = self.scrutinee(d, sc)
        if s.ty.w == 0:
            return self.expr(t, d - 1, sc)
        txt, c, bs = self.pattern(s.ty, s.v, 2)
        a = self.expr(t, d - 1, sc + bs)
        b = self.expr(t, d - 1, sc)
        return Ex(t, f"if let {txt} = {s.s} {{ {a.s} }} else {{ {b.s} }}", t.ite(c, a.v, b.v))

    def let(self, t, d, sc):
        r = self.r
        stm = []
        inner = list(sc)
        for _ in range(r.randint(1, 3)):
            T = self.small_type(2)
            e = self.expr(T, d - 1, inner)
            if r.random() < 0.6:
                n = r.choice("abcdefghxyz")
                ann = f": {T.src}" if r.random() < 0.4 else ""
                stm.append(f"let {n}{ann} = {e.s};")
                inner.append((n, Ex(T, n, e.v)))
            else:
                txt, c, bs = self.pattern(T, e.v, 2, True)
                if txt == "_":
                    continue
                stm.append(f"let {txt} = {e.s};")
                inner += bs
        e = self.expr(t, d - 1, inner)
        return Ex(t, "{ " + " ".join(stm) + f" {e.s} }}", e.v)

    def lam(self, t, d, sc):
        r = self.r
        ps = [(r.choice("pqrs") + str(i), self.small_type(1)) for i in range(r.randint(1, 3))]
        pv = [fresh(T) for _, T in ps]
        f = self.name("f")
        # a lambda sees its surroundings
        ent, self.entity = self.entity, False
        self.lamdepth += 1
        body = self.expr(t, d - 1, sc + [(n, Ex(T, n, v)) for (n, T), v in zip(ps, pv)])
        self.entity = ent
        self.lamdepth -= 1
        # see DESIGN.md: a lambda in the arguments of a lambda call in a lambda is not inferred
        was, self.nolam = self.nolam, self.nolam or self.lamdepth > 0
        args = [self.expr(T, d - 1, sc) for _, T in ps]
        self.nolam = was
        fun = Fun(f, ps, t, pv, body.v)
        args_s = ", ".join(a.s for a in args) + ","
        return Ex(
            t, "{ " + f"let {f} = fn |{', '.join(n for n, _ in ps)}| {{ {' '.join(f'let {n}: {T.src} = {n};' for n, T in ps)} let q: {t.src} = {body.s}; q }}; {f}.call(({args_s}))" + " }", fun.apply(args)
        )

    def call(self, t, d, sc):
        fs = [f for f in self.funs if f.ret == t and (f.kind == "fn" or self.entity)]
        if not fs:
            return self.new_fun(t, d, sc)
        return self.call_fun(self.r.choice(fs), d, sc)

    def call_fun(self, f, d, sc):
        args = [self.expr(T, d - 1, sc) for _, T in f.params]
        v = f.apply(args)
        if f.method_of is not None:
            return Ex(f.ret, f"{args[0].s}.{f.name}" + self.args_text(f.params[1:], args[1:]), v)
        inst = "inst " if f.kind == "entity" else ""
        return Ex(f.ret, inst + f.name + self.args_text(f.params, args), v)

    def new_fun(self, t, d, sc):
        if len(self.funs) >= 6 or d < 2:
            return self.expr(t, d - 1, sc)
        r = self.r
        k = r.random()
        owners = [x for x in self.structs + self.enums]
        ps = [(f"q{i}", self.small_type(2)) for i in range(r.randint(1, 4))]
        if k < 0.3 and owners:
            o = r.choice(owners)
            ps = [("self", o)] + ps[1:]
        pv = [fresh(T) for _, T in ps]
        kind = "entity" if self.entity and r.random() < 0.4 and ps[0][0] != "self" else "fn"
        ent, self.entity = self.entity, kind == "entity"
        body = self.expr(t, min(d, 3), [(n, Ex(T, n, v)) for (n, T), v in zip(ps, pv)])
        self.entity = ent
        name = self.name("fn")
        deco = "#[inline] " if r.random() < 0.3 else ""
        sig = ", ".join(n if n == "self" else f"{n}: {T.src}" for n, T in ps)
        txt = f"{deco}{kind} {name}({sig}) -> {t.src} {{ {body.s} }}"
        if ps[0][0] == "self":
            self.items.append(f"impl {ps[0][1].name} {{ {txt} }}")
            f = Fun(name, ps, t, pv, body.v, method_of=ps[0][1])
        else:
            self.items.append(txt)
            f = Fun(name, ps, t, pv, body.v, kind=kind)
        self.funs.append(f)
        return self.call_fun(f, d, sc)

    def dyn_index(self, t, d, sc):
        n = self.r.choice([1, 2])
        T = Array(t, 1 << n)
        cands = [e for _, e in self.visible(sc) if isinstance(e.ty, Array) and e.ty.inner == t and e.ty.n in (2, 4, 8)]
        if cands:
            a = self.r.choice(cands)
            n = (a.ty.n - 1).bit_length()
        else:
            a = self.construct(T, d, sc)
        i = self.expr(UInt(n), d - 1, sc)
        return Ex(t, f"{a.s}[{i.s}]", index(a.ty, a.v, i.v))

    def slice(self, t, d, sc):
        """array ranges"""
        cands = [e for _, e in self.visible(sc) if isinstance(e.ty, Array) and e.ty.inner == t.inner and e.ty.n >= t.n]
        if cands:
            a = self.r.choice(cands)
        else:
            a = self.construct(Array(t.inner, t.n + self.r.randint(0, 2)), d, sc)
        lo = self.r.randint(0, a.ty.n - t.n)
        hi = lo + t.n
        los = "" if lo == 0 and self.r.random() < 0.5 else str(lo)
        his = "" if hi == a.ty.n and self.r.random() < 0.5 else str(hi)
        if not los and not his:
            los = "0"
        return Ex(t, f"{a.s}[{los}..{his}]", a.v[lo:hi])

    # -- the chooser
    def expr(self, t, d, sc):
        self.size += 1
        r = self.r
        cands = [Ex(t, n, e.v) for n, e in self.visible(sc) if e.ty == t]
        if d <= 0 or self.size > self.o.get("budget", 160):
            if cands and r.random() < 0.85:
                return r.choice(cands)
            ps = self.projections(t, sc) if sc else []
            if ps and r.random() < 0.7:
                return r.choice(ps)
            if isinstance(t, Scalar):
                return self.literal(t)
            return self.construct(t, d - 1, sc)
        o = self.o
        opts = [("if_", o["if_"]), ("match", o["match"]), ("let", o["let"]), ("call", o["call"]), ("lam", 0 if self.lamdepth else o["lam"]), ("iflet", o["iflet"])]
        if cands:
            opts.append(("var", o["var"]))
        if isinstance(t, Scalar):
            opts += [("leaf", o["leaf"]), ("op", o["op"] * 2)]
        else:
            opts.append(("cons", 5))
        opts.append(("proj", o["proj"]))
        opts.append(("dyn", 1))
        if isinstance(t, Array):
            opts.append(("slice", 2))
        k = r.choices([x for x, _ in opts], [w for _, w in opts])[0]
        if k == "var":
            return r.choice(cands)
        if k == "leaf":
            return self.literal(t)
        if k == "op":
            return self.op(t, d, sc)
        if k == "cons":
            return self.construct(t, d, sc)
        if k == "if_":
            c, a, b = self.expr(Bool, d - 1, sc), self.expr(t, d - 1, sc), self.expr(t, d - 1, sc)
            return Ex(t, f"if {c.s} {{ {a.s} }} else {{ {b.s} }}", t.ite(is1(c.v), a.v, b.v))
        if k == "proj":
            ps = self.projections(t, sc)
            if ps:
                return r.choice(ps)
            return self.expr(t, d - 1, sc)
        if k == "dyn":
            return self.dyn_index(t, d, sc)
        if k == "slice":
            return self.slice(t, d, sc)
        return getattr(self, k)(t, d, sc)


def program(rng, uid, depth=4, opts=None, nin=None, ntypes=None, out=None):
    """(source, top name, inputs, output type, value)"""
    g = Gen(rng, uid, opts)
    g.entity = rng.random() < 0.5
    g.declare_types(ntypes if ntypes is not None else rng.randint(1, 4))
    ins = [(n, g.small_type(2)) for n in "abcdefgh"[: nin or rng.randint(2, 5)]]
    pv = [fresh(T) for _, T in ins]
    t = out or g.small_type(2)
    e = g.expr(t, depth, [(n, Ex(T, n, v)) for (n, T), v in zip(ins, pv)])
    top = f"top{uid}"
    sig = ", ".join(f"{n}: {T.src}" for n, T in ins)
    kw = "entity" if g.entity else "fn"
    g.items.append(f"{kw} {top}({sig}) -> {t.src} {{\n    {e.s}\n}}")
    src = "\n".join(g.items) + "\n"

    def f(**vals):
        pairs = []
        for (n, T), p in zip(ins, pv):
            pairs += list(zip(leaves(p), leaves(vals[n])))
        return subst(e.v, pairs)

    return src, top, ins, t, f
