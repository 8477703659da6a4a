"""P23 the standard library's numeric functions, P24 its conversions, array and option functions."""
import random
import z3
from ..check import Comb, Seq, Verdict
from ..spec import *
from ..sym import bv, ext, extract, cat, ite
from .data import comb

WQ = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65]


# ------------------------------------------------------------------ meaning of the functions
def catz(*ps):
    ps = [p for p in ps if p is not None]
    return cat(ps) if ps else None


def bit(x, i):
    return extract(x, i, i)


def gray(x):
    return x ^ z3.LShR(x, 1)


def ungray(x):
    """the number whose Gray code is x: bit i is the parity of the bits from i up"""
    w = x.size()
    out, acc = [], None
    for i in range(w - 1, -1, -1):
        acc = bit(x, i) if acc is None else acc ^ bit(x, i)
        out.append(acc)
    return cat(out)


def interleave_bits(a, b):
    """bit i of a to bit 2i, bit i of b to bit 2i+1"""
    ps = []
    for i in range(a.size() - 1, -1, -1):
        ps += [bit(b, i), bit(a, i)]
    return cat(ps)


def absv(x):
    return z3.If(x < 0, -x, x)


def parity(x):
    r = bit(x, 0)
    for i in range(1, x.size()):
        r = r ^ bit(x, i)
    return r


def resize(x, w, signed):
    """to w bits; None is the zero-width value"""
    if w == 0:
        return None
    if x is None:
        return bv(0, w)
    return extract(x, w - 1, 0) if w <= x.size() else ext(x, w, signed)


def spell(r, fn, meth, args, generics=""):
    """one of the ways to call a function that is also a method"""
    k = r.random()
    if meth is None or (fn is not None and k < 0.3):
        return f"{fn}{generics}({', '.join(args)})"
    if fn is not None and len(args) == 2 and k < 0.45:
        return f"({args[0]} `{fn}` {args[1]})"
    return f"{args[0]}.{meth}({', '.join(args[1:])})"


def p23(tier, rng):
    quick = tier == "quick"
    r = random.Random(rng.getrandbits(64))
    ws = WQ if quick else sorted(set(range(1, 40)) | set(WQ) | {48, 100, 127, 128})
    out = []
    cnt = [0]

    def add(tag, ins, outt, body, f, items="", pre=None, kind="fn"):
        cnt[0] += 1
        out.append(comb(f"{tag}_{cnt[0]}", ins, outt, body, f, items, kind, pre))

    for w in ws:
        I, U, A = Int(w), UInt(w), Array(Bool, w)
        a1, a2 = [("x", I)], [("x", I), ("y", I)]
        u1, u2 = [("x", U)], [("x", U), ("y", U)]
        both = [(I, a1, a2), (U, u1, u2)]
        # abs, min, max, order
        add("abs", a1, U, "x.abs()", lambda x: absv(x))
        add("absf", a1, U, "std::num::abs(x)", lambda x: absv(x))
        add("abstr", a1, I, "std::ops::abs_trunc(x)", lambda x: absv(x))
        for T, _, i2 in both:
            lt = (lambda x, y: x < y) if T.signed else z3.ULT
            add("max", i2, T, "x.max(y)", lambda x, y, lt=lt: z3.If(lt(x, y), y, x))
            add("min", i2, T, "x.min(y)", lambda x, y, lt=lt: z3.If(lt(x, y), x, y))
        add("maxf", a2, I, "std::ops::max(x, y)", lambda x, y: z3.If(x > y, x, y))
        add("minf", a2, I, "std::ops::min(x, y)", lambda x, y: z3.If(x > y, y, x))
        add("order", a2, Tuple(I, I), "std::ops::order(x, y)", lambda x, y: [z3.If(x > y, y, x), z3.If(x > y, x, y)])
        # single bits
        for T, i1, _ in both:
            add("msb", i1, Bool, "x.msb()", lambda x, w=w: bit(x, w - 1))
            add("lsb", i1, Bool, "x.lsb()", lambda x: bit(x, 0))
        add("sign", a1, Bool, "x.sign_bit()", lambda x, w=w: bit(x, w - 1))
        # gray codes
        G = Struct("Gray", [("inner", U)], f"<{w}>")
        use = "use std::num::Gray;\n"
        add("tog", u1, G, "x.to_gray()", lambda x: [gray(x)], use)
        add("togb", u1, A, "x.to_gray().as_bits()", lambda x, w=w: [bit(gray(x), i) for i in range(w)])
        add("gb", [("x", G)], A, "x.as_bits()", lambda x, w=w: [bit(x[0], i) for i in range(w)], use)
        add("gu", [("x", G)], U, "x.to_uint()", lambda x: ungray(x[0]), use)
        add("rt", u1, U, "x.to_gray().to_uint()", lambda x: x)
        add("b2g", u1, U, "std::ops::bin_to_gray(x)", lambda x: gray(x))
        add("g2b", u1, U, "std::ops::gray_to_bin(x)", lambda x: ungray(x))
        add("geq", [("x", G), ("y", G)], Bool, r.choice(["x == y", "!(x != y)"]), lambda x, y: tob(x[0] == y[0]), use)
        if w > 0:
            # neighbours differ in one bit, the wrap-around included
            add("gstep", u1, A, f"let a = x.to_gray().as_bits(); let b = (x +. 1).to_gray().as_bits(); a ^ b",
                lambda x, w=w: [bit(gray(x) ^ gray(x + 1), i) for i in range(w)])
        # reductions over bits
        for op, f in (
            ("and", lambda v: tob(z3.And(*[is1(b) for b in v]))),
            ("or", lambda v: tob(z3.Or(*[is1(b) for b in v]))),
            ("xor", lambda v: parity(cat(list(reversed(v))))),
        ):
            add("red" + op, [("x", A)], Bool, r.choice([f"std::ops::reduce_{op}(x)", f"x.reduce_{op}()"]), lambda x, f=f: f(x))
            add("redu" + op, u1, Bool, r.choice([f"x.as_bits().reduce_{op}()", f"std::ops::reduce_{op}(x.as_bits())"]),
                lambda x, f=f, w=w: f([bit(x, i) for i in range(w)]))
        # division as a combinational function (a zero divisor gives nothing in particular)
        if w <= (9 if quick else 12):
            nz = lambda x, y: [y != 0]
            for T, _, i2 in both:
                # the quotient of the smallest number by -1 does not fit
                fits = (lambda x, y, w=w: [y != 0, z3.Not(z3.And(y == -1, x == bv(1 << (w - 1), w)))]) if T.signed else nz
                dv = (lambda x, y: x / y) if T.signed else (lambda x, y: z3.UDiv(x, y))
                md = (lambda x, y: z3.SRem(x, y)) if T.signed else (lambda x, y: z3.URem(x, y))
                add("cdiv", i2, T, "std::ops::comb_div(x, y)", dv, pre=fits)
                add("cmod", i2, T, "std::ops::comb_mod(x, y)", md, pre=nz)
        # interleaving
        if 2 * w <= 130:
            add("il", u2, UInt(2 * w), spell(r, "std::ops::interleave" if r.random() < 0.5 else "interleave", "interleave", ["x", "y"]), lambda x, y: interleave_bits(x, y))
        # default values
        add("defi", [("z", Bool)], I, r.choice(["default()", f"default::<int<{w}>>()", "std::default::default()"]), lambda z, w=w: bv(0, w))
        add("defu", [("z", Bool)], U, r.choice(["default()", f"default::<uint<{w}>>()"]), lambda z, w=w: bv(0, w))
        add("defg", [("z", Bool)], G, "default()", lambda z, w=w: [bv(0, w)], use)
        # resizing
        vs = sorted({0, 1, w - 1, w, w + 1, 2 * w, r.choice(ws), r.choice(ws)} if quick else {0, 1, 2, w - 1, w, w + 1, 2 * w, 2 * w + 1} | set(r.sample(ws, 6)))
        for v in vs:
            for T, i1, _ in both:
                V = type(T)(v)
                if v <= w and v > 0:
                    add("tr", i1, V, spell(r, r.choice(["trunc", "std::num::trunc", "std::conv::trunc"]), "trunc", ["x"]), lambda x, v=v: resize(x, v, False))
                if v >= w:
                    fn = "sext" if T.signed else "zext"
                    add("ex", i1, V, spell(r, r.choice([fn, "std::num::" + fn, "std::conv::" + fn]), None, ["x"]), lambda x, v=v, s=T.signed: resize(x, v, s))
                if v == 0:
                    continue
                W = type(T)(w + v)
                i2 = [("x", T), ("y", V)]
                add("cc", i2, W, spell(r, r.choice(["concat", "std::num::concat", "std::conv::concat"]), "concat", ["x", "y"]), lambda x, y: cat([x, y]))
                if r.random() < 0.3:
                    add("ccl", i1, W, f"x.concat({5 % (1 << min(v, 2))}{'i' if T.signed else 'u'}{v})" if v > 3 else f"x.concat(0{'i' if T.signed else 'u'}{v})",
                        lambda x, v=v: cat([x, bv(5 % (1 << min(v, 2)) if v > 3 else 0, v)]))
            if v > w:
                # too narrow a result or a wrong sign
                for fn, T, V in (("sext", Int(v), I), ("zext", UInt(v), U)):
                    out.append(Verdict(f"bad_{fn}_{w}_{v}", f"fn top(x: {T.src}) -> {V.src} {{ {fn}(x) }}\n", False, f"{fn} cannot narrow {T.src} to {V.src}"))
            if v < w and v > 0:
                pass
    # widths that do not agree
    for w, v in [(3, 4), (4, 3), (8, 9), (1, 2), (16, 15), (33, 32)]:
        for T, V in ((Int(w), Int(v)), (UInt(w), UInt(v))):
            for m in ("max", "min"):
                out.append(Verdict(f"bad_{m}_{T.w}_{V.w}_{T.signed}", f"fn top(x: {T.src}, y: {V.src}) -> {T.src} {{ x.{m}(y) }}\n", False, "operands of different widths"))
            out.append(Verdict(f"bad_cc_{T.w}_{V.w}_{T.signed}", f"fn top(x: {T.src}, y: {V.src}) -> {type(T)(w + v - 1).src} {{ x.concat(y) }}\n", False, "the result is too narrow for the concatenation"))
            out.append(Verdict(f"bad_ccp_{T.w}_{V.w}_{T.signed}", f"fn top(x: {T.src}, y: {V.src}) -> {type(T)(w + v + 1).src} {{ concat(x, y) }}\n", False, "the result is too wide for the concatenation"))
        out.append(Verdict(f"bad_ccs_{w}_{v}", f"fn top(x: int<{w}>, y: uint<{v}>) -> int<{w + v}> {{ x.concat(y) }}\n", False, "operands of different signs"))
        out.append(Verdict(f"bad_abs_{w}_{v}", f"fn top(x: int<{w}>) -> uint<{v}> {{ x.abs() }}\n", False, "abs keeps the width"))
        out.append(Verdict(f"bad_absu_{w}_{v}", f"fn top(x: uint<{w}>) -> uint<{w}> {{ x.abs() }}\n", False, "abs of an unsigned number"))
        out.append(Verdict(f"bad_sx_{w}_{v}", f"fn top(x: uint<{min(w, v)}>) -> int<{max(w, v)}> {{ sext(x) }}\n", False, "sext of an unsigned number"))
        out.append(Verdict(f"bad_zx_{w}_{v}", f"fn top(x: int<{min(w, v)}>) -> int<{max(w, v)}> {{ zext(x) }}\n", False, "zext of a signed number"))
    for n in ("msb", "lsb"):
        for t in ("int", "uint"):
            out.append(Verdict(f"bad_{n}_{t}", f"fn top(x: {t}<0>) -> bool {{ x.{n}() }}\n", False, "a number without bits has no such bit"))
    for op in ("and", "or", "xor"):
        out.append(Verdict(f"bad_red_{op}", f"fn top(x: [bool; 0]) -> bool {{ x.reduce_{op}() }}\n", False, "no bits to reduce"))
    return out


# ------------------------------------------------------------------ arrays, options, conversions
from ..gen import Gen, Opts, Fun, fresh, leaves, subst


def defaultable(t):
    if isinstance(t, (Int, UInt, BoolT)):
        return True
    if isinstance(t, Tuple):
        return 1 < len(t.members) <= 8 and all(defaultable(m) for m in t.members)
    if isinstance(t, Array):
        return defaultable(t.inner)
    return isinstance(t, Enum) and t.name == "Option"


def default_of(t):
    if isinstance(t, Enum):
        return t.make(0, [])
    if isinstance(t, Scalar):
        return bv(0, t.w)
    return [default_of(m) for m in t.members]


def some(v):
    return is1(v[0])


def the(v):
    return v[1][1][0]


class StdGen(Gen):
    """expressions that go through the standard library"""

    def __init__(self, rng, uid, opts=None):
        super().__init__(rng, uid, opts or Opts(lam=0))
        self.used = set()

    # an operand whose type is written out, so that a method can be looked up on it
    def recv(self, t, d, sc):
        e = self.expr(t, d - 1, sc)
        if e.s.isidentifier():
            return e, "", e.s
        n = self.name("v")
        return e, f"let {n}: {t.src} = {e.s}; ", n

    def out(self, t, pre, s, v, force=False):
        k = self.r.random()
        if force or k < 0.5:
            n = self.name("w")
            return Ex(t, "{ " + pre + f"let {n}: {t.src} = {s}; {n}" + " }", v)
        return Ex(t, "{ " + pre + s + " }" if pre else s, v)

    def fun(self, params, ret, d, sc):
        """a lambda; returns (text before, its text, the function)"""
        ps = [(self.name("p"), T) for T in params]
        pv = [fresh(T) for T in params]
        ent, self.entity = self.entity, False
        self.lamdepth += 1
        body = self.expr(ret, d - 1, sc + [(n, Ex(T, n, v)) for (n, T), v in zip(ps, pv)])
        self.lamdepth -= 1
        self.entity = ent
        lets = " ".join(f"let {n}: {T.src} = {n};" for n, T in ps)
        q = self.name("q")
        s = f"fn |{', '.join(n for n, _ in ps)}| {{ {lets} let {q}: {ret.src} = {body.s}; {q} }}"

        def f(*args):
            pairs = []
            for p, a in zip(pv, args):
                pairs += list(zip(leaves(p), leaves(a)))
            return subst(body.v, pairs)

        if self.r.random() < 0.25:
            n = self.name("f")
            return f"let {n} = {s}; ", n, f
        return "", s, f

    # -- productions: each gives an expression of type t, or None
    def some_array(self, inner=None, n=None):
        if n is None:
            n = self.r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
        return Array(inner or self.small_type(1), n)

    def s_map(self, t, d, sc):
        if not isinstance(t, Array) or self.lamdepth:
            return None
        A = self.some_array(n=t.n)
        a, pre, an = self.recv(A, d, sc)
        p2, f, ff = self.fun([A.inner], t.inner, d, sc)
        return self.out(t, pre + p2, f"{an}.map({f})", [ff(x) for x in a.v])

    def s_zip(self, t, d, sc):
        if not isinstance(t, Array) or not isinstance(t.inner, Tuple) or len(t.inner.members) != 2:
            return None
        A, B = (Array(m, t.n) for m in t.inner.members)
        a, p1, an = self.recv(A, d, sc)
        b, p2, bn = self.recv(B, d, sc)
        s = self.r.choice([f"{an}.zip({bn})", f"({an} `zip` {bn})", f"std::array::zip({an}, {bn})", f"zip({an}, {bn})"])
        return self.out(t, p1 + p2, s, [list(x) for x in zip(a.v, b.v)])

    def s_concat(self, t, d, sc):
        if not isinstance(t, Array) or t.n < 2:
            return None
        k = self.r.randint(1, t.n - 1)
        a, p1, an = self.recv(Array(t.inner, k), d, sc)
        b, p2, bn = self.recv(Array(t.inner, t.n - k), d, sc)
        s = self.r.choice([f"{an}.concat({bn})", f"std::conv::concat_arrays({an}, {bn})", f"({an} `concat_arrays` {bn})"])
        return self.out(t, p1 + p2, s, a.v + b.v)

    def s_push(self, t, d, sc):
        if not isinstance(t, Array) or t.n < 2:
            return None
        a, p1, an = self.recv(Array(t.inner, t.n - 1), d, sc)
        b, p2, bn = self.recv(t.inner, d, sc)
        if self.r.random() < 0.5:
            return self.out(t, p1 + p2, f"{an}.push_back({bn})", a.v + [b.v])
        return self.out(t, p1 + p2, f"{an}.push_front({bn})", [b.v] + a.v)

    def s_shift(self, t, d, sc):
        if not isinstance(t, Array) or t.n < 1:
            return None
        a, p1, an = self.recv(t, d, sc)
        b, p2, bn = self.recv(t.inner, d, sc)
        if self.r.random() < 0.5:
            return self.out(t, p1 + p2, f"{an}.shift_back({bn})", a.v[1:] + [b.v])
        return self.out(t, p1 + p2, f"{an}.shift_front({bn})", [b.v] + a.v[:-1])

    def s_reversed(self, t, d, sc):
        if not isinstance(t, Array):
            return None
        a, p1, an = self.recv(t, d, sc)
        return self.out(t, p1, self.r.choice([f"{an}.reversed()", f"std::conv::flip_array({an})"]), a.v[::-1])

    def s_interleave(self, t, d, sc):
        if not isinstance(t, Array) or t.n % 2 or not t.n:
            return None
        A = Array(t.inner, t.n // 2)
        a, p1, an = self.recv(A, d, sc)
        b, p2, bn = self.recv(A, d, sc)
        v = []
        for x, y in zip(a.v, b.v):
            v += [x, y]
        return self.out(t, p1 + p2, self.r.choice([f"{an}.interleave({bn})", f"interleave_arrays({an}, {bn})"]), v)

    def s_flatten(self, t, d, sc):
        if not isinstance(t, Array) or t.n < 1:
            return None
        k = self.r.choice([i for i in range(1, t.n + 1) if t.n % i == 0])
        a, p1, an = self.recv(Array(Array(t.inner, k), t.n // k), d, sc)
        return self.out(t, p1, f"{an}.flatten()", [x for y in a.v for x in y])

    def s_chunks(self, t, d, sc):
        if not isinstance(t, Array) or not isinstance(t.inner, Array):
            return None
        k = t.inner.n
        a, p1, an = self.recv(Array(t.inner.inner, k * t.n), d, sc)
        s = f"{an}.chunks" + (f"::<{k}>" if self.r.random() < 0.5 else "") + "()"
        return self.out(t, p1, s, [a.v[i * k : i * k + k] for i in range(t.n)], "::" not in s)

    def s_window(self, t, d, sc):
        if not isinstance(t, Array) or not isinstance(t.inner, Array) or t.n < 1:
            return None
        k = t.inner.n
        n = t.n + k - 1
        a, p1, an = self.recv(Array(t.inner.inner, n), d, sc)
        s = f"{an}.sliding_window" + (f"::<{k}>" if self.r.random() < 0.5 else "") + "()"
        return self.out(t, p1, s, [a.v[i : i + k] for i in range(t.n)], "::" not in s)

    def s_split(self, t, d, sc):
        if isinstance(t, Tuple) and len(t.members) == 2 and all(isinstance(m, Array) for m in t.members) and t.members[0].inner == t.members[1].inner:
            k, n = t.members[0].n, t.members[0].n + t.members[1].n
            a, p1, an = self.recv(Array(t.members[0].inner, n), d, sc)
            return self.out(t, p1, f"{an}.split_at" + (f"::<{k}>" if self.r.random() < 0.5 else "") + "()", [a.v[:k], a.v[k:]], True)
        if isinstance(t, Array):
            m = self.r.randint(0, 3)
            a, p1, an = self.recv(Array(t.inner, t.n + m), d, sc)
            if self.r.random() < 0.5:
                return self.out(t, p1, f"{an}.split_at::<{t.n}>().0", a.v[: t.n])
            return self.out(t, p1, f"{an}.split_at::<{m}>().1", a.v[m:])
        return None

    def s_unzip(self, t, d, sc):
        if isinstance(t, Tuple) and len(t.members) == 2 and all(isinstance(m, Array) for m in t.members) and t.members[0].n == t.members[1].n:
            A, B = t.members
            a, p1, an = self.recv(Array(Tuple(A.inner, B.inner), A.n), d, sc)
            return self.out(t, p1, f"{an}.unzip()", [[x[0] for x in a.v], [x[1] for x in a.v]])
        return None

    def s_unfold(self, t, d, sc):
        if not isinstance(t, Array) or self.lamdepth or t.n > 5 or t.n < 1:
            return None
        a, p1, an = self.recv(t.inner, d, sc)
        p2, f, ff = self.fun([t.inner], t.inner, min(d, 2), sc)
        v = [a.v]
        for _ in range(t.n - 1):
            v.append(ff(v[-1]))
        return self.out(t, p1 + p2, f"std::array::unfold({an}, {f})", v, True)

    def s_fold(self, t, d, sc):
        if self.lamdepth:
            return None
        A = self.some_array(n=self.r.choice([1, 2, 3, 4, 5]))
        a, p1, an = self.recv(A, d, sc)
        b, p2, bn = self.recv(t, d, sc)
        p3, f, ff = self.fun([t, A.inner], t, min(d, 2), sc)
        v = b.v
        for x in a.v:
            v = ff(v, x)
        return self.out(t, p1 + p2 + p3, f"{an}.fold({bn}, {f})", v)

    def s_reduce(self, t, d, sc):
        if self.lamdepth:
            return None
        A = Array(t, self.r.choice([1, 2, 3, 4, 5]))
        a, p1, an = self.recv(A, d, sc)
        p3, f, ff = self.fun([t, t], t, min(d, 2), sc)
        v = a.v[0]
        for x in a.v[1:]:
            v = ff(v, x)
        return self.out(t, p1 + p3, f"{an}.reduce({f})", v)

    def s_end(self, t, d, sc):
        A = self.some_array(t)
        a, p1, an = self.recv(A, d, sc)
        if self.r.random() < 0.5:
            return self.out(t, p1, f"{an}.first()", a.v[0])
        return self.out(t, p1, f"{an}.last()", a.v[-1])

    def s_quant(self, t, d, sc):
        if t is not Bool or self.lamdepth:
            return None
        A = self.some_array()
        a, p1, an = self.recv(A, d, sc)
        p2, f, ff = self.fun([A.inner], Bool, d, sc)
        bs = [is1(ff(x)) for x in a.v]
        if self.r.random() < 0.5:
            return self.out(t, p1 + p2, f"{an}.all({f})", tob(z3.And(*bs)))
        return self.out(t, p1 + p2, f"{an}.any({f})", tob(z3.Or(*bs)))

    def s_optb(self, t, d, sc):
        if t is not Bool:
            return None
        T = self.small_type(1)
        O = option(T)
        a, p1, an = self.recv(O, d, sc)
        k = self.r.random()
        if k < 0.3:
            return self.out(t, p1, f"{an}.is_some()", tob(some(a.v)))
        if k < 0.6:
            return self.out(t, p1, f"{an}.is_none()", tob(z3.Not(some(a.v))))
        if not isinstance(T, Scalar):
            return None
        b, p2, bn = self.recv(O, d, sc)
        e = O.same(a.v, b.v)
        if k < 0.85:
            return self.out(t, p1 + p2, f"({an} == {bn})", tob(e))
        return self.out(t, p1 + p2, f"({an} != {bn})", tob(z3.Not(e)))

    def s_unwrap(self, t, d, sc):
        a, p1, an = self.recv(option(t), d, sc)
        b, p2, bn = self.recv(t, d, sc)
        if self.r.random() < 0.2:
            # nothing is said of what comes out when there is no value, so ask only for what follows
            return self.out(t, p1 + p2, f"if {an}.is_some() {{ {an}.unwrap_or_undef() }} else {{ {bn} }}", t.ite(some(a.v), the(a.v), b.v), True)
        return self.out(t, p1 + p2, f"{an}.unwrap_or({bn})", t.ite(some(a.v), the(a.v), b.v))

    def s_optmap(self, t, d, sc):
        if not (isinstance(t, Enum) and t.name == "Option") or self.lamdepth:
            return None
        T = self.small_type(1)
        a, p1, an = self.recv(option(T), d, sc)
        none = t.make(0, [])
        if self.r.random() < 0.5:
            p2, f, ff = self.fun([T], t.variants[1][1][0][1], d, sc)
            return self.out(t, p1 + p2, f"{an}.map({f})", t.ite(some(a.v), t.make(1, [ff(the(a.v))]), none))
        p2, f, ff = self.fun([T], t, d, sc)
        return self.out(t, p1 + p2, f"{an}.and_then({f})", t.ite(some(a.v), ff(the(a.v)), none))

    def s_default(self, t, d, sc):
        if not defaultable(t):
            return None
        return self.out(t, "", self.r.choice(["default()", "std::default::default()"]), default_of(t), True)

    def s_num(self, t, d, sc):
        r = self.r
        if not isinstance(t, (Int, UInt)):
            return None
        k = r.choice(["mm", "tr", "ex", "cc", "abs", "len", "gray"])
        if k == "mm":
            a, p1, an = self.recv(t, d, sc)
            b, p2, bn = self.recv(t, d, sc)
            lt = a.v < b.v if t.signed else z3.ULT(a.v, b.v)
            if r.random() < 0.5:
                return self.out(t, p1 + p2, f"{an}.max({bn})", z3.If(lt, b.v, a.v))
            return self.out(t, p1 + p2, f"{an}.min({bn})", z3.If(lt, a.v, b.v))
        if k == "tr":
            V = type(t)(t.w + r.randint(0, 4))
            a, p1, an = self.recv(V, d, sc)
            return self.out(t, p1, r.choice([f"{an}.trunc()", f"trunc({an})"]), resize(a.v, t.w, False), True)
        if k == "ex":
            V = type(t)(r.randint(1, t.w))
            a, p1, an = self.recv(V, d, sc)
            return self.out(t, p1, f"{'sext' if t.signed else 'zext'}({an})", resize(a.v, t.w, t.signed), True)
        if k == "cc" and t.w > 1:
            i = r.randint(1, t.w - 1)
            a, p1, an = self.recv(type(t)(i), d, sc)
            b, p2, bn = self.recv(type(t)(t.w - i), d, sc)
            return self.out(t, p1 + p2, r.choice([f"{an}.concat({bn})", f"({an} `concat` {bn})"]), cat([a.v, b.v]))
        if k == "abs" and not t.signed:
            a, p1, an = self.recv(Int(t.w), d, sc)
            return self.out(t, p1, f"{an}.abs()", absv(a.v))
        if k == "gray" and not t.signed:
            a, p1, an = self.recv(t, d, sc)
            return self.out(t, p1, f"{an}.to_gray().as_bits().as_uint()", gray(a.v))
        if k == "len" and not t.signed and t.w <= 4:
            # the lengths that need exactly this many bits
            n = r.randint(1 << (t.w - 1), (1 << t.w) - 1)
            A = Array(Bool, n)
            a, p1, an = self.recv(A, 1, sc)
            return self.out(t, p1, f"{an}.len()", bv(n, t.w))
        return None

    def s_conv(self, t, d, sc):
        r = self.r
        if isinstance(t, Array) and t.inner is Bool:
            T = r.choice([Int, UInt])(t.n)
            if not t.n:
                return None
            a, p1, an = self.recv(T, d, sc)
            old = "std::conv::int_to_bits" if T.signed else "std::conv::uint_to_bits"
            return self.out(t, p1, r.choice([f"{an}.as_bits()", f"{an}.to_bits()", f"{old}({an})"]), [bit(a.v, i) for i in range(t.n)])
        if isinstance(t, Array) and t.inner == UInt(8) and t.n <= 5:
            n = t.n
            a, p1, an = self.recv(UInt(8 * n), d, sc)
            le = [extract(a.v, 8 * i + 7, 8 * i) for i in range(n)]
            k = r.choice(["le", "be", "german_endian"])
            if k == "german_endian":
                # the order German numbers are read in: the last two are swapped
                be = le[::-1]
                v = le if n <= 2 else be[: n - 2] + be[n - 2 :][::-1]
            else:
                v = le if k == "le" else le[::-1]
            return self.out(t, p1, f"{an}.to_{k}_bytes()", v)
        if isinstance(t, (Int, UInt)):
            k = r.choice(["bits", "sign", "toint", "bool"])
            m = "int" if t.signed else "uint"
            if k == "bits":
                a, p1, an = self.recv(Array(Bool, t.w), d, sc)
                return self.out(t, p1, r.choice([f"{an}.as_{m}()", f"{an}.to_{m}()", f"std::conv::bits_to_{m}({an})"]), cat(a.v[::-1]))
            if k == "sign":
                o = "uint" if t.signed else "int"
                a, p1, an = self.recv((UInt if t.signed else Int)(t.w), d, sc)
                return self.out(t, p1, r.choice([f"{an}.as_{m}()", f"{o}_to_{m}({an})", f"std::conv::{o}_to_{m}({an})"]), a.v)
            if k == "toint" and t.signed and t.w > 1:
                a, p1, an = self.recv(UInt(t.w - 1), d, sc)
                return self.out(t, p1, f"{an}.to_int()", resize(a.v, t.w, False))
            if k == "bool" and not t.signed and t.w == 1:
                a, p1, an = self.recv(Bool, d, sc)
                return self.out(t, p1, r.choice([f"{an}.as_uint()", f"{an}.to_uint()"]), a.v)
        return None

    PRODS = "map zip concat push shift reversed interleave flatten chunks window split unzip unfold fold reduce end quant optb unwrap optmap default num conv".split()

    def std(self, t, d, sc, only=None):
        for k in [only] if only else self.r.sample(self.PRODS, len(self.PRODS)):
            e = getattr(self, "s_" + k)(t, d, sc)
            if e is not None:
                self.used.add(k)
                return e
        return None

    def expr(self, t, d, sc):
        if d > 0 and self.size < self.o.get("budget", 160) and self.r.random() < self.o.get("std", 0.35):
            e = self.std(t, d, sc)
            if e is not None:
                return e
        return super().expr(t, d, sc)


def target(g, k):
    """a type the production k can give"""
    r = g.r
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
    T = g.small_type(1)
    if k in ("map", "concat", "push", "shift", "reversed", "flatten", "split"):
        return Array(T, n)
    if k == "unfold":
        return Array(T, r.randint(1, 5))
    if k == "interleave":
        return Array(T, 2 * r.randint(1, 5))
    if k == "zip":
        return Array(Tuple(T, g.small_type(1)), n)
    if k in ("chunks", "window"):
        return Array(Array(T, r.randint(1, 4)), r.randint(1, 4))
    if k == "unzip":
        return Tuple(Array(T, n), Array(g.small_type(1), n))
    if k in ("quant", "optb"):
        return Bool
    if k == "optmap":
        return option(T)
    if k == "default":
        return r.choice([Int(5), Bool, Tuple(Int(3), Bool), Array(UInt(4), 3), option(T), Tuple(*[UInt(i) for i in range(1, r.randint(2, 8) + 1)]), Array(Tuple(Bool, option(T)), 2)])
    if k == "num":
        return r.choice([Int, UInt])(r.choice([1, 2, 3, 4, 5, 8, 9, 13]))
    if k == "conv":
        return r.choice([Array(Bool, n), Array(UInt(8), r.randint(1, 5)), Int(n), UInt(n), UInt(1), Int(n + 1)])
    return T


def std_case(r, uid, only=None, depth=None):
    g = StdGen(r, uid, Opts(lam=0, std=0.0 if only and r.random() < 0.6 else 0.35, budget=120))
    g.declare_types(r.randint(0, 2))
    ins = [(n, g.small_type(2)) for n in "abcdefgh"[: r.randint(1, 4)]]
    t = target(g, only or r.choice(g.PRODS))
    # something to work on
    if r.random() < 0.7:
        ins.append(("z", Array(t.inner, t.n + r.choice([0, 0, 1, 2])) if isinstance(t, Array) else t))
    pv = [fresh(T) for _, T in ins]
    sc = [(n, Ex(T, n, v)) for (n, T), v in zip(ins, pv)]
    for _ in range(20):
        e = g.std(t, depth or r.choice([1, 2, 2, 3]), sc, only)
        if e is not None:
            break
    else:
        return None
    top = f"std{uid}"
    sig = ", ".join(f"{n}: {T.src}" for n, T in ins)
    g.items.append(f"fn {top}({sig}) -> {t.src} {{\n    {e.s}\n}}")

    def f(**vals):
        pairs = []
        for (n, T), p in zip(ins, pv):
            pairs += list(zip(leaves(p), leaves(vals[n])))
        return subst(e.v, pairs)

    return Comb(top, "\n".join(g.items) + "\n", top, ins, t, f)


def small_val_type(r):
    return r.choice([Bool, UInt(1), UInt(3), Int(4), UInt(8), Tuple(Bool, UInt(2)), option(UInt(2)), Array(UInt(2), 2)])


def window_case(r, uid):
    """Option::padded_sliding_window"""
    T, n = small_val_type(r), r.choice([1, 1, 2, 3, 4, 5])
    O = option(Array(T, n))
    top = f"win{uid}"
    call = r.choice([f"inst padded_sliding_window::<{n}>(clk, rst, dflt)", f"inst padded_sliding_window(clk, rst, dflt)", f"inst padded_sliding_window$(clk, default: dflt, rst)"])
    src = f"entity {top}(clk: clock, rst: bool, a: {option(T).src}, dflt: {T.src}) -> {O.src} {{ let q: {O.src} = a.{call}; q }}\n"
    k = n + 3

    def f(ins):
        win, known = [zero(T)] * n, z3.BoolVal(False)
        for t in range(k):
            c = ins[t]
            a, rst = c["a"], is1(c["rst"])
            nw = [the(a)] + win[:-1]
            none = O.make(0, [])
            yield t, z3.And(known, z3.Not(rst)), O.ite(some(a), O.make(1, [nw]), none)
            win = [T.ite(rst, c["dflt"], T.ite(some(a), x, y)) for x, y in zip(nw, win)]
            known = z3.Or(known, rst)

    return Seq(top, src, top, [("rst", Bool), ("a", option(T)), ("dflt", T)], O, f, k)


def gather_case(r, uid):
    """Option::chunks"""
    T, n = small_val_type(r), r.choice([1, 2, 2, 3, 4, 5])
    O = option(Array(T, n))
    top = f"gat{uid}"
    call = r.choice([f"inst chunks::<{n}>(clk, rst)", "inst chunks(clk, rst)", "inst chunks$(rst, clk)"])
    src = f"entity {top}(clk: clock, rst: bool, a: {option(T).src}) -> {O.src} {{ let q: {O.src} = a.{call}; q }}\n"
    k = 2 * n + 3

    def f(ins):
        win, cnt, known = [zero(T)] * n, bv(0, 8), z3.BoolVal(False)
        for t in range(k):
            c = ins[t]
            a, rst = c["a"], is1(c["rst"])
            nw = win[1:] + [the(a)]
            full = z3.And(some(a), cnt == n - 1)
            yield t, z3.And(known, z3.Not(rst)), O.ite(full, O.make(1, [nw]), O.make(0, []))
            win = [T.ite(some(a), x, y) for x, y in zip(nw, win)]
            cnt = z3.If(rst, bv(0, 8), z3.If(some(a), z3.If(cnt == n - 1, bv(0, 8), cnt + 1), cnt))
            known = z3.Or(known, rst)

    return Seq(top, src, top, [("rst", Bool), ("a", option(T))], O, f, k)


def pmap_case(r, uid):
    """Option::pmap"""
    d = r.choice([0, 1, 1, 2, 3])
    g = StdGen(r, uid, Opts(lam=0, call=1, std=0.2, budget=40))
    g.declare_types(r.randint(0, 1))
    T, R = g.small_type(1), g.small_type(1)
    p = fresh(T)
    g.lamdepth = 1
    body = g.expr(R, 2, [("x", Ex(T, "x", p))])
    O = option(R)
    top = f"pm{uid}"
    regs = "".join("reg; " for _ in range(d)) if d < 2 or r.random() < 0.5 else f"reg*{d}; "
    if r.random() < 0.5 and d:
        lam = f"pipeline({d}) |clk, x| {{ let x: {T.src} = x; let q: {R.src} = {body.s}; {regs}q }}"
    else:
        lam = f"pipeline({d}) |clk, x| {{ {regs}let x: {T.src} = x; let q: {R.src} = {body.s}; q }}"
    dep = r.choice([f"inst({d}) pmap(clk, {lam})", f"inst({d}) pmap$(f: {lam}, clk)"])
    body_s = f"a.{dep}"
    if r.random() < 0.4:
        g.items.append(f"entity {top}(clk: clock, a: {option(T).src}) -> {O.src} {{ {body_s} }}")
    else:
        g.items.append(f"pipeline({d}) {top}(clk: clock, a: {option(T).src}) -> {O.src} {{ let q = {body_s}; {'reg*%d; ' % d if d else ''}q }}")
    k = d + 2

    def f(ins):
        for t in range(d, k):
            a = ins[t - d]["a"]
            v = subst(body.v, list(zip(leaves(p), leaves(the(a)))))
            yield t, z3.BoolVal(True), O.ite(some(a), O.make(1, [v]), O.make(0, []))

    return Seq(top, "\n".join(g.items) + "\n", top, [("a", option(T))], O, f, k)


def empty_cases():
    """arrays without elements"""
    out = []
    U = UInt(4)
    E = Array(U, 0)

    def add(n, ins, o, body, f):
        out.append(comb("e_" + n, ins, o, body, f))

    c = [("c", U)]
    mk = "let a: [uint<4>; 0] = []; "
    add("fold", c, U, mk + "a.fold(c, fn |x, y| x ^ y)", lambda c: c)
    add("all", c, Bool, mk + "a.all(fn |x| x == c)", lambda c: bv(1, 1))
    add("any", c, Bool, mk + "a.any(fn |x| x == c)", lambda c: bv(0, 1))
    add("len", c, UInt(4), mk + "a.len().concat(c)", lambda c: c)
    add("pb", c, Array(U, 1), mk + "a.push_back(c)", lambda c: [c])
    add("pf", c, Array(U, 1), mk + "a.push_front(c)", lambda c: [c])
    add("cc", [("c", Array(U, 2))], Array(U, 2), mk + "a.concat(c)", lambda c: c)
    add("cc2", [("c", Array(U, 2))], Array(U, 2), mk + "c.concat(a)", lambda c: c)
    add("map", c, Array(U, 1), mk + "let m: [bool; 0] = a.map(fn |x| x == 0); a.push_back(c)", lambda c: [c])
    add("zip", c, Array(U, 1), mk + "let m: [(uint<4>, uint<4>); 0] = a.zip(a); a.push_back(c)", lambda c: [c])
    add("rev", c, Array(U, 1), mk + "a.reversed().push_back(c)", lambda c: [c])
    add("il", c, Array(U, 1), mk + "let m: [uint<4>; 0] = a.interleave(a); m.push_back(c)", lambda c: [c])
    add("ch", c, Array(U, 1), mk + "let m: [[uint<4>; 2]; 0] = a.chunks(); m.flatten().push_back(c)", lambda c: [c])
    add("uz", c, Array(U, 1), "let m: [(uint<4>, bool); 0] = []; let (p, q): ([uint<4>; 0], [bool; 0]) = m.unzip(); p.push_back(c)", lambda c: [c])
    add("sp0", [("c", Array(U, 2))], Array(U, 2), "c.split_at::<0>().1", lambda c: c)
    add("sp2", [("c", Array(U, 2))], Array(U, 2), "c.split_at::<2>().0", lambda c: c)
    add("unf", c, Array(U, 1), "let m: [uint<4>; 0] = std::array::unfold(c, fn |x| x); m.push_back(c)", lambda c: [c])
    add("win1", c, Array(Array(U, 0), 1), mk + "a.sliding_window()", lambda c: [[]])
    add("by0", c, U, "let z: uint<0> = 0; let m: [uint<8>; 0] = z.to_le_bytes(); c", lambda c: c)
    add("redu", [("c", Array(U, 1))], U, "c.reduce(fn |x, y| x & y)", lambda c: c[0])
    add("dflt", c, Tuple(U, Tuple(Int(3), Bool), Array(option(U), 2)), "(c, default(), default())", lambda c: [c, [bv(0, 3), bv(0, 1)], [option(U).make(0, [])] * 2])
    return out


BAD = [
    ("chunk_div", "fn top(a: [bool; 5]) -> [[bool; 2]; 2] { a.chunks() }", "5 elements do not divide into twos"),
    ("chunk_div2", "fn top(a: [bool; 7]) -> [[bool; 3]; 2] { a.chunks::<3>() }", "7 elements do not divide into threes"),
    ("chunk_cnt", "fn top(a: [bool; 6]) -> [[bool; 2]; 2] { a.chunks() }", "there are three twos in six"),
    ("win_big", "fn top(a: [bool; 3]) -> [[bool; 4]; 0] { a.sliding_window::<4>() }", "the window is larger than the array"),
    ("win_cnt", "fn top(a: [bool; 3]) -> [[bool; 2]; 3] { a.sliding_window() }", "there are two windows"),
    ("split_big", "fn top(a: [bool; 3]) -> [bool; 4] { a.split_at::<4>().0 }", "splits past the end"),
    ("split_cnt", "fn top(a: [bool; 3]) -> [bool; 2] { a.split_at::<2>().1 }", "one element is left"),
    ("first0", "fn top(a: [bool; 0]) -> bool { a.first() }", "no first element"),
    ("last0", "fn top(a: [bool; 0]) -> bool { a.last() }", "no last element"),
    ("reduce0", "fn top(a: [bool; 0]) -> bool { a.reduce(fn |a, b| a && b) }", "nothing to reduce"),
    ("shiftb0", "fn top(a: [bool; 0], b: bool) -> [bool; 0] { a.shift_back(b) }", "no room"),
    ("shiftf0", "fn top(a: [bool; 0], b: bool) -> [bool; 0] { a.shift_front(b) }", "no room"),
    ("zip_len", "fn top(a: [bool; 2], b: [bool; 3]) -> [(bool, bool); 2] { a.zip(b) }", "different lengths"),
    ("il_len", "fn top(a: [bool; 2], b: [bool; 3]) -> [bool; 5] { a.interleave(b) }", "different lengths"),
    ("il_ty", "fn top(a: [bool; 2], b: [uint<1>; 2]) -> [bool; 4] { a.interleave(b) }", "different elements"),
    ("cc_ty", "fn top(a: [bool; 2], b: [uint<1>; 2]) -> [bool; 4] { a.concat(b) }", "different elements"),
    ("cc_len", "fn top(a: [bool; 2], b: [bool; 3]) -> [bool; 4] { a.concat(b) }", "five elements"),
    ("push_len", "fn top(a: [bool; 2], b: bool) -> [bool; 2] { a.push_back(b) }", "three elements"),
    ("push_ty", "fn top(a: [bool; 2], b: uint<1>) -> [bool; 3] { a.push_front(b) }", "another element type"),
    ("bytes9", "fn top(a: uint<9>) -> [uint<8>; 1] { a.to_le_bytes() }", "9 bits are not bytes"),
    ("bytes15", "fn top(a: uint<15>) -> [uint<8>; 2] { a.to_be_bytes() }", "15 bits are not bytes"),
    ("bytes4", "fn top(a: uint<4>) -> [uint<8>; 0] { a.to_german_endian_bytes() }", "4 bits are not bytes"),
    ("bytes_cnt", "fn top(a: uint<24>) -> [uint<8>; 2] { a.to_le_bytes() }", "there are three bytes"),
    ("unwrap_ty", "fn top(a: Option<bool>, b: uint<1>) -> bool { a.unwrap_or(b) }", "another type of default"),
    ("map_ty", "fn top(a: Option<uint<3>>) -> Option<uint<3>> { a.map(fn |x| x == 1) }", "the function gives bool"),
    ("andthen_ty", "fn top(a: Option<uint<3>>) -> Option<uint<3>> { a.and_then(fn |x| x) }", "the function gives no option"),
    ("amap_ty", "fn top(a: [uint<3>; 2]) -> [uint<3>; 2] { a.map(fn |x| x == 1) }", "the function gives bool"),
    ("amap_ar", "fn top(a: [uint<3>; 2]) -> [uint<3>; 2] { a.map(fn |x, y| x) }", "the function takes two arguments"),
    ("fold_ty", "fn top(a: [uint<3>; 2], b: bool) -> bool { a.fold(b, fn |x, y| y) }", "the function gives another type"),
    ("all_ty", "fn top(a: [uint<3>; 2]) -> bool { a.all(fn |x| x) }", "the function does not give bool"),
    ("pmap_d", "entity top(clk: clock, a: Option<uint<3>>) -> Option<uint<3>> { a.inst(2) pmap(clk, pipeline(1) |clk, x| { reg; x }) }", "another depth"),
    ("sizes", "fn top(a: [bool; 4]) -> uint<5> { a.as_uint() }", "4 bits"),
    ("sizei", "fn top(a: [bool; 4]) -> int<3> { a.as_int() }", "4 bits"),
    ("toint", "fn top(a: uint<4>) -> int<4> { a.to_int() }", "to_int adds a bit"),
    ("asbits", "fn top(a: uint<4>) -> [bool; 5] { a.as_bits() }", "4 bits"),
    ("nodef", "struct S { a: bool } fn top() -> S { default() }", "S has no default"),
    ("nodef2", "struct S { a: bool } fn top() -> (bool, S) { default() }", "S has no default"),
    ("nodef3", "struct S { a: bool } fn top() -> [S; 2] { default() }", "S has no default"),
    ("noeq", "struct S { a: bool } fn top(a: Option<S>, b: Option<S>) -> bool { a == b }", "S cannot be compared"),
    ("noeq2", "struct S { a: bool } fn top(a: Option<S>, b: Option<S>) -> bool { a != b }", "S cannot be compared"),
]


def p24(tier, rng):
    quick = tier == "quick"
    out = []
    n = 0
    for k in StdGen.PRODS:
        for _ in range(28 if quick else 300):
            n += 1
            c = std_case(random.Random(rng.getrandbits(64)), f"{n}", k)
            if c:
                out.append(c)
    for _ in range(350 if quick else 4000):
        n += 1
        c = std_case(random.Random(rng.getrandbits(64)), f"{n}", None, rng.choice([2, 3, 3, 4]))
        if c:
            out.append(c)
    for _ in range(40 if quick else 400):
        for mk in (window_case, gather_case, pmap_case):
            n += 1
            out.append(mk(random.Random(rng.getrandbits(64)), f"{n}"))
    out += empty_cases()
    out += [Verdict(f"bad_{nm}", src + "\n", False, why) for nm, src, why in BAD]
    return out
