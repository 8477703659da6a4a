"""Reference semantics of Spade types and expressions, independent of the compiler.

A Spade value is a tree: a z3 bit-vector for int/uint/bool/clock, a list for tuples, structs and
arrays (element 0 first), and (tag, [payload list per variant]) for enums. `Ex` pairs the source text
of an expression with the value it must have.
"""
import z3
from .sym import bv, ext, extract, cat, ite


class Ty:
    w = 0

    def __repr__(self):
        return self.src

    def __eq__(self, o):
        return isinstance(o, Ty) and self.src == o.src

    def __hash__(self):
        return hash(self.src)

    def ok(self, bits):
        """Is the bit pattern a value of the type at all?"""
        return z3.BoolVal(True)


class Scalar(Ty):
    def decode(self, bits):
        return bits

    def same(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return ite(c, a, b)

    def encode(self, v, x):
        return v


class Int(Scalar):
    signed = True

    def __init__(self, w):
        self.w = w
        self.src = f"int<{w}>"


class UInt(Scalar):
    signed = False

    def __init__(self, w):
        self.w = w
        self.src = f"uint<{w}>"


class BoolT(Scalar):
    w = 1
    src = "bool"
    signed = False


class ClockT(Scalar):
    w = 1
    src = "clock"
    signed = False


Bool = BoolT()
Clock = ClockT()


class Agg(Ty):
    """Members laid out first-at-the-top"""

    def parts(self, bits):
        out = []
        pos = self.w
        for t in self.members:
            pos -= t.w
            out.append(extract(bits, pos + t.w - 1, pos) if t.w else None)
        return out

    def ok(self, bits):
        if self.w == 0:
            return z3.BoolVal(True)
        return z3.And(*[t.ok(p) for t, p in zip(self.members, self.parts(bits))] or [z3.BoolVal(True)])

    def decode(self, bits):
        if self.w == 0:
            return [t.decode(None) for t in self.members]
        return [t.decode(p) for t, p in zip(self.members, self.parts(bits))]

    def same(self, a, b):
        return z3.And(*[t.same(x, y) for t, x, y in zip(self.members, a, b)] or [z3.BoolVal(True)])

    def ite(self, c, a, b):
        return [t.ite(c, x, y) for t, x, y in zip(self.members, a, b)]

    def encode(self, v, x):
        ps = [t.encode(y, x) for t, y in zip(self.members, v)]
        ps = [p for p in ps if p is not None]
        return cat(ps) if ps else None


class Tuple(Agg):
    def __init__(self, *members):
        self.members = list(members)
        self.w = sum(t.w for t in members)
        self.src = "(" + ", ".join(t.src for t in members) + ")"


class Struct(Agg):
    def __init__(self, name, fields, generics=""):
        self.name = name
        self.fields = list(fields)  # (name, ty)
        self.members = [t for _, t in fields]
        self.w = sum(t.w for t in self.members)
        self.src = name + generics

    def decl(self):
        return f"struct {self.name} {{ " + ", ".join(f"{n}: {t.src}" for n, t in self.fields) + " }"


class Array(Agg):
    def __init__(self, inner, n):
        self.inner, self.n = inner, n
        self.w = inner.w * n
        self.members = [inner] * n
        self.src = f"[{inner.src}; {n}]"

    # element 0 is in the least significant bits
    def parts(self, bits):
        w = self.inner.w
        return [extract(bits, (i + 1) * w - 1, i * w) if w else None for i in range(self.n)]

    def encode(self, v, x):
        if self.w == 0:
            return None
        return cat([self.inner.encode(y, x) for y in reversed(v)])


class Enum(Ty):
    def __init__(self, name, variants, generics=""):
        self.name = name
        self.variants = list(variants)  # (name, [(field, ty)])
        n = len(self.variants)
        self.tagw = (n - 1).bit_length()
        self.payw = max(sum(t.w for _, t in fs) for _, fs in self.variants)
        self.w = self.tagw + self.payw
        self.src = name + generics

    def decl(self):
        vs = []
        for n, fs in self.variants:
            vs.append(n + ("{" + ", ".join(f"{f}: {t.src}" for f, t in fs) + "}" if fs else ""))
        return f"enum {self.name} {{ " + ", ".join(vs) + " }"

    def tag(self, bits):
        return extract(bits, self.w - 1, self.w - self.tagw) if self.tagw else None

    def payload(self, bits, i):
        out = []
        pos = self.payw
        for _, t in self.variants[i][1]:
            pos -= t.w
            out.append(extract(bits, pos + t.w - 1, pos) if t.w else None)
        return out

    def is_(self, v, i):
        return v[0] == bv(i, self.tagw) if self.tagw else z3.BoolVal(True)

    def ok(self, bits):
        if self.w == 0:
            return z3.BoolVal(True)
        v = self.decode(bits)
        cs = []
        for i, (_, fs) in enumerate(self.variants):
            cs.append(z3.And(self.is_(v, i), *[t.ok(p) for (_, t), p in zip(fs, self.payload(bits, i))]))
        return z3.Or(*cs)

    def decode(self, bits):
        return (
            self.tag(bits) if self.tagw else None,
            [[t.decode(p) for (_, t), p in zip(fs, self.payload(bits, i) if self.w else [None] * len(fs))] for i, (_, fs) in enumerate(self.variants)],
        )

    def same(self, a, b):
        cs = []
        for i, (_, fs) in enumerate(self.variants):
            cs.append(
                z3.And(self.is_(a, i), self.is_(b, i), *[t.same(x, y) for (_, t), x, y in zip(fs, a[1][i], b[1][i])])
            )
        return z3.Or(*cs)

    def ite(self, c, a, b):
        return (
            ite(c, a[0], b[0]) if self.tagw else None,
            [
                [t.ite(c, x, y) for (_, t), x, y in zip(fs, a[1][i], b[1][i])]
                for i, (_, fs) in enumerate(self.variants)
            ],
        )

    def encode(self, v, x):
        """x(width) supplies the don't-care bits"""
        if self.w == 0:
            return None
        pay = x(self.payw) if self.payw else None
        for i in range(len(self.variants) - 1, -1, -1):
            fs = self.variants[i][1]
            ps = [t.encode(y, x) for (_, t), y in zip(fs, v[1][i])]
            ps = [p for p in ps if p is not None]
            used = sum(p.size() for p in ps)
            if self.payw and used < self.payw:
                ps.append(x(self.payw - used))
            if self.payw:
                pay = ite(self.is_(v, i), cat(ps), pay)
        out = [p for p in (v[0], pay) if p is not None]
        return cat(out)

    def make(self, i, args):
        dflt = [[zero(t) for _, t in fs] for _, fs in self.variants]
        dflt[i] = list(args)
        return (bv(i, self.tagw) if self.tagw else None, dflt)


def zero(t):
    return t.decode(bv(0, t.w) if t.w else None)


def option(t):
    return Enum("Option", [("None", []), ("Some", [("value", t)])], f"<{t.src}>")


# ------------------------------------------------------------------ values
def is1(v):
    return v == bv(1, 1)


def tob(c):
    return z3.If(c, bv(1, 1), bv(0, 1))


def index(arr_ty, arr, i):
    """arr[i] for an in-range i"""
    r = arr[-1]
    for k in range(len(arr) - 2, -1, -1):
        if k < (1 << i.size()):
            r = arr_ty.inner.ite(i == bv(k, i.size()), arr[k], r)
    return r


class Ex:
    __slots__ = ("ty", "s", "v", "pre")

    def __init__(self, ty, s, v, pre=()):
        self.ty, self.s, self.v = ty, s, v
        self.pre = tuple(pre)  # side conditions under which the value is defined

    def __repr__(self):
        return f"{self.s}: {self.ty.src}"


def _pre(*es):
    out = []
    for e in es:
        out.extend(e.pre)
    return out


def lit(ty, n):
    """integer literal of a known type"""
    if isinstance(ty, BoolT):
        return Ex(Bool, "true" if n else "false", bv(1 if n else 0, 1))
    suffix = ("" if ty.signed else "u") + str(ty.w) if ty.signed is False else f"i{ty.w}"
    return Ex(ty, f"{n}{suffix}", bv(n, ty.w))


def widen(ty, v, w):
    return ext(v, w, ty.signed)


def binop(op, a, b):
    """Spade binary operator on Ex; None when it does not apply"""
    A, B = a.ty, b.ty
    s = f"({a.s} {op} {b.s})"
    pre = _pre(a, b)
    x, y = a.v, b.v
    if isinstance(A, (Int, UInt)) and op in ("+", "-", "*"):
        if type(A) is not type(B):
            return None
        if op == "*":
            w = A.w + B.w
            return Ex(type(A)(w), s, widen(A, x, w) * widen(B, y, w), pre)
        if A != B:
            return None
        w = A.w + 1
        X, Y = widen(A, x, w), widen(A, y, w)
        return Ex(type(A)(w), s, X + Y if op == "+" else X - Y, pre)
    if A != B:
        return None
    if op in ("==", "!="):
        r = A.same(x, y)
        return Ex(Bool, s, tob(r if op == "==" else z3.Not(r)), pre)
    if isinstance(A, BoolT):
        if op == "&&":
            return Ex(Bool, s, x & y, pre)
        if op == "||":
            return Ex(Bool, s, x | y, pre)
        if op == "^^":
            return Ex(Bool, s, x ^ y, pre)
        return None
    if not isinstance(A, (Int, UInt)):
        return None
    sg = A.signed
    if op in ("<", ">", "<=", ">="):
        if op == "<":
            r = x < y if sg else z3.ULT(x, y)
        elif op == ">":
            r = x > y if sg else z3.UGT(x, y)
        elif op == "<=":
            r = x <= y if sg else z3.ULE(x, y)
        else:
            r = x >= y if sg else z3.UGE(x, y)
        return Ex(Bool, s, tob(r), pre)
    if op in ("&", "|", "^"):
        return Ex(A, s, x & y if op == "&" else x | y if op == "|" else x ^ y, pre)
    if op == "<<":
        return Ex(A, s, x << y, pre)
    if op == ">>":
        return Ex(A, s, z3.LShR(x, y), pre)
    if op == ">>>":
        return Ex(A, s, (x >> y), pre)
    if op == "+.":
        return Ex(A, s, x + y, pre)
    if op == "-.":
        return Ex(A, s, x - y, pre)
    if op == "*.":
        return Ex(A, s, x * y, pre)
    if op == "<<.":
        return Ex(A, s, x << y, pre)
    if op == ">>.":
        return Ex(A, s, z3.LShR(x, y), pre)
    if op == "/":
        return Ex(A, s, x / y if sg else z3.UDiv(x, y), pre + [y != bv(0, A.w)])
    if op == "%":
        return Ex(A, s, z3.SRem(x, y) if sg else z3.URem(x, y), pre + [y != bv(0, A.w)])
    return None


def unop(op, a):
    s = f"({op}{a.s})"
    if op in ("-", "-.") and isinstance(a.ty, Int):
        return Ex(a.ty, s, -a.v, a.pre)
    if op == "!" and isinstance(a.ty, BoolT):
        return Ex(Bool, s, ~a.v, a.pre)
    if op == "~" and isinstance(a.ty, (Int, UInt)):
        return Ex(a.ty, s, ~a.v, a.pre)
    return None
