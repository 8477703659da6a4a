"""P01 operators, P02 division and shifts."""
import z3
from ..check import Comb
from ..spec import *

W_QUICK = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129]


def mk(name, ins, f, kind="fn", pre=None, clk=False, deco=""):
    """A unit `name` whose body is the Ex f(inputs) returns."""
    env = [Ex(t, n, None) for n, t in ins]

    def run(**vals):
        return f(*[Ex(t, n, vals[n]) for n, t in ins])

    probe = f(*[Ex(t, n, zero(t)) for n, t in ins])
    if probe is None:
        return None
    args = ", ".join(f"{n}: {t.src}" for n, t in ins)
    src = f"{deco}{kind} {name}({args}) -> {probe.ty.src} {{\n    {probe.s}\n}}\n"
    return Comb(name, src, name, ins, probe.ty, run, pre)


def nums(w):
    return [Int(w), UInt(w)]


def tn(t):
    if isinstance(t, Int):
        return f"i{t.w}"
    if isinstance(t, UInt):
        return f"u{t.w}"
    return "b"


ARITH = ["+", "-", "*"]
CMP = ["==", "!=", "<", ">", "<=", ">="]
BIT = ["&", "|", "^"]
WRAP = ["+.", "-.", "*."]
OPN = {"+": "add", "-": "sub", "*": "mul", "==": "eq", "!=": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge",
       "&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr", ">>>": "ashr", "/": "div", "%": "mod",
       "+.": "wadd", "-.": "wsub", "*.": "wmul", "<<.": "wshl", ">>.": "wshr", "&&": "land", "||": "lor", "^^": "lxor"}


def p01(tier, rng):
    out = []

    def add(c):
        if c is not None:
            out.append(c)

    ws = W_QUICK if tier == "quick" else sorted(set(W_QUICK + list(range(1, 70)) + [127, 255, 256, 257]))
    for w in ws:
        for T in nums(w):
            for op in ARITH + CMP + BIT + WRAP:
                add(mk(f"op_{OPN[op]}_{tn(T)}", [("a", T), ("b", T)], lambda a, b, op=op: binop(op, a, b)))
            # one operand a literal, on either side
            k = rng.choice([0, 1, (1 << (w - 1)) - 1 if w > 1 else 0])
            for op in ("+", "-", "*", "<", "==", ">="):
                add(mk(f"lit_r_{OPN[op]}_{tn(T)}", [("a", T)], lambda a, op=op, k=k, T=T: binop(op, a, lit(T, k))))
                add(mk(f"lit_l_{OPN[op]}_{tn(T)}", [("a", T)], lambda a, op=op, k=k, T=T: binop(op, lit(T, k), a)))
            add(mk(f"op_not_{tn(T)}", [("a", T)], lambda a: unop("~", a)))
        add(mk(f"op_wneg_i{w}", [("a", Int(w))], lambda a: unop("-.", a)))
        add(mk(f"op_neg_i{w}", [("a", Int(w))], lambda a: unop("-", a)))
    zero_width(out)
    bool_arrays(out, ws)
    # multiplication of different widths
    for wa, wb in [(1, 2), (1, 9), (2, 1), (3, 5), (8, 4), (4, 8), (7, 16), (16, 9), (32, 8), (8, 33), (31, 33), (1, 64), (64, 3), (5, 100)]:
        for A, B in ((Int(wa), Int(wb)), (UInt(wa), UInt(wb))):
            add(mk(f"mulx_{tn(A)}_{tn(B)}", [("a", A), ("b", B)], lambda a, b: binop("*", a, b)))
    # booleans
    for op in ("&&", "||", "^^", "==", "!="):
        add(mk(f"bool_{OPN[op]}", [("a", Bool), ("b", Bool)], lambda a, b, op=op: binop(op, a, b)))
    add(mk("bool_not", [("a", Bool)], lambda a: unop("!", a)))
    # nesting: intermediate widths must be kept, signs must not leak into neighbours
    for w in (1, 2, 3, 5, 8, 16, 31, 32, 33, 64):
        for T in nums(w):
            n = tn(T)
            abcd = [(x, T) for x in "abcd"]
            add(mk(f"nest_addadd_{n}", abcd, lambda a, b, c, d: binop("+", binop("+", a, b), binop("+", c, d))))
            add(mk(f"nest_subadd_{n}", abcd, lambda a, b, c, d: binop("-", binop("-", a, b), binop("+", c, d))))
            add(mk(f"nest_addsub_{n}", abcd, lambda a, b, c, d: binop("+", binop("-", a, b), binop("-", c, d))))
            add(mk(f"nest_cmp_{n}", abcd, lambda a, b, c, d: binop("<", binop("-", a, b), binop("+", c, d))))
            add(mk(f"nest_eq_{n}", abcd, lambda a, b, c, d: binop("==", binop("+", a, b), binop("+", c, d))))
            add(mk(f"nest_ge_{n}", abcd, lambda a, b, c, d: binop(">=", binop("-", a, b), binop("-", c, d))))
            if w <= 16:
                add(mk(f"nest_mul_{n}", abcd[:3], lambda a, b, c: binop("*", binop("+", a, b), c)))
                add(mk(f"nest_mulsub_{n}", abcd, lambda a, b, c, d: binop("-", binop("*", a, b), binop("*", c, d))))
                add(mk(f"nest_mulneg_{n}", abcd[:2], lambda a, b: binop("*", unop("~", a), b)))
            add(mk(f"nest_logic_{n}", abcd[:3], lambda a, b, c: binop("^", binop("&", a, unop("~", b)), binop("|", b, c))))
            add(mk(f"nest_bool_{n}", abcd, lambda a, b, c, d: binop("||", binop("&&", binop("<", a, b), unop("!", binop("==", c, d))), binop("^^", binop(">", a, c), binop("<=", b, d)))))
        add(mk(f"nest_neg_i{w}", [("a", Int(w)), ("b", Int(w))], lambda a, b: binop("-", unop("-", a), unop("-", b))))
        add(mk(f"nest_negsum_i{w}", [("a", Int(w)), ("b", Int(w))], lambda a, b: unop("-", binop("+", a, b))))
        add(mk(f"nest_negcmp_i{w}", [("a", Int(w)), ("b", Int(w))], lambda a, b: binop("<", unop("-", a), b)))
    return out


def zero_width(out):
    """A type of width 0 has one value: every comparison of two of them is settled."""
    for T in ("uint<0>", "int<0>"):
        k = T[0]
        for op, r in (("==", 1), ("!=", 0), ("<", 0), (">", 0), ("<=", 1), (">=", 1)):
            nm = f"zero_{OPN[op]}_{k}"
            out.append(Comb(nm, f"fn {nm}(a: {T}, b: {T}) -> bool {{ a {op} b }}\n", nm, [], Bool, lambda r=r: bv(r, 1)))
            nm = f"zeron_{OPN[op]}_{k}"
            out.append(Comb(nm, f"fn {nm}(a: {T}, b: {T}, c: bool) -> bool {{ (a {op} b) ^^ c }}\n", nm, [("c", Bool)], Bool, lambda c, r=r: c ^ bv(r, 1)))
        for op in ("&", "|", "^"):
            nm = f"zero_{OPN[op]}_{k}"
            out.append(Comb(nm, f"fn {nm}(a: {T}, b: {T}, c: bool) -> ({T}, bool) {{ (a {op} b, c) }}\n", nm, [("c", Bool)], Bool, lambda c: c))
    for w in (1, 5):
        U = UInt(w)
        for nm, o, f in (("eq", "==", lambda a, b: tob(a == b)), ("ne", "!=", lambda a, b: tob(a != b))):
            n = f"zerotup_{nm}_{w}"
            out.append(Comb(n, f"fn {n}(a: uint<{w}>, z: uint<0>, b: uint<{w}>, y: uint<0>) -> bool {{ (z, a) {o} (y, b) }}\n", n, [("a", U), ("b", U)], Bool, f))
    for nm, o, r in (("eq", "==", 1), ("ne", "!=", 0)):
        n = f"zeroarr_{nm}"
        out.append(Comb(n, f"fn {n}(a: [bool; 0], b: [bool; 0]) -> bool {{ a {o} b }}\n", n, [], Bool, lambda r=r: bv(r, 1)))


def bool_arrays(out, ws):
    """the bitwise operators on arrays of bools work on each element"""
    for w in ws:
        A = Array(Bool, w)
        ins = [("a", A), ("b", A)]
        for op, f in (("&", lambda x, y: x & y), ("|", lambda x, y: x | y), ("^", lambda x, y: x ^ y)):
            n = f"barr_{OPN[op]}_{w}"
            out.append(Comb(n, f"fn {n}(a: {A.src}, b: {A.src}) -> {A.src} {{ a {op} b }}\n", n, ins, A, lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)]))
        n = f"barr_not_{w}"
        out.append(Comb(n, f"fn {n}(a: {A.src}) -> {A.src} {{ ~a }}\n", n, ins[:1], A, lambda a: [~x for x in a]))


def p02(tier, rng):
    out = []

    def add(c):
        if c is not None:
            out.append(c)

    ws = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65]
    if tier != "quick":
        ws = sorted(set(ws + list(range(1, 70)) + [100, 128, 129]))
    for w in ws:
        for T in nums(w):
            n = tn(T)
            for op in ("<<", ">>", ">>>", "<<.", ">>."):
                add(mk(f"sh_{OPN[op]}_{n}", [("a", T), ("b", T)], lambda a, b, op=op: shift(op, a, b)))
                for k in sorted({0, 1, w - 1, w // 2} | ({w} if w > 3 else set())):
                    if k < (1 << (w - (1 if T.signed else 0))):
                        add(mk(f"shk_{OPN[op]}_{k}_{n}", [("a", T)], lambda a, op=op, k=k, T=T: shift(op, a, lit(T, k))))
                if w <= 33:
                    add(mk(f"shn_{OPN[op]}_{n}", [("a", T), ("b", T), ("c", T)], lambda a, b, c, op=op: shift(op, binop("^", a, b), c)))
                    add(mk(f"shw_{OPN[op]}_{n}", [("a", T), ("b", T), ("c", T)], lambda a, b, c, op=op: shift(op, binop("+", a, b), binop("-", b, c))))
                    add(mk(f"shs_{OPN[op]}_{n}", [("a", T), ("b", T), ("c", T)], lambda a, b, c, op=op: binop("+", shift(op, a, b), c)))
                    add(mk(f"shc_{OPN[op]}_{n}", [("a", T), ("b", T), ("c", T)], lambda a, b, c, op=op: binop("<", shift(op, a, b), c)))
            if w <= 33 or tier != "quick":
                add(mk(f"div_{n}", [("a", T), ("b", T)], lambda a, b: call("std::ops::comb_div", "/", a, b)))
                add(mk(f"mod_{n}", [("a", T), ("b", T)], lambda a, b: call("std::ops::comb_mod", "%", a, b)))
            if w <= 17:
                for k in ("/", "%"):
                    f = "std::ops::comb_div" if k == "/" else "std::ops::comb_mod"
                    m = "w" if k == "/" else "m"
                    add(mk(f"div{m}_{n}", [("a", T), ("b", T), ("c", T), ("d", T)], lambda a, b, c, d, f=f, k=k: call(f, k, binop("+", a, b), binop("-", c, d))))
                    add(mk(f"divadd{m}_{n}", [("a", T), ("b", T), ("c", T)], lambda a, b, c, f=f, k=k: binop("+", call(f, k, a, b), c)))
                    add(mk(f"divcmp{m}_{n}", [("a", T), ("b", T), ("c", T)], lambda a, b, c, f=f, k=k: binop("<", call(f, k, a, b), c)))
            top = w - 1 if T.signed else w
            for e in sorted({0, 1, 2, w // 2, top - 1, w - 3}):
                if 0 <= e < top:
                    for k in "/%":
                        add(mk(f"pow2{'d' if k == '/' else 'm'}{e}_{n}", [("a", T)], lambda a, k=k, e=e, T=T: binop(k, a, plit(T, 1 << e))))
                        add(mk(f"pow2w{'d' if k == '/' else 'm'}{e}_{n}", [("a", T), ("b", T)], lambda a, b, k=k, e=e, T=T: binop(k, binop("-", a, b), plit(type(T)(T.w + 1), 1 << e))))
                        add(mk(f"pow2a{'d' if k == '/' else 'm'}{e}_{n}", [("a", T), ("b", T)], lambda a, b, k=k, e=e, T=T: binop("+", binop(k, a, plit(T, 1 << e)), b)))
    return out


def plit(T, k):
    """a literal without a suffix: its width is inferred"""
    return Ex(T, str(k), bv(k, T.w))


def call(fn, op, a, b):
    e = binop(op, a, b)
    return Ex(e.ty, f"{fn}({a.s}, {b.s})", e.v, e.pre)


def T_(e):
    return e.ty


def shift(op, a, b):
    """a shifted by b read as an unsigned number"""
    return binop(op, a, b)
