"""P03 values and widths that do not fit are rejected; P04 literals and grouping."""
import itertools
import random
import z3
from ..check import Comb, Verdict
from ..spec import *
from .ops import mk, tn, OPN

CONTEXTS = {
    "ret": "fn NAME() -> TY { LIT }",
    "let": "fn NAME() -> TY { let x: TY = LIT; x }",
    "eq": "fn NAME(a: TY) -> bool { a == LIT }",
    "lt": "fn NAME(a: TY) -> bool { LIT < a }",
    "and": "fn NAME(a: TY) -> TY { a & LIT }",
    "add": "fn NAME(a: TY) -> TY { let x: TY = std::conv::trunc(a + LIT); x }",
    "pat": "fn NAME(a: TY) -> bool { match a { LIT => true, _ => false } }",
    "pattup": "fn NAME(a: (bool, TY)) -> bool { match a { (true, LIT) => true, _ => false } }",
    "patopt": "fn NAME(a: Option<TY>) -> bool { match a { Some(LIT) => true, _ => false } }",
    "iflet": "fn NAME(a: TY) -> bool { if let LIT = a { true } else { false } }",
    "arg": "fn NAMEg(a: TY) -> TY { a }\nfn NAME() -> TY { NAMEg(LIT) }",
    "named": "fn NAMEg(a: TY, b: bool) -> TY { a }\nfn NAME() -> TY { NAMEg$(b: true, a: LIT) }",
    "field": "struct NAMES { x: TY }\nfn NAME() -> NAMES { NAMES(LIT) }",
    "some": "fn NAME() -> Option<TY> { Some(LIT) }",
    "elem": "fn NAME() -> [TY; 2] { [LIT, 0] }",
    "short": "fn NAME() -> [TY; 3] { [LIT; 3] }",
    "tup": "fn NAME() -> (TY, bool) { (LIT, true) }",
    "if": "fn NAME(c: bool, a: TY) -> TY { if c { a } else { LIT } }",
    "initial": "entity NAME(clk: clock, a: TY) -> TY { reg(clk) x initial(LIT) = a; x }",
    "reset": "entity NAME(clk: clock, rst: bool, a: TY) -> TY { reg(clk) x reset(rst: LIT) = a; x }",
    "infer": "fn NAME(a: TY) -> TY { let x = LIT; if a == x { x } else { a } }",
    "lam": "fn NAME(a: TY) -> TY { let f = fn |x| { let x: TY = x; x ^ LIT }; f.call((a,)) }",
    "pipe": "pipeline(1) NAME(clk: clock, a: TY) -> TY { let x = LIT; reg; x ^ a }",
}


def fmt(n, style, rng=None):
    s = "-" if n < 0 else ""
    a = abs(n)
    if style == "d":
        return s + str(a)
    if style == "x":
        return s + hex(a)
    if style == "X":
        return s + "0x" + format(a, "X")
    if style == "b":
        return s + bin(a)
    if style == "o":
        return s + oct(a)
    if style == "_":
        t = str(a)
        k = max(1, len(t) // 2)
        return s + t[:k] + ("_" + t[k:] if t[k:] else "")
    if style == "z":
        return s + "0x" + "00" + format(a, "x")
    raise KeyError(style)


def fits_formula(t, n):
    """exists v: t. v = n"""
    big = max(t.w, n.bit_length() + 2) + 2
    v = z3.BitVec("v", t.w)
    return [widen(t, v, big) == bv(n % (1 << big), big)]


def fits(t, n):
    return (-(1 << (t.w - 1)) <= n < (1 << (t.w - 1))) if t.signed else (0 <= n < (1 << t.w))


def p03(tier, rng):
    out = []
    quick = tier == "quick"
    seen = set()

    def lit_case(ctx, t, n, style):
        name = f"v_{ctx}_{tn(t)}_{n}_{style}".replace("-", "m")
        if len(name) > 60:
            name = f"v_{ctx}_{tn(t)}_h{hash_(n)}_{style}"
        if name in seen:
            return
        seen.add(name)
        src = CONTEXTS[ctx].replace("NAME", "f").replace("TY", t.src).replace("LIT", fmt(n, style))
        f = fits_formula(t, n)
        want = fits(t, n)
        out.append(Verdict(name, src, want, f"{n} {'fits in' if want else 'is no value of'} {t.src}", formula=(f, not want)))

    def bounds(t):
        w = t.w
        if t.signed:
            return [-(1 << (w - 1)) - 1, -(1 << (w - 1)), (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1, 1 << w, -(1 << w)]
        return [-1, (1 << w) - 1, 1 << w, (1 << w) + 1, (1 << (w + 1))]

    for ctx in CONTEXTS:
        for w in (1, 8) if quick else (1, 2, 7, 8, 31, 32, 33, 64, 65, 128):
            for t in (Int(w), UInt(w)):
                for n in bounds(t):
                    lit_case(ctx, t, n, rng.choice("dxb_z"))
    for w in [2, 3, 5, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200] if quick else range(2, 260):
        for t in (Int(w), UInt(w)):
            for n in bounds(t):
                ctx = rng.choice([c for c in CONTEXTS])
                lit_case(ctx, t, n, rng.choice("dxXbo_z"))
    # suffixed literals keep their own type
    for w in [1, 4, 8, 31, 32, 33, 64, 65, 128]:
        for t in (Int(w), UInt(w)):
            suf = ("i" if t.signed else "u") + str(w)
            for n in bounds(t):
                if n < 0 and not t.signed:
                    continue
                want = fits(t, n)
                out.append(Verdict(f"suf_{tn(t)}_{n}".replace("-", "m"), f"fn f() -> {t.src} {{ {n}{suf} }}", want, "suffixed literal", formula=(fits_formula(t, n), not want)))
            for o in (Int(w), UInt(w), Int(w + 1), UInt(w + 1)):
                out.append(Verdict(f"sufty_{tn(t)}_{tn(o)}", f"fn f() -> {o.src} {{ 0{suf} }}", o == t, "type of a suffixed literal"))
    # results that could not be represented, and operands of different types
    def rng_formula(op, A, B, R):
        """some result is no value of R"""
        big = A.w + B.w + R.w + 3
        a, b, r = z3.BitVec("a", A.w), z3.BitVec("b", B.w), z3.BitVec("r", R.w)
        X, Y = widen(A, a, big), widen(B, b, big)
        v = X + Y if op == "+" else X - Y if op == "-" else X * Y
        if R.signed:
            return z3.Not(v == z3.SignExt(big - R.w, z3.Extract(R.w - 1, 0, v)))
        return z3.Not(v == z3.ZeroExt(big - R.w, z3.Extract(R.w - 1, 0, v)))

    for w in (1, 2, 8, 16, 33, 64) if quick else range(1, 70):
        for T in (Int, UInt):
            A = T(w)
            for op in ("+", "-", "*"):
                full = w + 1 if op != "*" else 2 * w
                for rw in sorted({w, full - 1, full, full + 1, 2 * w, 2 * w + 1}):
                    if rw < 1:
                        continue
                    R = T(rw)
                    want = rw == full
                    form = None
                    if rw < full and T is Int and w <= 16 and op != "*":
                        form = ([rng_formula(op, A, A, R)], False)
                    out.append(Verdict(f"res_{OPN[op]}_{tn(A)}_{rw}", f"fn f(a: {A.src}, b: {A.src}) -> {R.src} {{ a {op} b }}", want, "result width", formula=form))
                    other = UInt(rw) if T is Int else Int(rw)
                    if want:
                        out.append(Verdict(f"ress_{OPN[op]}_{tn(A)}_{rw}", f"fn f(a: {A.src}, b: {A.src}) -> {other.src} {{ a {op} b }}", False, "result sign"))
            for op in ("+", "-", "&", "|", "^", "==", "<", "<<", ">>", ">=", "!="):
                for B in (T(w + 1), (UInt if T is Int else Int)(w), Bool, T(w)):
                    R = Bool if op in ("==", "<", ">=", "!=") else A if op not in "+-" else T(w + 1)
                    out.append(
                        Verdict(f"mix_{OPN[op]}_{tn(A)}_{tn(B)}", f"fn f(a: {A.src}, b: {B.src}) -> {R.src} {{ a {op} b }}", B == A, "operands of one type")
                    )
            for op in ("&&", "||", "^^"):
                out.append(Verdict(f"logic_{OPN[op]}_{tn(A)}", f"fn f(a: {A.src}, b: {A.src}) -> bool {{ a {op} b }}", False, "logic on bools only"))
            out.append(Verdict(f"not_{tn(A)}", f"fn f(a: {A.src}) -> {A.src} {{ !a }}", False, "! is for bool"))
            out.append(Verdict(f"neg_{tn(A)}", f"fn f(a: {A.src}) -> {A.src} {{ -a }}", T is Int, "- is for int"))
    # nested widths
    for w in (3, 8, 32):
        for T in (Int, UInt):
            for rw in (w + 1, w + 2, w + 3):
                out.append(Verdict(f"n3_{tn(T(w))}_{rw}", f"fn f(a: {T(w).src}, b: {T(w).src}, c: {T(w+1).src}) -> {T(rw).src} {{ (a + b) - c }}", rw == w + 2, "nested width"))
            for rw in (2 * w, 2 * w + 1, 2 * w + 2):
                out.append(Verdict(f"n4_{tn(T(w))}_{rw}", f"fn f(a: {T(w).src}, b: {T(w).src}, c: {T(2*w).src}) -> {T(rw).src} {{ a * b + c }}", rw == 2 * w + 1, "nested width"))
    # indices
    for n in (1, 2, 3, 4, 5, 8, 9):
        need = max(0, (n - 1).bit_length())
        for iw in range(max(0, need - 1), need + 2):
            if iw == 0 or need == 0:
                continue
            out.append(Verdict(f"idxw_{n}_{iw}", f"fn f(a: [uint<3>; {n}], i: uint<{iw}>) -> uint<3> {{ a[i] }}", iw == need, "index width"))
        for lo in range(0, n + 2):
            for hi in range(0, n + 2):
                if (lo * 7 + hi * 3 + n) % 3 and hi not in (n, n + 1) and quick:
                    continue
                want = lo <= hi <= n
                x = z3.Int("x")
                # some selected element does not exist
                form = ([x >= lo, x < hi, x >= n], lo >= hi or hi <= n)
                out.append(Verdict(f"rng_{n}_{lo}_{hi}", f"fn f(a: [uint<3>; {n}]) -> [uint<3>; {max(0, hi-lo)}] {{ a[{lo}..{hi}] }}", want, "range bounds", formula=form))
        for k in (0, n - 1, 1 << max(need, 0), (1 << need) + 1):
            want = k < n
            if need == 0:
                continue
            out.append(Verdict(f"idx_{n}_{k}", f"fn f(a: [uint<3>; {n}]) -> uint<3> {{ a[{k}] }}", want, "literal index") if want or k >= (1 << need) else Verdict(f"idx_{n}_{k}", f"fn f(a: [uint<3>; {n}]) -> uint<3> {{ a[{n-1}] }}", True))
    uniq = {}
    for c in out:
        uniq.setdefault(c.name, c)
    return list(uniq.values())


def hash_(n):
    import hashlib

    return hashlib.sha1(str(n).encode()).hexdigest()[:10]


# ------------------------------------------------------------------ P04
PREC = [["||"], ["&&"], ["^^"], ["==", "!="], ["<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>", ">>>", "<<.", ">>."], ["+", "-", "+.", "-."], ["*", "*.", "/", "%"]]
LEVEL = {o: i for i, l in enumerate(PREC) for o in l}


def tree(ops, leaves_):
    """The grouping a chain must have: the lowest level splits last, leftmost-first within a level"""
    if not ops:
        return leaves_[0]
    lo = min(LEVEL[o] for o in ops)
    k = max(i for i, o in enumerate(ops) if LEVEL[o] == lo)
    return (ops[k], tree(ops[:k], leaves_[: k + 1]), tree(ops[k + 1 :], leaves_[k + 1 :]))


def build(t, leaf):
    if not isinstance(t, tuple):
        return leaf(t)
    a, b = build(t[1], leaf), build(t[2], leaf)
    if a is None or b is None:
        return None
    return binop(t[0], a, b)


def p04(tier, rng):
    out = []
    quick = tier == "quick"
    # every pair (and many triples) of operators, without parentheses
    allops = [o for l in PREC for o in l]

    def chain(ops, tries=400):
        """find leaf types so that the right grouping is well typed"""
        n = len(ops) + 1
        t = tree(ops, list(range(n)))
        r = random.Random("".join(ops))
        base = [UInt(3), Int(3), UInt(4), Int(4), Bool, UInt(6), Int(6), UInt(5), Int(5), Int(7), UInt(7), Int(8), Int(9)]
        for _ in range(tries):
            tys = [r.choice(base) for _ in range(n)]
            # the divisor must be a constant power of two: a literal, whose type follows from the dividend
            e = leafed(t, lambda i: Ex(tys[i], "abcdef"[i], zero(tys[i])), ops, DIVISOR)
            if e is not None:
                return tys, t, e.ty
        return None

    DIVISOR = 4

    def leafed(t, leaf, ops, k):
        if not isinstance(t, tuple):
            return leaf(t)
        a = leafed(t[1], leaf, ops, k)
        if a is None:
            return None
        if t[0] in ("/", "%"):
            if not isinstance(a.ty, (Int, UInt)) or k >= 1 << (a.ty.w - (1 if a.ty.signed else 0)):
                return None
            return binop(t[0], a, Ex(a.ty, str(k), bv(k, a.ty.w)))
        b = leafed(t[2], leaf, ops, k)
        return None if b is None else binop(t[0], a, b)

    combos = [(a, b) for a in allops for b in allops]
    combos += [(a, b, c) for a in allops for b in allops for c in allops if quick is False or rng.random() < 0.12]
    combos += [tuple(rng.choice(allops) for _ in range(4)) for _ in range(400 if quick else 4000)]
    seen = set()
    for ops in combos:
        if ops in seen:
            continue
        seen.add(ops)
        c = chain(ops)
        if c is None:
            continue
        tys, t, rt = c
        # operand i+1 of a division is the literal
        const = {i + 1 for i, o in enumerate(ops) if o in ("/", "%")}
        names = [str(DIVISOR) if i in const else "abcdef"[i] for i in range(len(tys))]
        body = names[0] + "".join(f" {o} {n}" for o, n in zip(ops, names[1:]))
        nm = "prec_" + "_".join(OPN[o] for o in ops)

        def mkf(t=t, tys=tys, ops=ops):
            def f(**v):
                return leafed(t, lambda i: Ex(tys[i], "abcdef"[i], v["abcdef"[i]]), ops, DIVISOR).v

            return f

        ins = [("abcdef"[i], x) for i, x in enumerate(tys) if i not in const]
        args = ", ".join(f"{n}: {x.src}" for n, x in ins)
        out.append(Comb(nm, f"fn {nm}({args}) -> {rt.src} {{ {body} }}\n", nm, ins, rt, mkf()))
    # unary operators bind tighter than binary ones, postfix tighter than unary
    def un(nm, ins, body, f, t):
        out.append(Comb(nm, f"fn {nm}({', '.join(f'{n}: {x.src}' for n, x in ins)}) -> {t.src} {{ {body} }}\n", nm, ins, t, f))

    I5, U5 = Int(5), UInt(5)
    for o, w in (("+", 6), ("-", 6), ("*", 10)):
        un(f"un_neg_{OPN[o]}", [("a", I5), ("b", I5)], f"-a {o} b", lambda a, b, o=o: binop(o, Ex(I5, "", -a), Ex(I5, "", b)), Int(w))
        un(f"un_{OPN[o]}_neg", [("a", I5), ("b", I5)], f"a {o} -b", lambda a, b, o=o: binop(o, Ex(I5, "", a), Ex(I5, "", -b)), Int(w))
    for o in ("&", "|", "^", "==", "<"):
        un(f"un_cpl_{OPN[o]}", [("a", U5), ("b", U5)], f"~a {o} b", lambda a, b, o=o: binop(o, Ex(U5, "", ~a), Ex(U5, "", b)), Bool if o in ("==", "<") else U5)
    for o in ("&&", "||", "^^", "==", "!="):
        un(f"un_not_{OPN[o]}", [("a", Bool), ("b", Bool)], f"!a {o} !b", lambda a, b, o=o: binop(o, Ex(Bool, "", ~a), Ex(Bool, "", ~b)), Bool)
    un("un_not_not", [("a", Bool)], "!!a", lambda a: a, Bool)
    un("un_wneg_add", [("a", I5), ("b", I5)], "-.a + b", lambda a, b: binop("+", Ex(I5, "", -a), Ex(I5, "", b)), Int(6))
    un("un_wneg_mul", [("a", I5), ("b", I5)], "-.a *. b", lambda a, b: -a * b, I5)
    un("un_wneg_wsub", [("a", I5), ("b", I5)], "b -. -.a", lambda a, b: b + a, I5)
    un("un_neg_neg", [("a", I5)], "- -a", lambda a: a, I5)
    un("un_cpl_cpl", [("a", U5)], "~~a", lambda a: a, U5)
    un("un_neg_cpl", [("a", I5)], "-~a", lambda a: -(~a), I5)
    un("un_neg_idx", [("a", Array(I5, 2))], "-a[1]", lambda a: -a[1], I5)
    un("un_neg_tup", [("a", Tuple(I5, I5))], "-a.1", lambda a: -a[1], I5)
    un("un_not_call", [("a", Bool), ("b", Bool)], "!(a && b)", lambda a, b: ~(a & b), Bool)
    # literals, in every notation, denote their value
    for w in [1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 160, 200, 256] if quick else range(1, 300):
        for T in (Int(w), UInt(w)):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if T.signed else (0, (1 << w) - 1)
            vals = {lo, hi, 0 if lo <= 0 else lo, rng.randint(lo, hi), rng.randint(lo, hi)}
            if T.signed:
                vals.add(-1)
            for n in sorted(vals):
                st = rng.choice("dxXbo_z")
                for sfx in ("", ("i" if T.signed else "u") + str(w)):
                    if sfx and n < 0 and T.signed is False:
                        continue
                    nm = f"lit_{tn(T)}_{hash_((n, st, sfx))}"
                    if nm in seen:
                        continue
                    seen.add(nm)
                    kind = rng.randrange(4)
                    L = fmt(n, st) + sfx
                    if kind == 0:
                        out.append(Comb(nm, f"fn {nm}() -> {T.src} {{ {L} }}\n", nm, [], T, lambda n=n, w=w: bv(n % (1 << w), w)))
                    elif kind == 1:
                        out.append(Comb(nm, f"fn {nm}(a: {T.src}) -> bool {{ a == {L} }}\n", nm, [("a", T)], Bool, lambda a, n=n, w=w: tob(a == bv(n % (1 << w), w))))
                    elif kind == 2:
                        out.append(Comb(nm, f"fn {nm}(a: {T.src}) -> bool {{ match a {{ {L} => true, _ => false }} }}\n", nm, [("a", T)], Bool, lambda a, n=n, w=w: tob(a == bv(n % (1 << w), w))))
                    else:
                        out.append(
                            Comb(nm, f"fn {nm}(a: {T.src}) -> (bool, {T.src}) {{ ({L} < a, a ^ {L}) }}\n", nm, [("a", T)], Tuple(Bool, T),
                                 lambda a, n=n, w=w, T=T: [tob(bv(n % (1 << w), w) < a if T.signed else z3.ULT(bv(n % (1 << w), w), a)), a ^ bv(n % (1 << w), w)])
                        )
    for i, ch in enumerate(["a", "Z", "0", " ", "~", "\\n"]):
        v = 10 if ch == "\\n" else ord(ch)
        out.append(Comb(f"chr{i}", f"fn chr{i}() -> uint<8> {{ b'{ch}' }}\n", f"chr{i}", [], UInt(8), lambda v=v: bv(v, 8)))
    for i, st in enumerate(["abc", "Hello, World", "~!@", "x"]):
        t = Array(UInt(8), len(st))
        out.append(Comb(f"str{i}", f"fn str{i}() -> {t.src} {{ b\"{st}\" }}\n", f"str{i}", [], t, lambda st=st: [bv(ord(c), 8) for c in st]))
    uniq = {}
    for c in out:
        uniq.setdefault(c.name, c)
    return list(uniq.values())
