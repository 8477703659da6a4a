"""P07 selection, P08 exhaustiveness."""
import random
import z3
from ..check import Comb, Verdict
from ..spec import *
from ..gen import Gen, Opts, pattern_cost, program, fresh
from .data import comb, rand_type, rand_enum, dedecl


def p07(tier, rng):
    out = []
    n = 500 if tier == "quick" else 5000
    for q in range(n):
        r = random.Random(rng.getrandbits(64))
        g = Gen(r, f"m{q}")
        decls, enums = "", []
        for k in range(r.choice([0, 1, 1, 2])):
            e = rand_enum(r, f"E{k}", enums, r.choice([1, 2, 2, 3, 3, 4, 5, 6]))
            if e.w and e.w < 80:
                enums.append(e)
                decls += e.decl() + "\n"
        g.enums = enums
        T = r.choice(enums) if enums and r.random() < 0.4 else rand_type(r, r.choice([1, 2]), enums)
        if r.random() < 0.3:
            T = Tuple(*[r.choice(enums + [Bool, UInt(2), Int(2)]) for _ in range(r.randint(2, 3))])
        if T.w == 0 or T.w > 200 or pattern_cost(T) > 3000:
            T = Tuple(Bool, UInt(2))
        R = r.choice([UInt(4), Tuple(UInt(4), Bool), option(UInt(4))])
        extra = [("g0", Bool), ("g1", UInt(4))]
        narms = r.randint(2, 8)
        v = fresh(T)
        arms = []
        guards = {}
        vn = "a"

        def value(i, binds):
            u = bv(i, 4)
            s = f"{i}u4"
            for n, b in binds:
                if b.ty == UInt(4):
                    return n, b.v
                if b.ty == Bool:
                    return f"(if {n} {{ {i} }} else {{ g1 }})", ite(is1(b.v), u, G1)
            return s, u

        G0, G1 = fresh(Bool), fresh(UInt(4))
        for i in range(narms):
            last = i == narms - 1
            txt, c, bs = g.pattern(T, v, 3, irrefutable=last)
            if not last and r.random() < 0.15:
                # a guard
                gs = [("g0", is1(G0)), ("g1 == 3", G1 == bv(3, 4))] + [(n, is1(b.v)) for n, b in bs if b.ty == Bool] + [
                    (f"{n} == 1", b.v == bv(1, b.ty.w)) for n, b in bs if isinstance(b.ty, UInt)]
                s, cc = r.choice(gs)
                txt += f" if {s}"
                c = z3.And(c, cc)
            s, x = value(i, bs)
            arms.append((txt, c, s, x))

        def wrap(s, x):
            if isinstance(R, UInt):
                return s, x
            if isinstance(R, Tuple):
                return f"({s}, true)", [x, bv(1, 1)]
            return f"Some({s})", R.make(1, [x])

        form = r.random()
        ws = [wrap(s, x) for _, _, s, x in arms]
        val = ws[-1][1]
        for (txt, c, _, _), (_, x) in reversed(list(zip(arms[:-1], ws[:-1]))):
            val = R.ite(c, x, val)
        body = "match a { " + ", ".join(f"{txt} => {s}" for (txt, *_), (s, _) in zip(arms, ws)) + " }"
        if form < 0.3:
            # the same choice written as if-let / else chains
            if not any(" if " in t for t, *_ in arms):
                body = ""
                for (txt, *_), (s, _) in zip(arms[:-1], ws[:-1]):
                    body += f"if let {txt} = a {{ {s} }} else {{ "
                txt, s = arms[-1][0], ws[-1][0]
                body += f"let {txt} = a; {s}" + " }" * (len(arms) - 1)
        from ..gen import leaves, subst

        def f(a, g0, g1, val=val, v=v, G0=G0, G1=G1):
            pairs = list(zip(leaves(v), leaves(a))) + [(G0, g0), (G1, g1)]
            return subst(val, pairs)

        c = comb(f"m{q}", [("a", T)] + extra, R, body, f)
        c.decls = decls
        out.append(c)
    # plain if chains with several conditions
    for q in range(60 if tier == "quick" else 400):
        r = random.Random(rng.getrandbits(64))
        k = r.randint(1, 6)
        T = rand_type(r, 1)
        if T.w == 0:
            continue
        ins = [(f"c{i}", Bool) for i in range(k)] + [(f"x{i}", T) for i in range(k + 1)]
        body = "".join(f"if {'!' if (q + i) % 3 == 0 else ''}c{i} {{ x{i} }} else " for i in range(k)) + f"{{ x{k} }}"

        def f(k=k, q=q, T=T, **v):
            x = v[f"x{k}"]
            for i in reversed(range(k)):
                cnd = is1(v[f"c{i}"])
                if (q + i) % 3 == 0:
                    cnd = z3.Not(cnd)
                x = T.ite(cnd, v[f"x{i}"], x)
            return x

        out.append(comb(f"chain{q}", ins, T, body, f))
    # composite programs rich in selections
    for i in range(150 if tier == "quick" else 2000):
        r = random.Random(rng.getrandbits(64))
        src, top, ins, t, f = program(r, f"q{i}", depth=r.choice([3, 4, 5]), opts=Opts(match=12, iflet=6, if_=8, op=2, lam=0, maxw=5))
        out.append(Comb(f"sel{i}", src, top, ins, t, f))
    return dedecl(out)


# ------------------------------------------------------------------ P08
def dress(r, p):
    """the same pattern in another notation: a wildcard may bind a name, and so may any pattern"""
    dress.n += 1
    k = r.random()
    if p == "_":
        return f"n{dress.n}" if k < 0.3 else f"n{dress.n} @ _" if k < 0.33 else p
    if k < 0.2:
        return f"n{dress.n} @ {p}"
    if p.isdigit():
        n = int(p)
        return r.choice([p, p, p, f"0x{n:x}", f"0b{n:b}", f"{p}_"])
    return p


dress.n = 0


def args(r, names, ps):
    """positional arguments, or named ones in any order"""
    if names is None or r.random() < 0.6:
        return "(" + ", ".join(ps) + ")"
    xs = list(zip(names, ps))
    r.shuffle(xs)
    return "$(" + ", ".join(f"{n}: {p}" for n, p in xs) + ")"


def cover(r, t, v, d):
    return [(dress(r, p), c) for p, c in cover_(r, t, v, d)]


def cover_(r, t, v, d):
    """patterns that together match every value of t exactly once: [(text, cond)]"""
    if d <= 0 or r.random() < 0.15:
        return [("_", z3.BoolVal(True))]
    if isinstance(t, BoolT):
        return [("true", is1(v)), ("false", z3.Not(is1(v)))]
    if isinstance(t, (Int, UInt)):
        if t.w <= 2 and r.random() < 0.7:
            lo = -(1 << (t.w - 1)) if t.signed else 0
            return [(str(lo + i), v == bv((lo + i) % (1 << t.w), t.w)) for i in range(1 << t.w)]
        lo = -(1 << (t.w - 1)) if t.signed else 0
        hi = lo + (1 << t.w) - 1
        ns = {r.randint(lo, hi) for _ in range(r.randint(1, 2))}
        ps = [(str(n), v == bv(n % (1 << t.w), t.w)) for n in ns]
        return ps + [("_", z3.BoolVal(True))]
    if isinstance(t, Enum):
        out = []
        for i, (vn, fs) in enumerate(t.variants):
            p = vn if t.name == "Option" else f"{t.name}::{vn}"
            if not fs:
                out.append((p, t.is_(v, i)))
                continue
            for ps, c in product_cover(r, [x for _, x in fs], v[1][i], d - 1):
                out.append((p + args(r, None if t.name == "Option" else [n for n, _ in fs], ps), z3.And(t.is_(v, i), c)))
        return out
    out = []
    for ps, c in product_cover(r, t.members, v, d - 1):
        if isinstance(t, Struct):
            out.append((t.name + args(r, [n for n, _ in t.fields], ps), c))
        elif isinstance(t, Array):
            out.append(("[" + ", ".join(ps) + "]", c))
        else:
            out.append(("(" + ", ".join(ps) + ")", c))
    return out


def product_cover(r, ts, vs, d):
    if not ts:
        return [([], z3.BoolVal(True))]
    # split on one member first, refining the rest separately in each part
    out = []
    k = r.randrange(len(ts))
    rest = [t for i, t in enumerate(ts) if i != k]
    rv = [v for i, v in enumerate(vs) if i != k]
    for p, c in cover(r, ts[k], vs[k], d):
        if r.random() < 0.5:
            subs = [([dress(r, "_") for _ in rest], z3.BoolVal(True))]
        else:
            subs = product_cover(r, rest, rv, d)
        for ps, c2 in subs:
            out.append((ps[:k] + [p] + ps[k:], z3.And(c, c2)))
    return out


def check_unsat(fs):
    s = z3.Solver()
    s.add(*fs)
    return s.check() == z3.unsat


def p08(tier, rng):
    out = []
    n = 700 if tier == "quick" else 7000
    q = 0
    while len(out) < n:
        r = random.Random(rng.getrandbits(64))
        q += 1
        enums, decls = [], ""
        for k in range(r.choice([0, 1, 1, 2])):
            e = rand_enum(r, f"E{k}", enums, r.choice([1, 2, 2, 3, 3, 4, 5]))
            if e.w and e.w < 60:
                enums.append(e)
                decls += e.decl() + "\n"
        if r.random() < 0.3:
            st = Struct("S", [(f"m{i}", r.choice(enums + [Bool, UInt(2), Int(1)])) for i in range(r.randint(1, 3))])
            decls += st.decl() + "\n"
            enums = enums + [st]
        T = r.choice(enums) if enums and r.random() < 0.5 else rand_type(r, r.choice([0, 1, 2]), enums)
        if r.random() < 0.25:
            T = Tuple(*[r.choice(enums + [Bool, UInt(1), Int(2), option(Bool)]) for _ in range(r.randint(2, 3))])
        if T.w == 0 or T.w > 120 or pattern_cost(T) > 400:
            continue
        v = fresh(T)
        x = T.encode(v, lambda w: z3.BitVecVal(0, w))
        base = cover(r, T, v, r.choice([1, 2, 3, 4]))
        if len(base) > 24:
            continue
        r.shuffle(base)
        mode = r.random()
        arms = list(base)
        if mode < 0.5 and len(arms) > 1:
            arms.pop(r.randrange(len(arms)))
        elif mode < 0.6:
            # overlap on top of a full cover
            arms += [tuple(x) for x in cover(r, T, v, 2)[:2]]
            r.shuffle(arms)
        elif mode < 0.75 and len(arms) > 1:
            # remove one, add an overlapping other
            arms.pop(r.randrange(len(arms)))
            c2 = cover(r, T, v, 3)
            arms.append(r.choice(c2))
            r.shuffle(arms)
        guard = None
        if mode > 0.9 and arms:
            guard = r.randrange(len(arms))
        conds = [c for i, (_, c) in enumerate(arms) if i != guard]
        valid = z3.BoolVal(True)
        # every enum tag inside v is one of the variants
        valid = ok_value(T, v)
        miss = [valid, z3.Not(z3.Or(*conds))]
        exhaustive = check_unsat(miss)
        kind = r.random()
        if guard is None and (kind < 0.12 or len(arms) == 1 and kind < 0.5):
            # a single pattern that is not allowed to fail
            p1, c1 = r.choice(base if len(base) > 1 else cover(r, T, v, 1))
            arms = [(p1, c1)]
            miss = [valid, z3.Not(c1)]
            exhaustive = check_unsat(miss)
            body = f"let {p1} = a; 1u8" if r.random() < 0.6 else f"reg(clk) {p1} = a; 1u8"
            src = f"{decls}entity f(clk: clock, a: {T.src}, g: bool) -> uint<8> {{ {body} }}\n"
        else:
            w = lambda p: p
            op = "a"
            if kind > 0.8:
                # next to something no pattern can take apart
                side = r.choice(["clk", "p", "b"])
                op, w = (f"({side}, a)", lambda p: f"(_, {p})") if r.random() < 0.5 else (f"(a, {side})", lambda p: f"({p}, _)")
            body = f"match {op} {{ " + ", ".join(w(p) + (" if g" if i == guard else "") + f" => {i}u8" for i, (p, _) in enumerate(arms)) + " }"
            src = f"{decls}entity f(clk: clock, p: &bool, b: bool, a: {T.src}, g: bool) -> uint<8> {{ {body} }}\n"
        out.append(Verdict(f"ex{q}", src, exhaustive, "some value is matched by no arm" if not exhaustive else "every value is matched", formula=(miss, exhaustive)))
    # let with patterns that may not match
    for i, (T, pat, v, decl) in enumerate(
        [
            (option(UInt(3)), "Some(x)", False, ""), (Tuple(Bool, UInt(2)), "(x, _)", True, ""), (Tuple(Bool, UInt(2)), "(true, _)", False, ""),
            (UInt(2), "3", False, ""), (Array(Bool, 2), "[a0, a1]", True, ""), (Array(Bool, 2), "[a0, false]", False, ""),
            (Enum("E", [("A", [("x", Bool)])]), "E::A(x)", True, "enum E { A{x: bool} }\n"), (Enum("E", [("A", [("x", Bool)])]), "E::A(true)", False, "enum E { A{x: bool} }\n"),
            (Enum("E", [("A", [("x", Bool)]), ("B", [])]), "E::A(x)", False, "enum E { A{x: bool}, B }\n"),
        ]
    ):
        out.append(Verdict(f"let{i}", f"{decl}fn f(a: {T.src}) -> bool {{ let {pat} = a; true }}\n", v, "let patterns cannot fail"))
    return out


def ok_value(t, v):
    if isinstance(t, Scalar):
        return z3.BoolVal(True)
    if isinstance(t, Enum):
        return z3.Or(*[z3.And(t.is_(v, i), *[ok_value(m, x) for (_, m), x in zip(fs, v[1][i])]) for i, (_, fs) in enumerate(t.variants)])
    return z3.And(*[ok_value(m, x) for m, x in zip(t.members, v)] or [z3.BoolVal(True)])
