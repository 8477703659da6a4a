"""P05 enums, P06 tuples, structs and arrays."""
import random
import z3
from ..check import Comb, Ob, Case, in_val, out_val
from ..spec import *
from ..gen import Gen, Opts, pattern_cost

T_ = z3.BoolVal(True)


def comb(name, ins, out, body, f, items="", kind="fn", pre=None):
    args = ", ".join(f"{n}: {t.src}" for n, t in ins)
    return Comb(name, f"{items}{kind} {name}({args}) -> {out.src} {{ {body} }}\n", name, ins, out, f, pre)


def rand_type(r, d, enums=()):
    k = r.random()
    if d <= 0 or k < 0.45:
        w = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 32, 33])
        return r.choice([Int(w), UInt(w), Bool])
    if k < 0.6:
        return Tuple(*[rand_type(r, d - 1, enums) for _ in range(r.randint(2, 4))])
    if k < 0.75:
        return Array(rand_type(r, d - 1, enums), r.choice([1, 2, 3, 4, 5]))
    if k < 0.87:
        return option(rand_type(r, d - 1, enums))
    if enums:
        return r.choice(enums)
    return option(rand_type(r, d - 1, enums))


def rand_enum(r, name, enums, shape=None):
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 16, 17]) if shape is None else shape
    vs = []
    for i in range(n):
        k = r.random()
        nf = 0 if k < 0.3 else 1 if k < 0.6 else r.randint(2, 4)
        vs.append((f"V{i}", [(f"f{j}", rand_type(r, r.choice([0, 0, 1, 2]), enums)) for j in range(nf)]))
    return Enum(name, vs)


def subst_ty(e):
    return e


def enum_cases(r, uid, E, items):
    """construct, inspect and copy every variant of E"""
    out = []
    g = Gen(r, uid)
    n = E.name
    used = [i for i in range(len(E.variants))]
    if len(used) > 5:
        used = sorted(r.sample(used, 5))

    def path(i):
        return f"{n}::{E.variants[i][0]}" if n != "Option" else E.variants[i][0]

    for i in used:
        vn, fs = E.variants[i]
        nm = f"mk{uid}_{i}"
        ins = [(f"x{j}", t) for j, (_, t) in enumerate(fs)]
        sty = r.random()
        if not fs:
            e = path(i)
        elif sty < 0.5:
            e = path(i) + "(" + ", ".join(x for x, _ in ins) + ")"
        else:
            ps = [(f, x) for (f, _), (x, _) in zip(fs, ins)]
            r.shuffle(ps)
            e = path(i) + "$(" + ", ".join(f"{f}: {x}" for f, x in ps) + ")"
        if E.w:
            out.append(comb(nm, ins, E, e, lambda i=i, **v: E.make(i, [v[f"x{j}"] for j in range(len(E.variants[i][1]))]), items))
        # take the variant apart
        for j, (f, t) in enumerate(fs):
            if t.w == 0 or E.w == 0:
                continue
            nm = f"get{uid}_{i}_{j}"
            pats = ["_"] * len(fs)
            pats[j] = "p"
            pat = path(i) + ("(" + ", ".join(pats) + ")" if r.random() < 0.6 else "$(" + ", ".join(f"{ff}: {pp}" for (ff, _), pp in zip(fs, pats)) + ")")
            d = ("d", t)
            body = f"match e {{ {pat} => p, _ => d }}"
            if len(E.variants) == 1 and r.random() < 0.5:
                body = f"let {pat} = e; p"
            elif r.random() < 0.3:
                body = f"if let {pat} = e {{ p }} else {{ d }}"
            out.append(comb(nm, [("e", E), d], t, body, lambda e, d, i=i, j=j, t=t: t.ite(E.is_(e, i), e[1][i][j], d), items))
    # which variant is it
    if E.w:
        nm = f"which{uid}"
        arms = [f"{path(i)}{'(' + ', '.join('_' for _ in fs) + ')' if fs else ''} => {i}u8" for i, (_, fs) in enumerate(E.variants)]
        r.shuffle(arms)
        out.append(comb(nm, [("e", E)], UInt(8), "match e { " + ", ".join(arms) + " }", lambda e: ite_chain(E, e), items))
        nm = f"copy{uid}"
        out.append(comb(nm, [("e", E), ("o", E), ("c", Bool)], E, "if c { e } else { o }", lambda e, o, c: E.ite(is1(c), e, o), items))
        # rebuild every variant from its parts
        arms = []
        for i, (vn, fs) in enumerate(E.variants):
            if fs:
                arms.append(f"{path(i)}({', '.join('q%d' % j for j in range(len(fs)))}) => {path(i)}({', '.join('q%d' % j for j in range(len(fs)))})")
            else:
                arms.append(f"{path(i)} => {path(i)}")
        r.shuffle(arms)
        out.append(comb(f"rebuild{uid}", [("e", E)], E, "match e { " + ", ".join(arms) + " }", lambda e: e, items))
        # into and out of other types
        arr = Array(E, r.choice([1, 2, 3]))
        k = r.randrange(arr.n)
        out.append(comb(f"inarr{uid}", [("a", arr)], E, f"a[{k}]", lambda a, k=k: a[k], items))
        tup = Tuple(Bool, E, UInt(3))
        out.append(comb(f"intup{uid}", [("e", E), ("b", Bool)], tup, "(b, e, 5)", lambda e, b: [b, e, bv(5, 3)], items))
        o = option(E)
        out.append(comb(f"inopt{uid}", [("e", E), ("b", Bool)], o, "if b { Some(e) } else { None }", lambda e, b, o=o: o.ite(is1(b), o.make(1, [e]), o.make(0, [])), items))
        out.append(comb(f"outopt{uid}", [("x", o), ("e", E)], E, "match x { Some(v) => v, None => e }", lambda x, e, o=o: E.ite(o.is_(x, 1), x[1][1][0], e), items))
        # a variant selected through nested patterns
        vi = [i for i in used if E.variants[i][1]]
        if vi:
            i = r.choice(vi)
            fs = E.variants[i][1]
            j = r.randrange(len(fs))
            t = fs[j][1]
            if t.w:
                ps = ", ".join("p" if q == j else "_" for q in range(len(fs)))
                out.append(
                    comb(f"nest{uid}", [("x", o), ("d", t)], t, f"match x {{ Some({path(i)}({ps})) => p, Some(_) => d, None => d }}",
                         lambda x, d, i=i, j=j, t=t, o=o: t.ite(z3.And(o.is_(x, 1), E.is_(x[1][1][0], i)), x[1][1][0][1][i][j], d), items)
                )
    return out


def ite_chain(E, e):
    r = bv(0, 8)
    for i in range(len(E.variants)):
        r = ite(E.is_(e, i), bv(i, 8), r)
    return r


def p05(tier, rng):
    out = []
    n = 90 if tier == "quick" else 900
    for q in range(n):
        r = random.Random(rng.getrandbits(64))
        decls, enums = "", []
        for k in range(r.choice([0, 0, 1])):
            e = rand_enum(r, f"En{q}_{k}", enums)
            if e.w:
                enums.append(e)
                decls += e.decl() + "\n"
        if r.random() < 0.15:
            E = option(rand_type(r, 2, enums))
        else:
            shape = [1, 2, 3, 4, 5, 8, 9][q] if q < 7 else None
            E = rand_enum(r, f"E{q}", enums, shape)
            decls += E.decl() + "\n"
        if E.w == 0 or E.w > 600:
            continue
        cs = enum_cases(r, f"{q}", E, "")
        # the declarations travel with the first case of the group; keep the group in one program
        for c in cs:
            c.src = c.src
            c.decls = decls
        out += cs
    return dedecl(out)


def dedecl(cases):
    """Give every case its own copy of the declarations it needs (renamed so that programs can be merged)."""
    import re

    for k, c in enumerate(cases):
        d = getattr(c, "decls", "")
        if not d:
            continue
        names = re.findall(r"(?:enum|struct) (\w+)", d)
        src = d + c.src
        for n in names:
            src = re.sub(rf"\b{n}\b", f"{n}_{k}", src)
        c.src = src
    return cases


# ------------------------------------------------------------------ P06
def p06(tier, rng):
    out = []
    quick = tier == "quick"

    def add(c, decls=""):
        c.decls = decls
        out.append(c)

    elems = [UInt(1), Bool, UInt(2), Int(3), UInt(8), Int(17), UInt(33), Tuple(Bool, UInt(3)), Tuple(UInt(1), Bool), Array(UInt(3), 2), Array(Bool, 3), Array(UInt(1), 1),
             option(UInt(5)), option(Bool), Tuple(Array(Bool, 2), option(Int(2)))]
    k = 0
    for e in elems:
        for n in [1, 2, 3, 4, 5, 7, 8, 9] if quick else list(range(1, 18)) + [31, 32, 33]:
            A = Array(e, n)
            k += 1
            for i in sorted({0, n - 1, rng.randrange(n)}):
                add(comb(f"ci{k}_{i}", [("a", A)], e, f"a[{i}]", lambda a, i=i: a[i]))
            iw = (n - 1).bit_length()
            if iw:
                I = UInt(iw)
                add(comb(f"di{k}", [("a", A), ("i", I)], e, "a[i]", lambda a, i, A=A: index(A, a, i), pre=lambda a, i, n=n, iw=iw: [z3.ULT(z3.ZeroExt(1, i), bv(n, iw + 1))]))
                if n > 1 and iw > 1:
                    J = UInt(iw - 1)
                    add(comb(f"de{k}", [("a", A), ("i", J)], e, "a[std::conv::zext(i)]", lambda a, i, A=A, iw=iw: index(A, a, ext(i, iw, False)),
                             pre=lambda a, i, n=n, iw=iw: [z3.ULT(z3.ZeroExt(2, i), bv(n, iw + 1))]))
            xs = [f"x{q}" for q in range(n)]
            if n <= 9:
                add(comb(f"mk{k}", [(x, e) for x in xs], A, "[" + ", ".join(xs) + "]", lambda n=n, **v: [v[f"x{q}"] for q in range(n)]))
                ps = [f"p{q}" for q in range(n)]
                add(comb(f"pat{k}", [("a", A)], Tuple(*([e] * n)) if n > 1 else e, f"let [{', '.join(ps)}] = a; " + ("(" + ", ".join(reversed(ps)) + ")" if n > 1 else ps[0]),
                         lambda a, n=n: list(reversed(a)) if n > 1 else a[0]))
            add(comb(f"sh{k}", [("x", e)], A, f"[x; {n}]", lambda x, n=n: [x] * n))
            rs = [(lo, hi) for lo in range(n) for hi in range(lo + 1, n + 1)]
            for lo, hi in rs if len(rs) <= 3 else rng.sample(rs, 3):
                R = Array(e, hi - lo)
                add(comb(f"rg{k}_{lo}_{hi}", [("a", A)], R, f"a[{lo}..{hi}]", lambda a, lo=lo, hi=hi: a[lo:hi]))
                m = rng.randrange(hi - lo)
                add(comb(f"ri{k}_{lo}_{hi}", [("a", A)], e, f"a[{lo}..{hi}][{m}]", lambda a, lo=lo, m=m: a[lo + m]))
            if n > 2:
                lo, hi = sorted(rng.sample(range(n + 1), 2))
                L = hi - lo
                if L > 1:
                    lo2, hi2 = sorted(rng.sample(range(L + 1), 2))
                    add(comb(f"rr{k}", [("a", A)], Array(e, hi2 - lo2), f"a[{lo}..{hi}][{lo2}..{hi2}]", lambda a, lo=lo, lo2=lo2, hi2=hi2: a[lo + lo2 : lo + hi2]))
            # elements that were computed rather than stored
            add(comb(f"tw{k}", [("a", A), ("b", A), ("c", Bool)], e, f"(if c {{ a }} else {{ b }})[{n-1}]", lambda a, b, c, n=n, e=e: e.ite(is1(c), a[n - 1], b[n - 1])))
    # element order: the array written first-to-last is indexed from 0
    add(comb("order", [], Array(UInt(4), 4), "[1, 2, 3, 4]", lambda: [bv(i, 4) for i in (1, 2, 3, 4)]))
    # two dimensional
    for e, n, m in [(UInt(3), 2, 3), (Bool, 3, 2), (Int(5), 4, 4), (UInt(1), 2, 2), (option(Bool), 3, 3), (UInt(1), 1, 1), (UInt(7), 1, 4), (UInt(2), 4, 1)]:
        A = Array(Array(e, n), m)
        k += 1
        for i in {0, m - 1}:
            for j in {0, n - 1}:
                add(comb(f"dd{k}_{i}_{j}", [("a", A)], e, f"a[{i}][{j}]", lambda a, i=i, j=j: a[i][j]))
        wi, wj = (m - 1).bit_length(), (n - 1).bit_length()
        if wi and wj:
            add(comb(f"dy{k}", [("a", A), ("i", UInt(wi)), ("j", UInt(wj))], e, "a[i][j]", lambda a, i, j, A=A: index(A.inner, index(A, a, i), j),
                     pre=lambda a, i, j, m=m, n=n, wi=wi, wj=wj: [z3.ULT(z3.ZeroExt(1, i), bv(m, wi + 1)), z3.ULT(z3.ZeroExt(1, j), bv(n, wj + 1))]))
    # tuples and structs
    for q in range(120 if quick else 1200):
        r = random.Random(rng.getrandbits(64))
        k += 1
        decls = ""
        structs = []
        for s in range(r.choice([0, 1, 1, 2])):
            fs = [(f"m{i}", r.choice(structs) if structs and r.random() < 0.3 else rand_type(r, r.choice([0, 1, 2]))) for i in range(r.randint(1, 4))]
            st = Struct(f"S{k}_{s}", fs)
            if st.w > 400:
                continue
            structs.append(st)
            decls += st.decl() + "\n"
        T = structs[-1] if structs else Tuple(*[rand_type(r, 2) for _ in range(r.randint(2, 5))])
        if T.w == 0 or T.w > 500:
            continue
        if isinstance(T, Struct):
            acc = [f".{n}" for n, _ in T.fields]
            xs = [f"x{i}" for i in range(len(T.members))]
            if r.random() < 0.5:
                mkx = T.name + "(" + ", ".join(xs) + ")"
            else:
                ps = [(n, x) for (n, _), x in zip(T.fields, xs)]
                r.shuffle(ps)
                mkx = T.name + "$(" + ", ".join(f"{n}: {x}" for n, x in ps) + ")"
        else:
            acc = [f".{i}" for i in range(len(T.members))]
            xs = [f"x{i}" for i in range(len(T.members))]
            mkx = "(" + ", ".join(xs) + ")"
        add(comb(f"cons{k}", list(zip(xs, T.members)), T, mkx, lambda n=len(xs), **v: [v[f"x{i}"] for i in range(n)]), decls)
        for i, m in enumerate(T.members):
            if m.w:
                add(comb(f"acc{k}_{i}", [("a", T)], m, "a" + acc[i], lambda a, i=i: a[i]), decls)
                if isinstance(m, (Tuple, Struct)):
                    j = r.randrange(len(m.members))
                    t = m.members[j]
                    if t.w:
                        s = f".{j}" if isinstance(m, Tuple) else "." + m.fields[j][0]
                        add(comb(f"acc2_{k}_{i}", [("a", T)], t, "a" + acc[i] + s, lambda a, i=i, j=j: a[i][j]), decls)
                if isinstance(m, Array) and m.inner.w:
                    j = r.randrange(m.n)
                    add(comb(f"acca{k}_{i}", [("a", T)], m.inner, f"a{acc[i]}[{j}]", lambda a, i=i, j=j: a[i][j]), decls)
        # destructure with a pattern and put back in another order
        ps = [f"p{i}" for i in range(len(T.members))]
        if isinstance(T, Struct):
            if r.random() < 0.5:
                pat = T.name + "(" + ", ".join(ps) + ")"
            else:
                z = [(n, p) for (n, _), p in zip(T.fields, ps)]
                r.shuffle(z)
                pat = T.name + "$(" + ", ".join(f"{n}: {p}" for n, p in z) + ")"
        else:
            pat = "(" + ", ".join(ps) + ")"
        perm = list(range(len(ps)))
        r.shuffle(perm)
        if len(perm) > 1:
            R = Tuple(*[T.members[i] for i in perm])
            add(comb(f"perm{k}", [("a", T)], R, f"let {pat} = a; (" + ", ".join(ps[i] for i in perm) + ")", lambda a, perm=perm: [a[i] for i in perm]), decls)
    return dedecl(out)
