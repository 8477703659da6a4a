"""P27: what test benches exchange with the hardware through the simulation extension.
P22: values computed at compile time are those of the hardware."""
import random
import z3
from ..check import Case, Ob, Violation, Verdict, in_val, out_val, OUT, fresh_x, model_int, solve, CFG
from ..spec import *
from ..sym import extract, bv
from ..gen import Gen, Opts, leaves
from .ports import Inv, PStruct, PTuple, fwd, bwd, ptuple
from .data import rand_type, rand_enum


# ------------------------------------------------------------------ part A: where fields are
class Types:
    def __init__(self, r, uid):
        self.r, self.uid, self.items, self.n = r, uid, [], 0
        self.enums = []
        for i in range(r.randint(0, 1)):
            e = rand_enum(r, f"En{uid}_{i}", self.enums, shape=r.choice([1, 2, 3, 4, 5]))
            self.items.append(e.decl())
            self.enums.append(e)

    def data(self, d=1):
        k = self.r.random()
        if k < 0.06:
            return self.r.choice([UInt(0), Int(0), Tuple(), Array(UInt(0), 2)])
        if k < 0.12:
            return self.r.choice([Int, UInt])(self.r.choice([63, 64, 65, 70, 128]))
        return rand_type(self.r, d, self.enums)

    def name(self):
        self.n += 1
        return f"S{self.uid}_{self.n}"

    def struct(self, d, inv):
        r = self.r
        fs = []
        for i in range(r.choice([1, 2, 2, 3, 3, 4])):
            # names that are prefixes of others, or occur on several levels
            nm = r.choice(["a", "b", "c", "ab", "x", "y", "i", "o", "a_i", "r_o", "value", "z1"])
            while nm in [f for f, _ in fs]:
                nm += r.choice(["a", "1", "_"])
            fs.append((nm, self.field(d - 1, inv)))
        if all(isinstance(t, Ty) for _, t in fs):
            if r.random() < 0.25:
                # the first field's type comes from a parameter
                n = self.name()
                self.items.append(f"struct {n}<T> {{ {', '.join(f'{f}: ' + ('T' if i == 0 else t.src) for i, (f, t) in enumerate(fs))} }}")
                return Struct(n, fs, f"<{fs[0][1].src}>")
            t = Struct(self.name(), fs)
        else:
            t = PStruct(self.name(), fs)
        self.items.append(t.decl())
        return t

    def field(self, d, inv):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.45:
            t = self.struct(d, inv)
        elif inv and k < 0.55:
            return ptuple([self.data(0), Inv(self.data(0))]) if r.random() < 0.5 else ptuple([Inv(self.data(0)), self.data(0)])
        else:
            t = self.data()
        if inv and r.random() < 0.35:
            return Inv(t)
        return t


def is_struct(t):
    return isinstance(t, (Struct, PStruct))


def flat(t, path=()):
    """the fields that are no structs themselves"""
    if is_struct(t):
        return [x for f, m in t.fields for x in flat(m, path + (f,))]
    return [(path, t)]


def build(t, path, names):
    if is_struct(t):
        g = t.src.split("<")[0]
        return f"{g}$(" + ", ".join(f"{f}: {build(m, path + (f,), names)}" for f, m in t.fields) + ")"
    return names[path]


def invert(t):
    return t.inner if isinstance(t, Inv) else Inv(t)


def nodes(t, path=()):
    """every path a test bench can name, with its type"""
    yield path, t
    if is_struct(t):
        for f, m in t.fields:
            yield from nodes(m, path + (f,))
    elif isinstance(t, Inv):
        u = t.inner
        flips = 1
        while isinstance(u, Inv):
            u, flips = u.inner, flips + 1
        if is_struct(u):
            for f, m in u.fields:
                for _ in range(flips):
                    m = Inv(m)
                yield from nodes(m, path + (f,))


def nav(t, tree, path):
    """the member of a value of type t's forward part at path, given its tree"""
    while path:
        while isinstance(t, Inv):
            t = t.inner
        k = [f for f, _ in t.fields].index(path[0])
        t, tree, path = t.fields[k][1], tree[k], path[1:]
    return tree


class FieldCase(Case):
    """field ranges say where the hardware has the field"""

    def __init__(self, name, src, top, T, lv, params, output):
        super().__init__(name, src, top, opts={"state": True}, solo=True)
        self.T, self.lv, self.params, self.is_out = T, lv, params, output

    def obligations(self, ctx):
        T = self.T
        s = ctx.sim()
        fr = s.step()
        outs = dict(s.elab.outputs)
        ins = {n: w for n, w, d in s.elab.inputs}
        ok = []

        def port(name, ty, d):
            if not ty.w:
                return None
            w = (ins if d == "in" else outs).get(name)
            if w != ty.w:
                raise Violation("port width", f"{name} has {w} bits, {ty.src} needs {ty.w}")
            if d == "in":
                b = fr.input(name, ty.w)
                ok.append(ty.ok(b))
                return b
            return fr.out(name)

        # the whole, and its leaves one by one, seen from the unit's outside
        if self.is_out:
            read, write = port(OUT, fwd(T), "out"), port("input__", bwd(T), "in")
            leaf = {}
            for path, t in self.lv:
                n = self.params[path]
                leaf[path] = (fwd(t).decode(port(n + "_i", fwd(t), "in")), bwd(t).decode(port(n + "_o", bwd(t), "out")))
            whole = {"fwd": read, "bwd": write}
            pf, pb = OUT, "input__"
        else:
            whole = {"fwd": port("p_i", fwd(T), "in"), "bwd": port("p_o", bwd(T), "out")}
            R = ptuple([t for _, t in self.lv])
            f = fwd(R).decode(port(OUT, fwd(R), "out"))
            b = bwd(R).decode(port("input__", bwd(R), "in")) or [[]] * len(self.lv)
            leaf = {path: (x, y) for (path, _), x, y in zip(self.lv, f, b)}
            pf, pb = "p_i", "p_o"

        def expected(path, t, k):
            if path in leaf:
                return leaf[path][k]
            if is_struct(t) and any(q[: len(path)] == path for q in leaf):
                return [expected(path + (f,), m, k) for f, m in t.fields]
            q = next(q for q in leaf if q == path[: len(q)])
            return nav(dict(self.lv)[q], leaf[q][k], path[len(q):])

        ns = list(nodes(T))
        size = {"fsize" if not self.is_out else "bsize": fwd(T).w, "bsize" if not self.is_out else "fsize": bwd(T).w}
        ops = [{"op": "field", "path": list(p), **size} | ({} if self.is_out else {"arg": "p"}) for p, _ in ns]
        # each path on its own as well: the answers must not depend on what was asked before
        ops += list(reversed(ops))
        r = ctx.srv.ask({"cmd": "sim", "uut": self.top, "ops": ops})
        if not r["ok"]:
            raise Violation("simulation extension", str(r.get("panic") or r.get("error"))[:600])
        res = r["results"]
        for (p, _), a, b in zip(ns, res, reversed(res)):
            if a != b:
                raise Violation("field", f"{'.'.join(p)}: {a} or {b}, depending on earlier questions")
        for (path, t), a in zip(ns, res):
            dot = ".".join(("o" if self.is_out else "p",) + path)
            if not a["ok"]:
                raise Violation("field", f"{dot}: {t.src}: {a}")
            a = a["r"]
            # `fwd` is what the test bench drives, `back` what it sees
            for k, side, ty, port_name in ((0, "fwd", fwd(t), pf), (1, "bwd", bwd(t), pb)):
                key = {True: {"fwd": "back", "bwd": "fwd"}, False: {"fwd": "fwd", "bwd": "back"}}[self.is_out][side]
                g = a[key]
                total = fwd(T).w if side == "fwd" else bwd(T).w
                if not ty.w:
                    if g is not None:
                        raise Violation("field", f"{dot}: {t.src}: {key} range {g} for a part without bits")
                    continue
                if g is None or g["to"] - g["from"] != ty.w or g["to"] > total:
                    raise Violation("field", f"{dot}: {t.src}: {key} range {g}, needs {ty.w} bits of {total}")
                if g["is_full"] and (g["from"], g["to"]) != (0, total):
                    raise Violation("field", f"{dot}: {t.src}: {key} range {g} is not all of {total} bits")
                if list(g["downto"]) != [total - g["to"], total - g["from"]]:
                    raise Violation("field", f"{dot}: {t.src}: {key} range {g} of {total} bits")
                if a[key + "_port"] != port_name:
                    raise Violation("field", f"{dot}: {t.src}: {key} is the port {a[key + '_port']} instead of {port_name}")
                bits = extract(whole[side], total - g["from"] - 1, total - g["to"])
                got, want = ty.decode(bits), expected(path, t, k)
                probes = [(0, "", port_name, whole[side])] if port_name in outs else []
                yield Ob(f"{dot} {key}", [z3.Not(ty.same(got, want))], probes, ok, [("expected", ty, want), ("actual", ty, got)])
            F, B = (bwd(t).w, fwd(t).w) if self.is_out else (fwd(t).w, bwd(t).w)
            if (a["write"] is not None) != (F > 0 and B == 0) or (a["read"] is not None) != (B > 0 and F == 0):
                raise Violation("field", f"{dot}: {t.src}: write {a['write']} read {a['read']} with {F} bits to drive and {B} to see")
            if (a["write"] or a["fwd"]) != a["fwd"] or (a["read"] or a["back"] or {}) != (a["back"] or {}) and a["read"]["from"] != a["back"]["from"]:
                raise Violation("field", f"{dot}: {t.src}: {a}")


def field_case(r, uid, output):
    g = Types(r, uid)
    inv = r.random() < 0.6
    T = g.struct(r.choice([1, 2, 2, 3]), inv)
    if isinstance(T, Ty) and T.w == 0:
        return None
    lv = flat(T)
    top = f"fc{uid}"
    items = "\n".join(g.items) + "\n"
    if output:
        params = {p: f"q{i}" for i, (p, _) in enumerate(lv)}
        src = f"entity {top}({', '.join(f'{params[p]}: {t.src}' for p, t in lv)}) -> {T.src} {{ {build(T, (), params)} }}\n"
        return FieldCase(top, items + src, top, T, lv, params, True)
    R = ptuple([t for _, t in lv])
    body = "(" + ", ".join("p." + ".".join(p) for p, _ in lv) + ("," if len(lv) == 1 else "") + ")"
    if len(lv) == 1:
        R.src = f"({lv[0][1].src},)"
    src = f"entity {top}(p: {T.src}, other: bool) -> {R.src} {{ {body} }}\n"
    return FieldCase(top, items + src, top, T, lv, None, False)


# ------------------------------------------------------------------ constants
class K:
    """expressions that are evaluated at compile time. No reference value: the hardware computes it"""

    def __init__(self, r, bench):
        self.r, self.bench = r, bench

    def num(self, t):
        r = self.r
        lo, hi = (-(1 << t.w) >> 1, (1 << t.w >> 1) - 1) if t.signed else (0, (1 << t.w) - 1)
        if t.w == 0:
            lo = hi = 0
        return r.choice([lo, hi, 0, lo + 1 if lo < hi else lo, r.randint(lo, hi), r.randint(lo, hi), min(hi, 1), max(lo, -1)])

    def lit(self, t, typed):
        if isinstance(t, BoolT):
            return self.r.choice(["true", "false"])
        n = self.num(t)
        sfx = f"{'i' if t.signed else 'u'}{t.w}" if typed else ""
        k = self.r.random()
        a = f"{abs(n)}" if k < 0.7 else hex(abs(n)) if k < 0.85 else bin(abs(n))
        if n < 0:
            return f"(-{a}{sfx})"
        return f"{a}{sfx}"

    def e(self, t, d, typed=True):
        r = self.r
        k = r.random()
        if d > 0 and t.w and k < 0.2:
            # a member of a tuple or an array
            if r.random() < 0.5:
                n = r.randint(2, 3)
                i = r.randrange(n)
                ms = [self.e(t if j == i else rand_type(r, 0), d - 1) for j in range(n)]
                return f"({', '.join(ms)}).{i}"
            n = r.choice([1, 2, 3, 4, 5])
            i = r.randrange(n)
            j = f"{i}" if r.random() < 0.6 or n == 1 else f"{i}u{(n - 1).bit_length()}"
            return f"[{', '.join(self.e(t, d - 1) for _ in range(n))}][{j}]"
        if isinstance(t, Scalar):
            if d > 0 and not isinstance(t, BoolT) and t.w >= 2 and k < 0.6:
                if t.signed and k < 0.35:
                    if r.random() < 0.4:
                        # the one number whose negation is itself
                        return f"(-(-{1 << (t.w - 1)}i{t.w}))"
                    return f"(-{self.paren(self.e(t, d - 1))})"
                u = (Int if t.signed else UInt)(t.w - 1)
                if u.w:
                    return f"({self.e(u, d - 1)} {r.choice('+-')} {self.e(u, d - 1)})"
            return self.lit(t, typed)
        if isinstance(t, Struct):
            g = t.src.split("<")[0]
            xs = [(f, self.e(m, d - 1)) for f, m in t.fields]
            if r.random() < 0.4:
                r.shuffle(xs)
                return f"{g}$({', '.join(f'{f}: {x}' for f, x in xs)})"
            return f"{g}({', '.join(x for _, x in xs)})"
        if isinstance(t, Enum):
            n, fs = r.choice(t.variants)
            p = n if t.name == "Option" else f"{t.name}::{n}"
            if not fs:
                return p + r.choice(["", "()"])
            xs = [(f, self.e(m, d - 1)) for f, m in fs]
            if r.random() < 0.3:
                r.shuffle(xs)
                return f"{p}$({', '.join(f'{f}: {x}' for f, x in xs)})"
            return f"{p}({', '.join(x for _, x in xs)})"
        if isinstance(t, Array):
            if r.random() < 0.3:
                return f"[{self.e(t.inner, d - 1)}; {t.n}]"
            return f"[{', '.join(self.e(t.inner, d - 1) for _ in range(t.n))}]"
        if len(t.members) == 1:
            return f"({self.e(t.members[0], d - 1)},)"
        return "(" + ", ".join(self.e(m, d - 1) for m in t.members) + ")"

    def paren(self, s):
        return s if s[0] in "([" or s.isalnum() else f"({s})"

    def top(self, t):
        """a whole expression: the type is known from the place it is used at"""
        d = self.r.choice([0, 1, 2, 3])
        s = self.e(t, d, self.r.random() < 0.5)
        if self.bench and self.r.random() < 0.15:
            return f"{{ let k: {t.src} = {s}; k }}"
        return s


def value_types(r, uid):
    g = Types(r, uid)
    ts = []
    for _ in range(r.randint(1, 4)):
        ts.append(g.struct(2, False) if r.random() < 0.3 else g.data(2))
    return g, [t for t in ts if t.w]


def pattern(bits):
    """(mask of the defined bits, their value)"""
    return int("".join("0" if c == "X" else "1" for c in bits), 2), int("".join("0" if c == "X" else c for c in bits), 2)


class ValueCase(Case):
    """expressions given by a test bench stand for the same values as in the hardware"""

    def __init__(self, name, src, top, types, consts, bad):
        super().__init__(name, src, top, opts={"state": True}, solo=True)
        self.types, self.consts, self.bad = types, consts, bad

    def obligations(self, ctx):
        ts = self.types
        ow = sum(t.w for t in ts)
        rng = random.Random(self.name)
        ops = []
        for i, j, e in self.consts:
            a = {"arg": f"a{i}", "expr": e}
            ops += [dict(op="arg", **a), dict(op="arg_u32", **a), dict(op="field_bits", path=[], **a)]
            ops.append({"op": "compare", "path": [f"o{i}"], "expr": e, "bits": "0" * ow})
            # fields seen by the test bench: values of the inverted arguments
            ops.append({"op": "compare", "arg": f"b{i}", "path": [], "expr": e, "bits": "0" * ts[i].w})
            ops.append({"op": "field_bits", "path": [f"d{i}"], "expr": e})
        bad = [{"op": "arg", "arg": f"a{i}", "expr": e} for i, e in self.bad]
        r = ctx.srv.ask({"cmd": "sim", "uut": self.top, "ops": ops + bad})
        if not r["ok"]:
            raise Violation("simulation extension", str(r.get("panic") or r.get("error"))[:600])
        res = r["results"]
        for o, x in zip(ops, res):
            if not x["ok"]:
                raise Violation("simulation extension", f"{o['op']} of {o['expr']}: {str(x)[:400]}")
        for o, x in zip(bad, res[len(ops):]):
            if x["ok"] or x.get("panic"):
                raise Violation("simulation extension", f"{o['expr']} for {o['arg']}, which it does not fit: {str(x)[:400]}")
        again = []
        for q, (i, j, e) in enumerate(self.consts):
            t = ts[i]
            arg, u32, fb, cmp_o, cmp_b, fb_o = [x["r"] for x in res[6 * q: 6 * q + 6]]
            if arg["name"] != f"a{i}_i":
                raise Violation("port", f"{e} is for port {arg['name']}")
            s = ctx.sim(top=f"c{j}_{self.top}", tag=f"{j}.")
            fr = s.step()
            hw, hb = out_val(fr, t)
            pr = [(0, "", OUT, hb, s)]
            for what, b in (("arg", arg["bits"]), ("raw", u32["bits"]), ("field", fb["bits"]), ("compare", cmp_o["expected"]), ("compare", cmp_b["expected"]), ("field", fb_o["bits"])):
                if len(b) != t.w or set(b) - set("01X"):
                    raise Violation("width", f"{what}: {e} is {b}, but {t.src} has {t.w} bits")
                m, v = pattern(b)
                x = bv(v, t.w) | (fresh_x(t.w) & bv(~m & ((1 << t.w) - 1), t.w))
                yield Ob(f"{what} {q}", [z3.Not(t.same(t.decode(x), hw))], pr, [], [("expected", t, hw), ("actual", t, t.decode(x))])
            n = 0
            for k, c in enumerate(u32["chunks"]):
                n |= c << (32 * k)
            if n != pattern(arg["bits"])[1]:
                raise Violation("chunks", f"{e}: {u32}")
            # comparing: exactly the values equal to the hardware's match
            for arm, cmp_ in (("o", cmp_o), ("b", cmp_b)):
                m, v = pattern(cmp_["expected"])
                b = z3.BitVec(f"seen_{arm}{q}", t.w)
                match = (b & bv(m, t.w)) == bv(v, t.w)
                yield Ob(f"compare {arm}{q}", [match != t.same(t.decode(b), hw)], pr, [t.ok(b)], [("expected", t, hw)])
                for want in (True, False):
                    st, mod = solve([t.ok(b), match == want] + ([] if want or not m else [z3.Or(*[(b ^ bv(v, t.w)) & bv(m, t.w) == bv(1 << z, t.w) for z in range(t.w) if m >> z & 1])]), CFG["timeout"])
                    if st == "sat":
                        again.append((i, e, arm, format(model_int(mod, b), f"0{t.w}b"), want))
                # a bit the simulator does not know is no match for an expected one, and any match for one nobody expects anything of
                for u in "XZ":
                    st, mod = solve([t.ok(b), match], CFG["timeout"])
                    if st == "sat":
                        known = [z for z in range(t.w) if m >> z & 1]
                        seen = list(format(model_int(mod, b), f"0{t.w}b"))
                        free = [z for z in range(t.w) if not m >> z & 1]
                        if free:
                            w = list(seen)
                            for z in rng.sample(free, rng.randint(1, len(free))):
                                w[t.w - 1 - z] = u
                            again.append((i, e, arm, "".join(w), True))
                        if known:
                            w = list(seen)
                            for z in rng.sample(known, rng.choice([1, len(known)])):
                                w[t.w - 1 - z] = u
                            again.append((i, e, arm, "".join(w), False))
        # the real comparison agrees with that reading of its expectation
        ops = []
        for i, e, arm, b, want in again:
            if arm == "b":
                ops.append({"op": "compare", "arg": f"b{i}", "path": [], "expr": e, "bits": b})
            else:
                at = sum(t.w for t in ts[:i])
                o = "".join(rng.choice("01") for _ in range(ow))
                ops.append({"op": "compare", "path": [f"o{i}"], "expr": e, "bits": o[:at] + b + o[at + len(b):]})
        if ops:
            r = ctx.srv.ask({"cmd": "sim", "uut": self.top, "ops": ops})
            for (i, e, arm, b, want), x in zip(again, r["results"]):
                if not x["ok"] or x["r"]["got"] != b or x["r"]["matches"] != want:
                    raise Violation("compare", f"{e} and {b} of {ts[i].src} should {'' if want else 'not '}match: {str(x)[:400]}")


def value_case(r, uid):
    g, ts = value_types(r, uid)
    if not ts:
        return None
    k = K(r, True)
    top = f"vc{uid}"
    consts, src = [], []
    for j in range(r.randint(2, 5)):
        i = r.randrange(len(ts))
        e = k.top(ts[i])
        consts.append((i, j, e))
        src.append(f"fn c{j}_{top}() -> {ts[i].src} {{ {e} }}")
    bad = []
    for i, t in enumerate(ts):
        if isinstance(t, Scalar) and r.random() < 0.3:
            if isinstance(t, BoolT):
                bad.append((i, r.choice(["1", "0u1", "(true, true)"])))
            else:
                hi = 1 << (t.w - 1 if t.signed else t.w)
                bad.append((i, r.choice([f"{hi}", f"{hi + r.randint(0, 99)}", f"{-hi - 1 if t.signed else -1}", "true", f"0{'u' if t.signed else 'i'}{t.w}", f"0{'i' if t.signed else 'u'}{t.w + 1}"])))
    fs = ", ".join(f"o{i}: {t.src}" for i, t in enumerate(ts)) + ", " + ", ".join(f"d{i}: inv {t.src}" for i, t in enumerate(ts))
    g.items.append(f"struct O{uid} {{ {fs} }}")
    ps = ", ".join(f"a{i}: {t.src}, b{i}: inv {t.src}" for i, t in enumerate(ts))
    body = f"O{uid}({', '.join(f'a{i}' for i in range(len(ts)))}, {', '.join(f'b{i}' for i in range(len(ts)))})"
    src.append(f"entity {top}({ps}) -> O{uid} {{ {body} }}")
    return ValueCase(top, "\n".join(g.items + src) + "\n", top, ts, consts, bad)


def p27(tier, rng):
    quick = tier == "quick"
    out = []
    q = 0
    while len(out) < (240 if quick else 3000):
        q += 1
        c = field_case(random.Random(rng.getrandbits(64)), f"{q}", q % 2 == 0)
        if c:
            out.append(c)
    n = len(out)
    while len(out) < n + (160 if quick else 2000):
        q += 1
        c = value_case(random.Random(rng.getrandbits(64)), f"{q}")
        if c:
            out.append(c)
    return out


# ------------------------------------------------------------------ P22
class InitCase(Case):
    """registers and memories start with the value the hardware computes for the same expression"""

    def __init__(self, name, src, top, regs):
        super().__init__(name, src, top)
        self.regs = regs

    def obligations(self, ctx):
        for i, (t, kind, n) in enumerate(self.regs):
            s = ctx.sim(top=f"r{i}_{self.top}", tag=f"r{i}.")
            f = s.step()
            if kind == "reg":
                c = ctx.sim(top=f"c{i}_{self.top}", tag=f"c{i}.")
                want, wb = out_val(c.step(), t)
                got, gb = out_val(f, t)
                yield Ob(f"initial {i}", [z3.Not(t.same(got, want))], [(0, "", OUT, wb, c), (0, "", OUT, gb, s)], [], [("expected", t, want), ("actual", t, got)])
                continue
            c = ctx.sim(top=f"c{i}_{self.top}", tag=f"c{i}.")
            A = Array(t, n)
            want, wb = out_val(c.step(), A)
            got, gb = out_val(f, t)
            ok = []
            if n > 1:
                a = f.input("a_i", (n - 1).bit_length())
                ok.append(z3.ULT(a, n) if n < 1 << a.size() else z3.BoolVal(True))
                want = index(A, want, a)
            else:
                want = want[0]
            yield Ob(f"contents {i}", [z3.Not(t.same(got, want))], [(0, "", OUT, wb, c), (0, "", OUT, gb, s)], ok, [("expected", t, want), ("actual", t, got)])


def init_case(r, uid):
    g, ts = value_types(r, uid)
    if not ts:
        return None
    k = K(r, False)
    top = f"ic{uid}"
    src, regs = [], []
    for i, t in enumerate(ts):
        if r.random() < 0.7:
            e = k.top(t)
            ann = f": {t.src}"
            src.append(f"fn c{i}_{top}() -> {t.src} {{ {e} }}")
            src.append(f"entity r{i}_{top}(clk: clock) -> {t.src} {{ reg(clk) x{ann} initial({e}) = x; x }}")
            regs.append((t, "reg", 0))
        else:
            n = r.choice([1, 2, 3, 4, 5, 8])
            aw = (n - 1).bit_length()
            # the initial contents have to be written as an array
            d = r.choice([0, 1, 2, 3])
            e = f"[{k.e(t, d)}; {n}]" if r.random() < 0.3 else f"[{', '.join(k.e(t, d) for _ in range(n))}]"
            src.append(f"fn c{i}_{top}() -> [{t.src}; {n}] {{ {e} }}")
            src.append(
                f"entity r{i}_{top}(clk: clock, a: uint<{aw}>, d: {t.src}) -> {t.src} {{ "
                f"let m: Memory<{t.src}, {n}> = inst std::mem::clocked_memory_init(clk, [(false, a, d)], {e}); inst std::mem::read_memory(m, a) }}"
            )
            regs.append((t, "mem", n))
    return InitCase(top, "\n".join(g.items + src) + "\n", top, regs)


def p22(tier, rng):
    quick = tier == "quick"
    out = []
    q = 0
    while len(out) < (600 if quick else 8000):
        q += 1
        c = init_case(random.Random(rng.getrandbits(64)), f"{q}")
        if c:
            out.append(c)
    return out
