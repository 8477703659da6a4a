"""P28: a name means the declaration that the scoping rules say."""
import random
import z3
from ..check import Comb, Verdict
from ..spec import *

W = 16
U = UInt(W)


# ------------------------------------------------------------------ modules
class Mod:
    """a namespace: a library, a module, or an enum (whose entries are its variants)"""

    def __init__(self, name, parent, kind="mod"):
        self.name, self.parent, self.kind = name, parent, kind
        self.entries = {}
        self.inline = False
        self.lib = parent.lib if parent else self

    def depth(self):
        return 1 + (self.parent.depth() if self.parent else 0)

    def path(self):
        return (self.parent.path() if self.parent else []) + [self.name]

    def within(self, m):
        """is self m, or inside of it?"""
        x = self
        while x:
            if x is m:
                return True
            x = x.parent
        return False


class Entry:
    def __init__(self, name, kind, owner, vis, **kw):
        self.name, self.kind, self.owner, self.vis = name, kind, owner, vis
        self.__dict__.update(kw)


class Bad(Exception):
    pass


def visible(e, frm):
    at = e.owner
    lim = {None: at, "pub": None, "pub(self)": at, "pub(lib)": at.lib, "pub(super)": at.parent}[e.vis]
    return lim is None or frm.within(lim)


def resolve(libs, path, frm, seen=()):
    """what a path used in module frm means"""
    path = list(path)
    if path[0] == "lib":
        cur, path = frm.lib, path[1:]
    elif path[0] == "self":
        cur, path = frm, path[1:]
    elif path[0] == "super":
        cur = frm
        while path and path[0] == "super":
            cur = cur.parent
            if cur is None:
                raise Bad("too many super")
            path = path[1:]
    elif path[0] in frm.entries:
        cur = frm
    elif path[0] in libs:
        cur, path = libs[path[0]], path[1:]
    else:
        raise Bad("undeclared")
    if not path:
        raise Bad("no name")
    for i, seg in enumerate(path):
        if not isinstance(cur, Mod) or seg not in cur.entries:
            raise Bad("undeclared")
        e = cur.entries[seg]
        if e in seen:
            raise Bad("cycle")
        if not visible(e, frm):
            raise Bad("not visible")
        if e.kind == "alias":
            # an alias makes a name, it does not show what is hidden
            e = resolve(libs, e.target, e.owner, seen + (e,))
            if not visible(e, frm):
                raise Bad("alias of something not visible")
        if i + 1 < len(path):
            cur = getattr(e, "mod", None)
    return e


class Project:
    def __init__(self, r, uid):
        self.r, self.uid, self.n = r, uid, 0
        self.libs = {"proj": Mod("proj", None)}
        if r.random() < 0.6:
            self.libs["dep"] = Mod("dep", None)
        self.mods = []
        self.things = []
        for l in self.libs.values():
            self.fill(l, r.randint(1, 3))
        for _ in range(r.randint(0, 10)):
            self.alias()
        # an alias that another one has changed the meaning of
        while True:
            bad = []
            for m in self.mods:
                for e in m.entries.values():
                    if e.kind == "alias":
                        try:
                            e.means = resolve(self.libs, e.target, m)
                        except Bad:
                            bad.append(e)
            if not bad:
                break
            for e in bad:
                del e.owner.entries[e.name]
        fs = [e for e in self.things if e.kind == "fn"]
        for i, e in enumerate(fs):
            e.rank = i

    def const(self):
        return self.r.getrandbits(W)

    def vis(self, m):
        v = self.r.choice(["pub", "pub", "pub", "pub", None, "pub(lib)", "pub(lib)", "pub(self)", "pub(super)"])
        return "pub" if v == "pub(super)" and m.parent is None else v

    def add(self, m, name, kind, **kw):
        if name in m.entries:
            return None
        e = Entry(name, kind, m, self.vis(m), **kw)
        m.entries[name] = e
        return e

    def fill(self, m, depth):
        r = self.r
        self.mods.append(m)
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.6:
                e = self.add(m, r.choice("fghk"), "fn", c=self.const(), refs=[])
            elif k < 0.8:
                e = self.add(m, r.choice("STE"), "struct", c=self.const())
            else:
                e = self.add(m, r.choice("STE"), "enum", c=(self.const(), self.const()))
                if e:
                    e.mod = Mod(e.name, m, "enum")
                    for i, v in enumerate(("A", "B")):
                        e.mod.entries[v] = Entry(v, "variant", e.mod, "pub", enum=e, i=i)
            if e:
                self.things.append(e)
        if depth > 0:
            for _ in range(r.randint(0, 2) if m.parent else r.randint(1, 3)):
                e = self.add(m, r.choice(["a", "b", "c", "a", "b", "dep", "proj"]), "mod")
                if e:
                    e.mod = Mod(e.name, m)
                    e.mod.inline = m.inline or r.random() < 0.6
                    self.fill(e.mod, depth - 1)

    def candidates(self, frm, n=60):
        """paths someone might write in frm"""
        r = self.r
        for _ in range(n):
            k = r.random()
            if k < 0.15:
                p, cur = ["lib"], frm.lib
            elif k < 0.25:
                p, cur = ["self"], frm
            elif k < 0.5 and frm.parent:
                d = r.randint(1, frm.depth() - 1)
                p, cur = ["super"] * d, frm
                for _ in range(d):
                    cur = cur.parent
            elif k < 0.65:
                l = r.choice(list(self.libs.values()))
                p, cur = [l.name], l
            else:
                p, cur = [], frm
            for _ in range(r.randint(1, 4)):
                if not isinstance(cur, Mod) or not cur.entries:
                    break
                s = r.choice(list(cur.entries))
                p = p + [s]
                e = cur.entries[s]
                if e.kind == "alias":
                    e = getattr(e, "means", None)
                cur = getattr(e, "mod", None)
                if p[-1] not in ("lib", "self", "super"):
                    yield p

    def find(self, frm, want):
        c = list(self.candidates(frm))
        self.r.shuffle(c)
        for p in c:
            try:
                e = resolve(self.libs, p, frm)
            except Bad:
                continue
            if want(e):
                return p, e
        return None

    def fault(self, frm):
        """a path that means nothing here, or something hidden; mostly of something that exists"""
        c = list(self.candidates(frm, 80))
        self.r.shuffle(c)
        hidden = []
        for p in c:
            try:
                resolve(self.libs, p, frm)
            except Bad as e:
                hidden.append((p, str(e)))
        if hidden and self.r.random() < 0.8:
            p, why = self.r.choice(hidden)
            return p, why
        k = self.r.random()
        if k < 0.3:
            return ["super"] * (frm.depth() + self.r.randint(1, 2)) + ["f"], "too many super"
        # a name from elsewhere, without its path
        names = {e.name for e in self.things} - set(frm.entries) - set(self.libs)
        if names:
            return [self.r.choice(sorted(names))], "declared elsewhere"
        return ["nowhere"], "undeclared"

    def alias(self):
        r = self.r
        m = r.choice(self.mods)
        f = self.find(m, lambda e: True)
        if not f:
            return
        p, e = f
        name = p[-1] if r.random() < 0.4 else r.choice(["f", "g", "h", "k", "u", "v"]) if e.kind in ("fn",) else r.choice(["X", "Y", "S", "T"]) if e.kind in ("struct", "enum", "variant") else r.choice(["a", "b", "m", "n"])
        if p == [name] or p == ["self", name]:
            return
        a = self.add(m, name, "alias", target=p)
        if a:
            a.means = e

    # ------------------------------------------------------------------ text
    def ref(self, m, x, below=None):
        """an expression in m that uses a path, and what it computes (a function)"""
        r = self.r
        P = "::".join
        kind = r.choice(["fn", "fn", "fn", "struct", "enum"])
        f = self.find(m, lambda e: e.kind == kind and (kind != "fn" or below is None or e.rank > below))
        if not f:
            return None
        p, e = f
        if kind == "fn":
            return f"{P(p)}({x})", lambda v: self.value(e, v), p
        g = self.find(m, lambda o: o is e)
        q = g[0] if g else p
        self.n += 1
        n = f"t{self.n}"
        if kind == "struct":
            c = e.c
            b = f"{P(p)}({x})" if r.random() < 0.5 else f"{P(p)}$(v: {x})"
            if r.random() < 0.5:
                return b + ".m()", lambda v: v ^ c, p
            return f"{{ let {n}: {P(q)} = {b}; {n}.m() }}", lambda v: v ^ c, p
        c = e.c
        va, pa = self.variant(m, e, "A")
        vb, pb = self.variant(m, e, "B")
        if not va or not vb:
            return None
        vc, _ = self.variant(m, e, r.choice("AB"))
        if not vc:
            return None
        i = self.last
        return (f"{{ let {n}: {P(q)} = {P(vc)}({x}); match {n} {{ {P(va)}(w) => w ^ {c[0]}, {P(vb)}(w) => w ^ {c[1]} }} }}"
                if r.random() < 0.5 else f"{P(vc)}({x}).m()"), lambda v: v ^ c[i], p

    def variant(self, m, e, v):
        want = e.mod.entries[v]
        f = self.find(m, lambda o: o is want)
        self.last = want.i
        return f if f else (None, None)

    def value(self, e, v):
        v = v ^ e.c
        for g in e.refs:
            v = g(v)
        return v

    def write(self, bad=None):
        """the files; bad: (fn entry) that gets a path which must not resolve"""
        r = self.r
        self.why = None
        fs = [e for e in self.things if e.kind == "fn"]
        for e in fs:
            e.body = f"x ^ {e.c}"
            for _ in range(r.choice([0, 1, 1, 2])):
                q = self.ref(e.owner, "y", e.rank)
                if q:
                    e.body = f"{{ let y = {e.body}; {q[0]} }}"
                    e.refs.append(q[1])
        for e in self.things:
            if e.kind == "struct":
                e.body = f"struct {e.name} {{ v: uint<{W}> }} impl {e.name} {{ fn m(self) -> uint<{W}> {{ self.v ^ {e.c} }} }}"
            elif e.kind == "enum":
                e.body = (f"enum {e.name} {{ A{{v: uint<{W}>}}, B{{v: uint<{W}>}} }} impl {e.name} {{ fn m(self) -> uint<{W}> {{ match self {{ "
                          f"{e.name}::A(w) => w ^ {e.c[0]}, {e.name}::B(w) => w ^ {e.c[1]} }} }} }}")
        root = self.libs["proj"]
        refs = [q for q in (self.ref(root, "x") for _ in range(4)) if q]
        self.tops = refs
        if bad:
            m = r.choice(self.mods)
            p, self.why = self.fault(m)
            q = "::".join(p)
            b = r.choice([f"fn zz(x: uint<{W}>) -> uint<{W}> {{ {q}(x) }}", f"fn zz(x: {q}) -> bool {{ true }}", f"use {q} as zz;", f"fn zz(x: bool) -> bool {{ let y = {q}(x); x }}",
                          f"struct Zz {{ x: {q} }}", f"impl {q} {{ fn zz(self) -> bool {{ true }} }}", f"fn zz<T>(x: T) -> bool where T: {q} {{ true }}"])
            m.extra = b
            self.why = f"{q} in {'::'.join(m.path())}: {self.why}"
        outs = ", ".join(q[0] for q in refs)
        self.out = Tuple(*[U for _ in refs])
        top = f"fn top{self.uid}(x: uint<{W}>) -> {self.out.src} {{ ({outs}{',' if len(refs) == 1 else ''}) }}"
        files = []

        def text(m):
            parts = []
            es = list(m.entries.values())
            r.shuffle(es)
            for e in es:
                v = (e.vis + " ") if e.vis else ""
                if e.kind == "alias":
                    last = e.target[-1]
                    parts.append(f"{v}use {'::'.join(e.target)}{'' if last == e.name else ' as ' + e.name};")
                elif e.kind == "mod":
                    if e.mod.inline:
                        parts.append(f"{v}mod {e.name} {{ {text(e.mod)} }}")
                    else:
                        parts.append(f"{v}mod {e.name};")
                        files.append([f"{m.lib.name},{'::'.join(e.mod.path())},{'_'.join(e.mod.path())}.spade", text(e.mod)])
                elif e.kind == "fn":
                    parts.append(f"{v}fn {e.name}(x: uint<{W}>) -> uint<{W}> {{ {e.body} }}")
                else:
                    parts.append(v + e.body)
            if getattr(m, "extra", None):
                parts.insert(r.randint(0, len(parts)), m.extra)
            return "\n".join(parts)

        for l in self.libs.values():
            t = text(l) + ("\n" + top if l is root else "")
            files.append([f"{l.name},{l.name},{l.name}.spade", t])
        r.shuffle(files)
        return files


def module_case(seed, uid):
    r = random.Random(seed)
    p = Project(r, uid)
    bad = uid % 3 == 0
    files = p.write(bad)
    if bad:
        return Verdict(f"bad{uid}", files, False, p.why)
    if not p.tops:
        return None
    return Comb(f"mod{uid}", files, f"proj::top{uid}", [("x", U)], p.out, lambda x: [q[1](x) for q in p.tops], solo=True)


# ------------------------------------------------------------------ names in bodies
B8 = UInt(8)


class Locals:
    """one function of uint<8> values in which few names are used again and again"""

    NAMES = ["x", "y", "z", "w", "v"]

    def __init__(self, r, uid):
        self.r, self.uid, self.n, self.items = r, uid, 0, []

    def name(self):
        return self.r.choice(self.NAMES)

    def atom(self, env):
        r = self.r
        ok = sorted(n for n in env if env[n] is not None)
        if ok and r.random() < 0.85:
            n = r.choice(ok)
            return n, env[n]
        k = r.getrandbits(8)
        return f"{k}u8", z3.BitVecVal(k, 8)

    def cond(self, env):
        a, av = self.atom(env)
        b, bv = self.atom(env)
        return self.r.choice([(f"({a} == {b})", av == bv), (f"({a} > {b})", z3.UGT(av, bv)), (f"({a} != {b})", av != bv)])

    def expr(self, env, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.15:
            return self.atom(env)
        if k < 0.35:
            a, av = self.expr(env, d - 1)
            b, bv = self.expr(env, d - 1)
            return r.choice([(f"({a} ^ {b})", av ^ bv), (f"({a} +. {b})", av + bv), (f"({a} -. {b})", av - bv)])
        if k < 0.55:
            return self.block(env, d - 1)
        if k < 0.65:
            c, cv = self.cond(env)
            a, av = self.block(env, d - 1)
            b, bv = self.block(env, d - 1)
            return f"(if {c} {a} else {b})", z3.If(cv, av, bv)
        if k < 0.8:
            return self.match(env, d)
        if k < 0.9:
            # the names at the call are matched with the parameters
            ps = r.sample(self.NAMES, 2)
            if all(env.get(p) is not None for p in ps):
                f = f"sub{self.uid}_{ps[0]}{ps[1]}"
                it = f"fn {f}({ps[0]}: uint<8>, {ps[1]}: uint<8>) -> uint<8> {{ {ps[0]} -. ({ps[1]} +. {ps[1]}) }}"
                if it not in self.items:
                    self.items.append(it)
                a = list(ps)
                r.shuffle(a)
                if r.random() < 0.5:
                    return f"{f}$({', '.join(a)})", env[ps[0]] - 2 * env[ps[1]]
                e, v = self.expr(env, d - 1)
                o = [ps[0], f"{ps[1]}: {e}"]
                r.shuffle(o)
                return f"{f}$({', '.join(o)})", env[ps[0]] - 2 * v
            return self.atom(env)
        # a lambda, called at once
        ps = r.sample(self.NAMES, r.randint(1, 2))
        as_ = [self.expr(env, d - 1) for _ in ps]
        inner = {**env, **{p: a[1] for p, a in zip(ps, as_)}}
        b, bv = self.block(inner, d - 1)
        self.n += 1
        return f"{{ let fn{self.n} = fn |{', '.join(ps)}| {b}; let r{self.n}: uint<8> = fn{self.n}.call(({', '.join(a[0] for a in as_)},)); r{self.n} }}", bv

    def match(self, env, d):
        r = self.r
        a, av = self.expr(env, d - 1)
        b, bv = self.expr(env, d - 1)
        arms, out = [], None
        sts = []
        for _ in range(r.randint(0, 2)):
            k = r.getrandbits(2)
            n, m = r.sample(self.NAMES, 2)
            c = r.random()
            if c < 0.4:
                p, cv, e2 = f"({n}, {k})", bv == k, {**env, n: av}
            elif c < 0.7:
                p, cv, e2 = f"({k}, {m})", av == k, {**env, m: bv}
            else:
                p, cv, e2 = f"({n}, {m})", None, {**env, n: av, m: bv}
            if cv is None or r.random() < 0.3:
                g, gv = self.cond(e2)
                p, cv = p + f" if {g}", gv if cv is None else z3.And(cv, gv)
            sts.append((p, cv, e2))
        n, m = r.sample(self.NAMES, 2)
        last = r.choice([("_", {}), (f"({n}, {m})", {n: av, m: bv}), (f"({n}, _)", {n: av}), (f"(_, {m})", {m: bv})])
        e, v = self.block({**env, **last[1]}, d - 1)
        tail = f"{last[0]} => {e}"
        res = []
        for p, cv, e2 in sts:
            e, w = self.block(e2, d - 1)
            res.append((f"{p} => {e}", cv, w))
        for _, cv, w in reversed(res):
            v = z3.If(cv, w, v)
        return f"match ({a}, {b}) {{ {', '.join([t for t, _, _ in res] + [tail])} }}", v

    def block(self, env, d):
        r = self.r
        env = dict(env)
        out = []
        declared, subst = {}, []
        here = set()
        lams = {}
        for _ in range(r.randint(0, 3)):
            n = self.name()
            k = r.random()
            if k < 0.3 and n not in env:
                declared[n] = z3.BitVec(f"d{self.uid}_{self.n}", 8)
                self.n += 1
                out.append(f"decl {n};")
                env[n] = declared[n]
                here.add(n)
                continue
            if n in declared:
                if declared[n] is None:
                    continue
                # must not depend on itself
                e, v = self.pure({k: None if k in declared else x for k, x in env.items()}, 1)
                out.append(f"let {n} = {e};")
                subst.append((declared[n], v))
                declared[n] = None
                continue
            if k < 0.75:
                e, v = self.expr(env, d)
                out.append(f"let {n} = {e};")
                env[n] = v
                here.add(n)
            elif k < 0.9:
                a, b = r.sample(self.NAMES, 2)
                if a in declared or b in declared:
                    continue
                e, v = self.expr(env, d - 1)
                f, w = self.expr(env, d - 1)
                out.append(f"let ({a}, {b}) = ({e}, {f});")
                env[a], env[b] = v, w
                here |= {a, b}
            else:
                # a lambda that is called later: it keeps the values of the names it was made with
                ps = r.sample(self.NAMES, 1)
                self.n += 1
                f = f"fn{self.n}"
                arg = z3.BitVec(f"l{self.uid}_{self.n}", 8)
                b, bv = self.block({k: None if k in declared and k != ps[0] else v for k, v in {**env, ps[0]: arg}.items()}, d - 1)
                out.append(f"let {f} = fn |{ps[0]}| {b};")
                lams[f] = (arg, bv)
        for n, v in declared.items():
            if v is not None:
                e, w = self.pure({k: None if k in declared else x for k, x in env.items()}, 1)
                out.append(f"let {n} = {e};")
                subst.append((v, w))
        e, v = self.expr(env, d)
        for f, (arg, bv) in lams.items():
            a, av = self.atom(env)
            out.append(f"let r{f}: uint<8> = {f}.call(({a},));")
            e, v = f"({e} ^ r{f})", v ^ z3.substitute(bv, (arg, av))
        if subst:
            v = z3.substitute(v, *subst)
        return f"{{ {' '.join(out)} {e} }}", v

    def pure(self, env, d):
        # no name declared earlier and defined later is used, so values do not depend on themselves
        e = {k: None if v is None or any(c.decl().name().startswith("d") for c in consts(v)) else v for k, v in env.items()}
        return self.expr(e, d)

    def case(self):
        ins = {n: z3.BitVec(f"in{self.uid}_{n}", 8) for n in self.r.sample(self.NAMES, 3)}
        e, v = self.block(dict(ins), 3)
        top = f"loc{self.uid}"
        src = "\n".join(self.items) + f"\nfn {top}({', '.join(f'{n}: uint<8>' for n in ins)}) -> uint<8> {e}\n"

        def f(**vals):
            return z3.substitute(v, *[(ins[n], vals[n]) for n in ins])

        return Comb(top, src, top, [(n, B8) for n in ins], B8, f)


# ------------------------------------------------------------------ names that the language itself uses
TAKEN = """And Not BitAnd BitOr BitXor BitNot Or Xor PartialEq PartialOrd Number Fn Entity Pipeline WrappingAdd WrappingSub
WrappingMul WrappingNeg Data Copy Default Option Some None core std ops conv array num option Range Lambda Output A0 C0 int
bool bit clock Memory tuple Self T lib_""".split()
DECLS = ["struct {} {{}}", "enum {} {{ A1, B1 }}", "fn {}() -> bool {{ true }}", "mod {} {{}}", "trait {} {{}}",
         "enum Oq {{ Q, {0} }} use Oq::{0};", "mod qq {{ pub struct {0} {{}} }} use qq::{0};",
         "mod qq {{ pub fn zz(x: bool) -> bool {{ !x }} }} use qq::zz as {0};"]
BODY = """{ let f = fn |a| a; let g = fn |a, b| { if a == b && !(a < b) || a >= b { a } else { b } };
    let h = f.call((x ^ y,)); let arr = [x +. y, ~x & y | h, x *. y, x -. y]; let [p, q, _, r] = arr;
    let o = if (p != q) ^^ (x > 3) { (p, q) } else { (q, p) }; let (m, n) = o;
    let k = match o { (0, z) => z, (z, 1) => arr[0], _ => g.call((m, n)) }; k ^ r }"""


def body_value(x, y):
    p, q = x + y, (~x & y) | (x ^ y)
    c = z3.Xor(p != q, z3.UGT(x, 3))
    m, n = z3.If(c, p, q), z3.If(c, q, p)
    k = z3.If(m == 0, n, z3.If(n == 1, p, z3.If(z3.UGE(m, n), m, n)))
    return k ^ (x - y)


def hygiene():
    """the operators, lambdas and literals of a module mean the same whatever its items are called"""
    out = []
    for n in TAKEN:
        for i, d in enumerate(DECLS):
            if n in ("Some", "None") and i == 4:
                continue
            for w in ("{}", "mod inner {{ {} }}"):
                top = f"hyg_{n}_{i}{'m' if w != '{}' else ''}"
                src = w.format(f"{d.format(n)}\nfn {top}(x: uint<8>, y: uint<8>) -> uint<8> {BODY}\n")
                if w == "{}":
                    src = [["proj,proj,p.spade", src]]
                out.append(Comb(top, src, ("proj::" if w == "{}" else "inner::") + top, [("x", B8), ("y", B8)], B8, body_value, solo=True))
    # names of parameters of every kind
    for n in TAKEN + ["A1", "C1", "A0_", "P", "args"]:
        if n in ("Self", "int", "bool", "bit", "clock"):
            continue
        top = f"hyp_{n}"
        src = f"""mod inner {{ fn t_{n}<{n}>(x: {n}, y: uint<8>) -> {n} {{ let f = fn |a| x; f.call((y,)) }}
fn u_{n}<#uint {n}>(x: uint<{n}>, y: uint<8>) -> uint<{n}> {{ let f = fn |a, b| {{ let z: uint<{n}> = a ^ x; z }}; f.call((x +. x, y)) }}
struct S_{n}<{n}> {{ x: {n} }}
impl<{n}> S_{n}<{n}> {{ fn m(self, y: uint<8>) -> {n} {{ let g = self.x; let f = fn |t| g; f.call((y,)) }} }}
fn {top}(x: uint<8>, y: uint<8>) -> uint<8> {{ t_{n}(x, y) +. u_{n}(x, y) +. u_{n}(y, x) +. S_{n}(y).m(x) }}
}}
"""
        out.append(Comb(top, src, "inner::" + top, [("x", B8), ("y", B8)], B8, lambda x, y: x + (2 * x ^ x) + (2 * y ^ y) + y))
    return out


def consts(v):
    out, seen, todo = [], set(), [v]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        todo += e.children()
    return out


def p28(tier, rng):
    quick = tier == "quick"
    out = []
    out += hygiene()
    q = 0
    n = len(out)
    while len(out) < n + (900 if quick else 9000):
        q += 1
        c = module_case(rng.getrandbits(64), q)
        if c:
            out.append(c)
    for q in range(300 if quick else 3000):
        out.append(Locals(random.Random(rng.getrandbits(64)), q).case())
    return out
