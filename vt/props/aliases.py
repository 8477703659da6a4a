"""P39: the ways of writing a type (aliases, defaults, associated types, Self) mean what they are defined as."""
import random
import z3
from ..check import Comb, Verdict
from ..spec import *
from .types import Ty as TT, con

# types as nodes: ("b",) ("u", n) ("i", n) ("t", nodes) ("a", node, n) ("c", k, args) ("P", name)
# numbers: int, ("N", name), ("+", ("N", name), c)


def walk(n):
    yield n
    if isinstance(n, tuple) and n[0] in "uiatc":
        for x in n[1] if n[0] == "t" else n[2] if n[0] == "c" else n[1:]:
            yield from walk(x)


def rebuild(n, f):
    """f may replace a node; below others, it is applied to the parts"""
    r = f(n)
    if r is not None:
        return r
    if isinstance(n, int) or n[0] in ("b", "P", "N"):
        return n
    if n[0] == "+":
        x = rebuild(n[1], f)
        return x + n[2] if isinstance(x, int) else ("+", x, n[2])
    if n[0] == "t":
        return ("t", tuple(rebuild(x, f) for x in n[1]))
    if n[0] == "c":
        return ("c", n[1], tuple(rebuild(x, f) for x in n[2]))
    return (n[0],) + tuple(rebuild(x, f) for x in n[1:])


def put(n, env):
    return rebuild(n, lambda x: env.get(x[1]) if isinstance(x, tuple) and x[0] in ("P", "N") else None)


def match(p, n, env):
    """the arguments that make the pattern p the node n"""
    if isinstance(p, tuple) and p[0] in ("P", "N") and p[1] in env:
        if env[p[1]] is None:
            if isnum(n) != (p[0] == "N"):
                return False
            env[p[1]] = n
            return True
        return env[p[1]] == n
    if isinstance(p, tuple) and p[0] == "+":
        if not isinstance(n, int) or n <= p[2]:
            return False
        return match(p[1], n - p[2], env)
    if isinstance(p, int) or isinstance(n, int) or p[0] != n[0]:
        return p == n
    if p[0] in ("b", "P", "N"):
        return p == n
    if n[0] == "+":
        return p == n
    if p[0] == "t":
        return len(p[1]) == len(n[1]) and all(match(x, y, env) for x, y in zip(p[1], n[1]))
    if p[0] == "c":
        return p[1] == n[1] and all(match(x, y, env) for x, y in zip(p[2], n[2]))
    return all(match(x, y, env) for x, y in zip(p[1:], n[1:]))


def isnum(n):
    return isinstance(n, int) or n[0] in ("N", "+")


def term(n):
    if isinstance(n, int):
        return TT.uint(n)
    if n[0] == "b":
        return TT.bool
    if n[0] == "u":
        return TT.uint(n[1])
    if n[0] == "i":
        return TT.int(n[1])
    if n[0] == "t":
        return con(0, [term(x) for x in n[1]])
    if n[0] == "a":
        return TT.array(term(n[1]), n[2])
    return con(10 + n[1], [term(x) for x in n[2]])


class World:
    def __init__(self, r, tag, local=False):
        self.r, self.tag = r, tag
        self.k = 0
        self.items = []  # text
        self.defs = []  # (kind, name, params [(name, isnum, default)], fields)
        self.al = []  # (name, params, pattern)
        self.rate = r.choice([0.15, 0.3, 0.5])
        # expressions in numbers are not allowed in members, bounds and targets
        self.pure = r.random() < 0.6
        self.plain = self.pure * 1000
        self.full = False
        for _ in range(r.randint(1, 3)):
            self.define()

    def name(self, s):
        self.k += 1
        return f"{s}{self.tag}_{self.k}"

    # ---- types

    def node(self, d, ps=()):
        """a random type; ps are the parameters it may use"""
        r = self.r
        x = r.random()
        ts = [p for p in ps if p[0] == "P"]
        if ts and x < 0.35:
            return r.choice(ts)
        if d == 0 or x < 0.4:
            return r.choice([("b",), ("u", self.num(ps)), ("u", self.num(ps)), ("i", self.num(ps))])
        if x < 0.55:
            return ("t", tuple(self.node(d - 1, ps) for _ in range(r.randint(2, 3))))
        if x < 0.7:
            return ("a", self.node(d - 1, ps), self.num(ps, 3))
        if self.defs:
            k = r.randrange(len(self.defs))
            return self.app(k, d - 1, ps)
        return ("b",)

    def app(self, k, d, ps=()):
        env = {}
        for n, isn, dflt in self.defs[k][2]:
            if dflt is not None and self.r.random() < 0.5:
                env[n] = put(dflt, env)
            else:
                env[n] = self.num(ps) if isn else self.node(d, ps)
        return ("c", k, tuple(env[n] for n, _, _ in self.defs[k][2]))

    def num(self, ps=(), m=5):
        ns = [p for p in ps if p[0] == "N"]
        if ns and self.r.random() < 0.6:
            n = self.r.choice(ns)
            return n if self.plain or self.r.random() < 0.7 else ("+", n, self.r.randint(1, 2))
        return self.r.randint(1, m)

    def params(self, n):
        """parameters, the last of them with default values"""
        r = self.r
        out, ps = [], []
        dfl = r.randint(0, n)
        for k in range(n):
            isn = r.random() < 0.45
            nm = self.name("N" if isn else "T")
            dflt = None
            if k >= dfl:
                dflt = self.num((), 4) if isn else self.node(1)
            out.append((nm, isn, dflt))
            ps.append(("N" if isn else "P", nm))
        return out, ps

    def define(self):
        r = self.r
        self.plain += 1
        old = self.rate
        if not self.pure:
            self.rate = 0
        ps, atoms = self.params(r.choice([0, 1, 2, 2, 3]))
        if r.random() < 0.6:
            n = self.name("S")
            fs = [(f"f{j}", self.node(1, atoms)) for j in range(r.randint(1, 3))]
            kind = "struct"
            what = lambda: " { " + ", ".join(f"{f}: {self.spell(t)}" for f, t in fs) + " }"
        else:
            n = self.name("E")
            fs = [(f"V{j}", [(f"f{j}_{i}", self.node(1, atoms)) for i in range(r.randint(0, 2))]) for j in range(r.randint(2, 3))]
            kind = "enum"
            what = lambda: " { " + ", ".join(v + (" { " + ", ".join(f"{f}: {self.spell(t)}" for f, t in xs) + " }" if xs else "") for v, xs in fs) + " }"
        # what it is made of is written with the types before it
        body = what()
        head = self.head(ps)
        self.plain -= 1
        self.rate = old
        self.defs.append((kind, n, ps, fs))
        self.items.append(f"{kind} {n}{head}{body}")

    def head(self, ps):
        if not ps:
            return ""
        # defaults are written without expressions and aliases: they can end up in an implementation's target
        old, self.rate, self.plain, self.full = self.rate, 0, self.plain + 1, True
        t = "<" + ", ".join(("#uint " if i else "") + n + ("" if d is None else " = " + self.arg(d)) for n, i, d in ps) + ">"
        self.rate, self.plain, self.full = old, self.plain - 1, False
        return t

    def spec(self, n):
        if n[0] == "b":
            return Bool
        if n[0] == "u":
            return UInt(n[1])
        if n[0] == "i":
            return Int(n[1])
        if n[0] == "t":
            return Tuple(*[self.spec(x) for x in n[1]])
        if n[0] == "a":
            return Array(self.spec(n[1]), n[2])
        kind, nm, ps, fs = self.defs[n[1]]
        env = {p[0]: a for p, a in zip(ps, n[2])}
        if kind == "struct":
            return Struct(nm, [(f, self.spec(put(t, env))) for f, t in fs])
        return Enum(nm, [(v, [(f, self.spec(put(t, env))) for f, t in xs]) for v, xs in fs])

    # ---- ways of writing them

    def arg(self, n):
        if isnum(n):
            if isinstance(n, int):
                k = self.r.random()
                return str(n) if k < 0.8 or self.plain else f"{{{n - 1} + 1}}" if k < 0.9 else f"{{{n + 2} - 2}}"
            return n[1] if n[0] == "N" else f"{{{n[1][1]} + {n[2]}}}"
        return self.spell(n)

    def use(self, name, ps, env):
        """name<...>, with parameters left out that have their default value"""
        k = len(ps)
        while k and not self.full and ps[k - 1][2] is not None and put(ps[k - 1][2], env) == env[ps[k - 1][0]] and self.r.random() < 0.75:
            k -= 1
        if k == 0:
            return name
        return f"{name}<{', '.join(self.arg(env[p[0]]) for p in ps[:k])}>"

    def matching(self, n, root=None):
        out = []
        for name, ps, pat in self.al:
            env = {p[0]: None for p in ps}
            if (root is None or (pat[0] == "c" and pat[1] == root)) and match(pat, n, env):
                for p in ps:
                    if env[p[0]] is None and p[2] is not None:
                        env[p[0]] = put(p[2], env)
                if None not in env.values():
                    out.append((name, ps, env))
        return out

    def spell(self, n):
        r = self.r
        if r.random() < self.rate and n[0] != "P":
            ms = self.matching(n)
            if ms and r.random() < 0.6:
                name, ps, env = r.choice(ms)
                return self.use(name, ps, env)
            if len(self.al) < 14:
                name, ps, env = self.alias(n)
                return self.use(name, ps, env)
        if n[0] == "P":
            return n[1]
        if n[0] == "b":
            return "bool"
        if n[0] in "ui":
            return f"{'uint' if n[0] == 'u' else 'int'}<{self.arg(n[1])}>"
        if n[0] == "t":
            return "(" + ", ".join(self.spell(x) for x in n[1]) + ")"
        if n[0] == "a":
            return f"[{self.spell(n[1])}; {self.arg(n[2])}]"
        kind, name, ps, fs = self.defs[n[1]]
        return self.use(name, ps, {p[0]: a for p, a in zip(ps, n[2])})

    def alias(self, n):
        """a new alias that can stand for n: parts of n become parameters"""
        r = self.r
        subs = [x for x in walk(n) if isinstance(x, int) or x[0] not in ("+",)]
        # a parameter of what is around has to be passed on
        free = {x for x in walk(n) if isinstance(x, tuple) and x[0] in ("P", "N")} | {x[1] for x in walk(n) if isinstance(x, tuple) and x[0] == "+"}
        more = [x for x in r.sample(subs, min(len(subs), r.choice([0, 1, 1, 2]))) if x not in free and x != n and not any(y in free for y in walk(x)) and not (isinstance(x, tuple) and x[0] == "+")]
        args = list(free) + list(dict.fromkeys(more))
        args.sort(key=str)
        r.shuffle(args)
        ps, env, back = [], {}, {}
        for k, a in enumerate(args):
            isn = isnum(a)
            nm = self.name("N" if isn else "T")
            env[nm] = a
            dflt = None
            # defaults are at the end
            if a not in free and all(x not in free for x in args[k:]) and (any(p[2] is not None for p in ps) or r.random() < 0.4):
                dflt = a if r.random() < 0.6 or isn else self.node(1)
            elif any(p[2] is not None for p in ps):
                dflt = a if a not in free else (2 if isn else ("b",))
            ps.append((nm, isn, dflt))
            back[a] = ("N" if isn else "P", nm)
        once = lambda x: back[x] if x in back and (x in free or r.random() < 0.7) else None
        pat = rebuild(n, once)
        if pat[0] == "P":
            pat = n if not free else pat
        name = self.name("A")
        self.items.append(None)
        at = len(self.items) - 1
        old, self.plain = self.plain, self.pure * 1000
        text = f"type {name}{self.head(ps)} = {self.spell(pat)};"
        self.plain = old
        self.items[at] = text
        self.al.append((name, ps, pat))
        return name, ps, env

    def ctor(self, n):
        """a name of the struct or enum that n is"""
        kind, name, ps, fs = self.defs[n[1]]
        ms = self.matching(n, n[1])
        if ms and self.r.random() < 0.6:
            return self.r.choice(ms)[0]
        return name

    def other(self, n):
        """a type that is not n, but not far from it"""
        r = self.r
        while True:
            spots = list(walk(n))
            pick = r.randrange(len(spots))
            c = [-1]

            def f(x):
                c[0] += 1
                if c[0] != pick:
                    return None
                if isinstance(x, int):
                    return x + r.choice([-1, 1, 2]) if x > 1 else x + 1
                return self.node(1)

            m = rebuild(n, f)
            if m != n:
                return m


def steps(w, q, n, count, fault):
    """takes a value of type n through many types that are all the same; returns the code, the type and the part of the value that is left"""
    r = w.r
    code, path = [], []
    v = "a"
    bad = r.randrange(count) if fault else -1
    fs = None
    for k in range(count):
        m = w.other(n) if k == bad else n
        if k == bad:
            fs = (n, m)
        x = f"v{k}"
        kind = r.choice("letlet as turbo fn pair generic opt assoc lambda arr".split() + ["wrap", "where", "self"] * w.pure + (["rebuild"] * 2 if n[0] == "c" and k != bad and all(p[2] in (None, x) for p, x in zip(w.defs[n[1]][2], n[2])) else []) + (["part"] if k != bad and n[0] in "tac" else []))
        if kind == "letlet":
            code.append(f"let {x}: {w.spell(m)} = {v};")
        elif kind == "as":
            code.append(f"let {x} = ({v}) as {w.spell(m)};")
        elif kind == "turbo":
            w.items.append(f"fn id{q}_{k}<T>(x: T) -> T {{ x }}")
            code.append(f"let {x} = id{q}_{k}::<{w.spell(m)}>({v});")
        elif kind == "fn":
            w.items.append(f"fn g{q}_{k}(x: {w.spell(m)}) -> {w.spell(m)} {{ x }}")
            code.append(f"let {x} = g{q}_{k}({v});")
        elif kind == "pair":
            w.items.append(f"fn g{q}_{k}(x: {w.spell(m)}, y: {w.spell(m)}) -> ({w.spell(m)}, bool) {{ (x, true) }}")
            code.append(f"let {x} = g{q}_{k}({v}, {v}).0;")
        elif kind == "generic":
            w.items.append(f"fn g{q}_{k}<T>(x: T, y: [T; 1]) -> T {{ y[0] }}")
            code.append(f"let y{k}: [{w.spell(m)}; 1] = [{v}];\n    let {x} = g{q}_{k}({v}, y{k});")
        elif kind == "where":
            w.items.append(f"trait Q{q}_{k} {{ fn q{q}_{k}(self) -> Self; }}\nimpl Q{q}_{k} for {w.spell_root(m)} {{ fn q{q}_{k}(self) -> Self {{ self }} }}\nfn g{q}_{k}<T: Q{q}_{k}>(x: T) -> T {{ x.q{q}_{k}() }}")
            code.append(f"let {x} = g{q}_{k}({v});")
        elif kind == "wrap":
            w.plain += 1
            w.items.append(f"struct W{q}_{k} {{ x: {w.spell(m)}, y: bool }}")
            w.plain -= 1
            code.append(f"let {x} = W{q}_{k}({v}, true).x;")
        elif kind == "opt":
            code.append(f"let o{k}: Option<{w.spell(m)}> = Some({v});\n    let {x} = match o{k} {{ Some(x) => x, None => {v} }};")
        elif kind == "assoc":
            # an associated type, in an implementation
            w.items.append(f"trait R{q}_{k} {{ type X; fn r{q}_{k}(self, x: Self::X) -> (bool, Self::X); }}\nimpl R{q}_{k} for bool {{ type X = {w.spell(m)}; fn r{q}_{k}(self, x: Self::X) -> (bool, Self::X) {{ (true, x) }} }}")
            code.append(f"let {x} = true.r{q}_{k}({v}).1;")
        elif kind == "self":
            # Self, in an implementation for the type
            w.items.append(f"impl {w.spell_root(m)} {{ fn s{q}_{k}(self, o: Self) -> Self {{ let x: {w.spell(m)} = o; x }} }}")
            code.append(f"let {x} = {v}.s{q}_{k}({v});")
        elif kind == "lambda":
            code.append(f"let y{k}: {w.spell(m)} = {v};\n    let {x} = (fn |x| y{k}).call(({v},));")
        elif kind == "arr":
            code.append(f"let y{k}: [{w.spell(m)}; 2] = [{v}, {v}];\n    let {x} = y{k}[1];")
        elif kind == "rebuild":
            dk, name, ps, fl = w.defs[n[1]]
            if dk == "struct":
                if r.random() < 0.5:
                    code.append(f"let {x} = match {v} {{ {w.ctor(n)}({', '.join(f'x{i}' for i in range(len(fl)))}) => {w.ctor(n)}({', '.join(f'x{i}' for i in range(len(fl)))}) }};")
                else:
                    order = r.sample(fl, len(fl))
                    code.append(f"let {x} = {w.ctor(n)}$({', '.join(f'{f}: {v}.{f}' for f, _ in order)});")
            else:
                arms = []
                for vn, xs in fl:
                    a = f"({', '.join(f for f, _ in xs)})" if xs else ""
                    arms.append(f"{w.ctor(n)}::{vn}{a} => {w.ctor(n)}::{vn}{a}")
                code.append(f"let {x}: {w.spell(n)} = match {v} {{ {', '.join(arms)} }};")
        elif kind == "part":
            if n[0] == "t":
                i = r.randrange(len(n[1]))
                code.append(f"let {x} = {v}.{i};")
                n = n[1][i]
                path.append(i)
            elif n[0] == "a":
                i = r.randrange(n[2])
                code.append(f"let {x} = {v}[{i}];")
                n = n[1]
                path.append(i)
            elif w.defs[n[1]][0] == "struct":
                dk, name, ps, fl = w.defs[n[1]]
                i = r.randrange(len(fl))
                code.append(f"let {x} = {v}.{fl[i][0]};")
                n = put(fl[i][1], {p[0]: a for p, a in zip(ps, n[2])})
                path.append(i)
            else:
                code.append(f"let {x} = {v};")
        v = x
    return code, v, n, path, fs


def _spell_root(w, m):
    """an implementation's target: without aliases"""
    old, w.rate, w.plain = w.rate, 0, w.plain + 1
    t = w.spell(m)
    w.rate, w.plain = old, w.plain - 1
    return t


World.spell_root = _spell_root


def case(q, r, tier):
    w = World(r, q)
    for _ in range(20):
        n = w.node(r.randint(1, 3))
        T = w.spec(n)
        if 0 < T.w <= 60:
            break
    else:
        n, T = ("b",), Bool
    fault = r.random() < 0.4
    code, v, m, path, fs = steps(w, q, n, r.randint(2, 5), fault)
    top = f"top{q}"
    text = f"fn {top}(a: {w.spell(n)}) -> {w.spell(m)} {{\n    " + "\n    ".join(code) + f"\n    {v}\n}}"
    items = w.items + [text]
    r.shuffle(items)
    src = "\n".join(items) + "\n"
    if fault:
        return Verdict(top, src, False, "a value of another type", formula=([term(fs[0]) == term(fs[1])], True))

    def f(a):
        for i in path:
            a = a[i]
        return a

    return Comb(top, src, top, [("a", T)], w.spec(m), f, solo=True)


B = "struct S<T, #uint N = 3> { t: T, n: uint<N> }\ntype A<T, #uint N = 3> = [T; N];\n"
FORMS = [
    ("few", B + "fn f(a: S) -> bool { true }", False), ("few2", B + "fn f(a: A) -> bool { true }", False), ("many", B + "fn f(a: S<bool, 3, 4>) -> bool { true }", False), ("many2", B + "fn f(a: A<bool, 3, 4>) -> bool { true }", False),
    ("kind", B + "fn f(a: S<3>) -> bool { true }", False), 
    ("none", "fn f(a: Nope) -> bool { true }", False), ("none2", "type A = Nope;", False), ("none3", "type A<T> = U;", False), ("none4", "struct S<T = Nope> { t: T }", False),
    ("cycle", "type A = (A, bool);", False), ("cycle2", "type A = B;\ntype B = A;", False), ("cycle3", "type A = [S; 2];\nstruct S { a: A }", False), ("cycle4", "type A<T> = Option<A<T>>;", False),
    ("middle", "struct S<T = bool, U> { t: T, u: U }", False), ("middle2", "type A<T = bool, U> = (T, U);", False), 
    ("dup", "type A = bool;\ntype A = bool;", False), ("dup2", "type A = bool;\nstruct A { x: bool }", False), ("value", "type A = 3;", False), ("inout", "type A = inout<bool>;", None),
    ("missing", "trait T { type X; fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }", False), ("extra", "trait T { fn m(self) -> bool; }\nimpl T for bool { type X = bool; fn m(self) -> bool { self } }", False),
    ("twice", "trait T { type X; fn m(self) -> bool; }\nimpl T for bool { type X = bool; type X = bool; fn m(self) -> bool { self } }", False), ("selfout", "fn f(a: Self) -> bool { true }", False),
    ("assocarg", "trait T { type X<U>; fn m(self) -> bool; }\nimpl T for bool { type X = bool; fn m(self) -> bool { self } }", False), ("assocarg2", "trait T { type X; fn m(self) -> bool; }\nimpl T for bool { type X<U> = U; fn m(self) -> bool { self } }", False),
    ("assoc", "trait T { type X; fn m(self) -> Self::X; }\nimpl T for bool { type X = uint<3>; fn m(self) -> Self::X { 3 } }\nimpl T for uint<2> { type X = (bool, uint<4>); fn m(self) -> Self::X { (true, 4) } }\nfn f(a: bool, b: uint<2>) -> (uint<3>, (bool, uint<4>)) { (a.m(), b.m()) }", True),
    ("assocbad", "trait T { type X; fn m(self) -> Self::X; }\nimpl T for bool { type X = uint<3>; fn m(self) -> Self::X { 3 } }\nimpl T for uint<2> { type X = bool; fn m(self) -> Self::X { true } }\nfn f(a: bool, b: uint<2>) -> (bool, uint<3>) { (a.m(), b.m()) }", False),
    ("assocgen", "trait T { type X<U>; fn m<V>(self, v: V) -> Self::X<V>; }\nimpl T for bool { type X<U> = (U, U); fn m<V>(self, v: V) -> Self::X<V> { (v, v) } }\nfn f(a: bool) -> (uint<3>, uint<3>) { a.m(3u3) }", True),
    ("bound", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }\ntype A<X: T> = [X; 2];\nfn f(a: A<bool>) -> bool { a[0].m() }", True),
    ("bound2", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }\ntype A<X: T> = [X; 2];\nfn f(a: A<uint<2>>) -> bool { true }", False),
    ("bound3", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }\nstruct S<X: T> { x: X }\nfn f(a: S<uint<2>>) -> bool { true }", False),
    ("bound4", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }\nstruct S<X: T = uint<2>> { x: X }\nfn f(a: S) -> bool { true }", False),
    ("bound5", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }\nstruct S<X: T = bool> { x: X }\nfn f(a: S) -> bool { a.x.m() }", True),
    ("bound6", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } }\nstruct S<X: T> { x: X }\ntype A<Y> = S<Y>;\nfn f(a: A<uint<2>>) -> bool { true }", False),
    ("impldef", B + "impl S<bool> { fn m(self) -> uint<3> { self.n } }\nfn f(a: S<bool>, b: S<bool, 3>) -> (uint<3>, uint<3>) { (a.m(), b.m()) }", True),
    ("impldef2", B + "impl S<bool> { fn m(self) -> uint<3> { self.n } }\nfn f(a: S<bool, 4>) -> uint<3> { a.m() }", False),
    ("fndef", "fn f<#uint N = 4>() -> uint<N> { 3 }\nfn g() -> uint<4> { f() }", True), ("fndef2", "fn f<#uint N = 4>() -> uint<N> { 3 }\nfn g() -> uint<5> { f::<5>() }", True), ("fndef3", "fn f<#uint N = 4>() -> uint<N> { 3 }\nfn g() -> uint<5> { f() }", False),
    ("traitdef", "trait T<A = bool> { fn m(self) -> A; }\nimpl T for bool { fn m(self) -> bool { self } }\nfn f(a: bool) -> bool { a.m() }", True), ("traitdef2", "trait T<A = bool> { fn m(self) -> A; }\nimpl T for bool { fn m(self) -> uint<2> { 1 } }", False),
    ("traitdef3", "trait T<A = bool> { fn m(self) -> A; }\nimpl T<uint<2>> for bool { fn m(self) -> uint<2> { 1 } }\nfn f(a: bool) -> uint<2> { a.m() }", True), ("super", "trait A { fn a(self) -> bool; }\ntrait C: A { fn c(self) -> bool; }\nimpl C for bool { fn c(self) -> bool { self } }\nfn g<T: C>(t: T) -> bool { t.c() }\nfn f(a: bool) -> bool { g(a) }", False), ("supercycle", "trait A: C { fn a(self) -> bool; }\ntrait C: A { fn c(self) -> bool; }", False), ("methtwice", "trait T { fn m(self) -> bool; }\nimpl T for bool { fn m(self) -> bool { self } fn m(self) -> bool { !self } }", False),
    ("super2", "trait A { fn a(self) -> bool; }\ntrait C: A { fn c(self) -> bool; }\nimpl A for bool { fn a(self) -> bool { self } }\nimpl C for bool { fn c(self) -> bool { self } }\nfn g<T: C>(t: T) -> bool { t.a() }\nfn f(a: bool) -> bool { g(a) }", True),
]


def p39(tier, rng):
    out = []
    for q in range(240 if tier == "quick" else 2000):
        out.append(case(q, random.Random(rng.getrandbits(64)), tier))
    for n, src, ok in FORMS:
        if ok is not None:
            out.append(Verdict(f"form_{n}", src + "\n", ok, "what a definition of a type can be"))
    return out
