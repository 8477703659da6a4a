"""P18: values with parts that flow backwards (`inv`). P19: every such part is driven exactly once."""
import random
import re
import z3
from ..check import Case, Verdict, Ob, Violation, in_val, out_val, OUT
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst


# ------------------------------------------------------------------ types: spec types, and these
class Inv:
    def __init__(self, inner):
        self.inner = inner
        self.src = f"inv {inner.src}"

    def fwd(self):
        return bwd(self.inner)

    def bwd(self):
        return fwd(self.inner)


class PAgg:
    def fwd(self):
        return Tuple(*[fwd(m) for m in self.members])

    def bwd(self):
        return Tuple(*[bwd(m) for m in self.members])


class PTuple(PAgg):
    def __init__(self, ms):
        self.members = list(ms)
        self.src = "(" + ", ".join(m.src for m in ms) + ("," if len(ms) == 1 else "") + ")"


class PStruct(PAgg):
    def __init__(self, name, fields):
        self.name, self.fields, self.src = name, fields, name
        self.members = [t for _, t in fields]

    def decl(self):
        return f"struct {self.name} {{ {', '.join(f'{n}: {t.src}' for n, t in self.fields)} }}"


class PArr(PAgg):
    def __init__(self, inner, n):
        self.inner, self.n = inner, n
        self.members = [inner] * n
        self.src = f"[{inner.src}; {n}]"

    def fwd(self):
        return Array(fwd(self.inner), self.n)

    def bwd(self):
        return Array(bwd(self.inner), self.n)


def ptuple(ms):
    return Tuple(*ms) if all(isinstance(m, Ty) for m in ms) else PTuple(ms)


def parr(t, n):
    return Array(t, n) if isinstance(t, Ty) else PArr(t, n)


def fwd(t):
    return t if isinstance(t, Ty) else t.fwd()


def bwd(t):
    return Tuple() if isinstance(t, Ty) else t.bwd()


# ------------------------------------------------------------------ wires
class Cell:
    """a wire: v is what its readers see, bound what drives it"""

    def __init__(self, ty, net):
        self.ty, self.v, self.bound, self.net = ty, fresh(ty), None, net
        for x in leaves(self.v):
            net.of[x.decl().name()] = self


class Net:
    def __init__(self):
        self.of = {}
        self.memo = {}

    def cells(self, v):
        out, seen, todo = set(), set(), [x for x in leaves(v)]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                c = self.of.get(e.decl().name())
                if c:
                    out.add(c)
            todo += e.children()
        return out

    def reach(self, v):
        """the wires a value depends on"""
        out, todo = set(), list(self.cells(v))
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.add(c)
            if c.bound is not None:
                if not hasattr(c, "direct"):
                    c.direct = self.cells(c.bound)
                todo += c.direct
        return out

    def bind(self, c, v):
        assert c.bound is None
        c.bound = v
        c.__dict__.pop("direct", None)

    def unbind(self, c):
        c.bound = None
        c.__dict__.pop("direct", None)

    def final(self, v):
        pairs = []
        for c in self.cells(v):
            if c not in self.memo:
                if c.bound is None:
                    continue
                self.memo[c] = self.final(c.bound)
            pairs += list(zip(leaves(c.v), leaves(self.memo[c])))
        return subst(v, pairs)


def channel(t, net):
    """both ends of a wire bundle of type t: its value, and what `inv t` holds"""
    if isinstance(t, Ty):
        c = Cell(t, net)
        return c.v, c
    if isinstance(t, Inv):
        v, c = channel(t.inner, net)
        return c, v
    vs = [channel(m, net) for m in t.members]
    return [a for a, _ in vs], [b for _, b in vs]


def pairs(t, c, v):
    """what connecting the `inv t` end c to the value v means: a list of (wire, value)"""
    if isinstance(t, Ty):
        return [(c, v)]
    if isinstance(t, Inv):
        return pairs(t.inner, v, c)
    return [p for m, a, b in zip(t.members, c, v) for p in pairs(m, a, b)]


class Loop(Exception):
    pass


def connect(net, t, c, v):
    done = []
    for w, x in pairs(t, c, v):
        if w in net.reach(x):
            for d in done:
                net.unbind(d)
            raise Loop()
        net.bind(w, x)
        done.append(w)


# ------------------------------------------------------------------ programs
class PGen:
    def __init__(self, r, uid, depth=2, budget=14):
        self.r, self.uid = r, uid
        self.g = Gen(r, uid, Opts(maxw=6, budget=40, call=1, lam=0))
        self.net = Net()
        self.n = 0
        self.structs = []
        self.budget = budget
        self.items = self.g.items

    def nm(self, p="v"):
        self.n += 1
        return f"{p}_{self.n}x"

    def data(self, d=1):
        return self.g.small_type(d)

    def ptype(self, d=2, linear=False):
        r = self.r
        k = r.random()
        if not linear and k < 0.35:
            return self.data()
        if d <= 0 or k < 0.55:
            return Inv(self.data())
        if k < 0.65:
            return Inv(self.ptype(d - 1))
        if k < 0.8:
            ms = [self.ptype(d - 1) for _ in range(r.choice([1, 2, 2, 3]))]
            ms[r.randrange(len(ms))] = self.ptype(d - 1, True)
            return ptuple(ms)
        if k < 0.9:
            return parr(self.ptype(d - 1, True), r.choice([1, 2, 2, 3]))
        if self.structs and r.random() < 0.7:
            return r.choice(self.structs)
        fs = [(f"p{i}", self.ptype(d - 1)) for i in range(r.choice([1, 2, 3]))]
        j = r.randrange(len(fs))
        fs[j] = (fs[j][0], self.ptype(d - 1, True))
        s = PStruct(f"P{self.uid}_{len(self.structs)}", fs)
        self.structs.append(s)
        self.items.append(s.decl())
        return s

    # env: dict(sc=[(name, Ex)], hs=[(text, type, rep)], out=[statements], entity=bool)
    def expr(self, env, t, d=2, avoid=()):
        """a data expression; avoid: wires its value must not depend on"""
        sc = env["sc"]
        if avoid:
            av = set(avoid)
            sc = [(n, e) for n, e in sc if not (self.net.reach(e.v) & av)]
            # names hidden by a dropped one stay hidden: all names are different
        self.g.size = 0
        self.g.entity = env["entity"]
        e = self.g.expr(t, self.r.randint(0, d), sc)
        # the hardware depends on all the names in the text, even if the value does not
        used = set(re.findall(r"\w+", e.s))
        deps = [x for n, x in sc if n in used]
        if not deps or t.w == 0:
            return e
        c = Cell(t, self.net)
        self.net.bind(c, e.v)
        c.direct = self.net.cells(e.v)
        for x in deps:
            c.direct |= self.net.cells(x.v)
        return Ex(t, e.s, c.v)

    def add(self, env, text, t, rep):
        if isinstance(t, Ty):
            if not text.isidentifier():
                n = self.nm("c")
                env["out"].append(f"let {n} = {text};")
                text = n
            env["sc"].append((text, Ex(t, text, rep)))
        else:
            env["hs"].append((text, t, rep))

    def port(self, env, t):
        """a new connected pair; the `inv` end is returned"""
        a, b = channel(t, self.net)
        r = self.r
        nf, nb = self.nm("f"), self.nm("b")
        k = r.random()
        if k < 0.4:
            env["out"].append(f"let ({nf}, {nb}): ({t.src}, {Inv(t).src}) = port();")
        elif k < 0.7:
            env["out"].append(f"let ({nf}, {nb}) = port::<{t.src}>();")
        else:
            p = self.nm("q")
            env["out"].append(f"let {p}: ({t.src}, {Inv(t).src}) = port();")
            if r.random() < 0.5 or isinstance(t, Ty):
                nf, nb = f"{p}.0", f"{p}.1"
            else:
                env["out"].append(f"let ({nf}, {nb}) = {p};")
        self.add(env, nf, t, a)
        return nb, Inv(t), b

    def take(self, env, t):
        """a linear value of type t out of the environment, or a new one"""
        for i, (s, T, rep) in enumerate(env["hs"]):
            if T.src == t.src and self.r.random() < 0.8:
                del env["hs"][i]
                return s, rep
        s, rep, = None, None
        if isinstance(t, Inv):
            s, _, rep = self.port(env, t.inner)
            return s, rep
        return self.make(env, t)

    def make(self, env, t, avoid=()):
        """an expression of any type"""
        if isinstance(t, Ty):
            e = self.expr(env, t, avoid=avoid)
            return e.s, e.v
        if isinstance(t, Inv):
            return self.take(env, t)
        for i, (s, T, rep) in enumerate(env["hs"]):
            if T.src == t.src and self.r.random() < 0.5:
                del env["hs"][i]
                return s, rep
        xs = [self.make(env, m, avoid) for m in t.members]
        return self.build(t, [s for s, _ in xs]), [v for _, v in xs]

    def build(self, t, ss):
        if isinstance(t, PTuple):
            return "(" + ", ".join(ss) + ("," if len(ss) == 1 else "") + ")"
        if isinstance(t, PArr):
            return "[" + ", ".join(ss) + "]"
        if self.r.random() < 0.5:
            return f"{t.name}({', '.join(ss)})"
        xs = [f"{n}: {s}" for (n, _), s in zip(t.fields, ss)]
        self.r.shuffle(xs)
        return f"{t.name}$({', '.join(xs)})"

    def finish(self, env, h):
        """drive everything in a linear value"""
        s, t, rep = h
        r = self.r
        if isinstance(t, Inv):
            for tries in range(6):
                hs, n, sc = list(env["hs"]), len(env["out"]), list(env["sc"])
                es, ev = self.make(env, t.inner, avoid=self.sinks(t.inner, rep) if tries < 5 else self.net.of.values())
                try:
                    connect(self.net, t.inner, rep, ev)
                except Loop:
                    # undo; new wires made for the attempt are forgotten
                    env["hs"], env["sc"] = hs, sc
                    del env["out"][n:]
                    continue
                env["out"].append(f"set {s} = {es};")
                return
            # no handle that fits without a loop: new ones
            keep = env["hs"]
            env["hs"] = []
            es, ev = self.make(env, t.inner, avoid=list(self.net.of.values()))
            env["hs"] = keep + env["hs"]
            connect(self.net, t.inner, rep, ev)
            env["out"].append(f"set {s} = {es};")
            return
        self.explode(env, h)

    def sinks(self, t, rep):
        if isinstance(t, Ty):
            return [rep]
        if isinstance(t, Inv):
            return []
        return [c for m, x in zip(t.members, rep) for c in self.sinks(m, x)]

    def explode(self, env, h):
        """take a linear aggregate apart"""
        s, t, rep = h
        r = self.r
        if isinstance(t, PArr):
            paths = [f"{s}[{i}]" for i in range(t.n)]
            if t.n > 1 and r.random() < 0.4:
                # in slices
                cuts = sorted({0, t.n, *[r.randint(1, t.n - 1) for _ in range(r.randint(1, 2))]})
                new = []
                for a, b in zip(cuts, cuts[1:]):
                    n = self.nm()
                    new.append((f"let {n} = {s}[{a if a or r.random() < 0.5 else ''}..{b if b < t.n or not a or r.random() < 0.5 else ''}];", (n, parr(t.inner, b - a), rep[a:b])))
                r.shuffle(new)
                for st, h in new:
                    env["out"].append(st)
                    env["hs"].append(h)
                return
        elif isinstance(t, PTuple):
            paths = [f"{s}.{i}" for i in range(len(t.members))]
        else:
            paths = [f"{s}.{n}" for n, _ in t.fields]
        if r.random() < 0.5 or not s.replace(".", "").replace("[", "").replace("]", "").replace("_", "a").isalnum():
            # by pattern
            ns = [self.nm() if not isinstance(m, Ty) or r.random() < 0.8 else "_" for m in t.members]
            if isinstance(t, PStruct):
                if r.random() < 0.5:
                    pat = f"{t.name}({', '.join(ns)})"
                else:
                    xs = [f"{n}: {p}" for (n, _), p in zip(t.fields, ns)]
                    r.shuffle(xs)
                    pat = f"{t.name}$({', '.join(xs)})"
            else:
                pat = self.build(t, ns)
            env["out"].append(f"let {pat} = {s};")
            for n, m, x in zip(ns, t.members, rep):
                if n != "_":
                    self.add(env, n, m, x)
            return
        order = list(zip(paths, t.members, rep))
        r.shuffle(order)
        for p, m, x in order:
            self.add(env, p, m, x)

    def view(self, env, h):
        """read the data in a linear value without using it up"""
        s, t, rep = h
        path, star = s, False
        while not isinstance(t, Ty):
            if isinstance(t, Inv):
                return
            if isinstance(t, PArr):
                return
            i = self.r.randrange(len(t.members))
            path += f".{i}" if isinstance(t, PTuple) else f".{t.fields[i][0]}"
            t, rep = t.members[i], rep[i]
        n = self.nm("w")
        if self.r.random() < 0.5:
            root, _, rest = path.partition(".")
            if "[" in root or not rest:
                return
            env["out"].append(f"let {n} = *(&{root}).{rest};" if self.r.random() < 0.5 else f"let {n}: {t.src} = *(&({root}.{rest}));")
        else:
            env["out"].append(f"let {n} = {path};")
        env["sc"].append((n, Ex(t, n, rep)))

    def pick(self, env):
        return env["hs"].pop(self.r.randrange(len(env["hs"])))

    def step(self, env, d):
        r = self.r
        k = r.random()
        if k < 0.2 or not env["hs"]:
            h = self.port(env, self.ptype(1))
            env["hs"].append(h)
        elif k < 0.3:
            hs = [self.pick(env) for _ in range(min(len(env["hs"]), r.randint(1, 3)))]
            ms = [(s, t, rep) for s, t, rep in hs]
            if r.random() < 0.6:
                e = self.expr(env, self.data())
                ms.append((e.s, e.ty, e.v))
            r.shuffle(ms)
            t = ptuple([m[1] for m in ms])
            n = self.nm()
            env["out"].append(f"let {n} = {self.build(t, [m[0] for m in ms])};")
            env["hs"].append((n, t, [m[2] for m in ms]))
        elif k < 0.42:
            i = [i for i, h in enumerate(env["hs"]) if not isinstance(h[1], Inv)]
            if i:
                self.explode(env, env["hs"].pop(r.choice(i)))
        elif k < 0.52:
            self.view(env, r.choice(env["hs"]))
        elif k < 0.62:
            self.finish(env, self.pick(env))
        elif k < 0.68:
            # a name, a block, a generic identity, an array of one
            s, t, rep = self.pick(env)
            n = self.nm()
            m = self.nm("t")
            c = r.random()
            if c < 0.3:
                env["out"].append(f"let {n} = {s};")
            elif c < 0.6:
                env["out"].append(f"let {n}: {t.src} = {{ let {m} = {s}; {m} }};")
            elif c < 0.8:
                i = self.nm("id")
                kind = r.choice(["fn", "entity"]) if env["entity"] else "fn"
                self.items.append(f"{r.choice(['', '#[inline] '])}{kind} {i}<T>(x: T) -> T {{ x }}")
                env["out"].append(f"let {n} = {'inst ' if kind == 'entity' else ''}{i}({s});")
            else:
                env["out"].append(f"let {n}: {t.src} = [{s}][0];" if r.random() < 0.5 else f"let {n} = ({s}, true).0;")
            env["hs"].append((n, t, rep))
        elif k < 0.74:
            for i, (s, t, rep) in enumerate(env["hs"]):
                if isinstance(t, Inv) and isinstance(t.inner, Ty):
                    del env["hs"][i]
                    n = self.nm()
                    c = Cell(t.inner, self.net)
                    if r.random() < 0.5:
                        env["out"].append(f"let {n} = {s}.inspect();")
                        self.net.bind(rep, c.v)
                        env["sc"].append((n + "f", Ex(t.inner, n + "f", c.v)))
                        env["out"].append(f"let ({n}f, {n}b) = {n};")
                        env["hs"].append((n + "b", t, c))
                    elif env["entity"]:
                        env["out"].append(f"let {n} = inst std::ports::read_mut_wire({s});")
                        env["sc"].append((n, Ex(t.inner, n, rep.v)))
                        env["hs"].append((s, t, rep))
                    else:
                        env["hs"].append((s, t, rep))
                    break
        elif k < 0.78:
            self.transpose(env)
        elif k < 0.84:
            self.arrayfn(env)
        elif d > 0:
            self.call(env, d)

    def transpose(self, env):
        r = self.r
        for i, (s, t, rep) in enumerate(env["hs"]):
            n = self.nm()
            if isinstance(t, PArr) and isinstance(t.inner, Inv) and isinstance(t.inner.inner, Ty):
                del env["hs"][i]
                c = Cell(Array(t.inner.inner, t.n), self.net)
                for x, v in zip(rep, c.v):
                    self.net.bind(x, v)
                env["out"].append(f"let {n} = {s}.transpose();")
                env["hs"].append((n, Inv(c.ty), c))
                return
            if isinstance(t, Inv) and isinstance(t.inner, Array):
                del env["hs"][i]
                cs = [Cell(t.inner.inner, self.net) for _ in range(t.inner.n)]
                self.net.bind(rep, [c.v for c in cs])
                env["out"].append(f"let {n} = {s}.transpose();")
                env["hs"].append((n, PArr(Inv(t.inner.inner), t.inner.n), cs))
                return

    def arrayfn(self, env):
        """the library's array methods on arrays of linear values"""
        r = self.r
        i = [i for i, h in enumerate(env["hs"]) if isinstance(h[1], PArr)]
        if not i:
            if not env["hs"]:
                return
            s, t, rep = self.pick(env)
            n = self.nm()
            ms = [(s, rep)] + [self.take(env, t) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            r.shuffle(ms)
            env["out"].append(f"let {n} = [{', '.join(m[0] for m in ms)}];")
            env["hs"].append((n, PArr(t, len(ms)), [m[1] for m in ms]))
            return
        s, t, rep = env["hs"].pop(r.choice(i))
        n = self.nm()
        T, N = t.inner, t.n
        f = r.choice(["reversed", "concat", "split_at", "chunks", "push_back", "push_front", "interleave", "zip", "unzip", "flatten", "map", "first"])
        one = self.one = lambda: self.take(env, T)
        if f == "reversed":
            e, t2, v = f"{s}.reversed()", t, rep[::-1]
        elif f == "concat":
            xs = [one() for _ in range(r.randint(1, 2))]
            e, t2, v = f"{s}.concat([{', '.join(x[0] for x in xs)}])", PArr(T, N + len(xs)), rep + [x[1] for x in xs]
        elif f == "split_at" and N > 1:
            k = r.randint(1, N - 1)
            e, t2, v = f"{s}.split_at::<{k}>()", PTuple([PArr(T, k), PArr(T, N - k)]), [rep[:k], rep[k:]]
        elif f == "chunks":
            k = r.choice([x for x in range(1, N + 1) if N % x == 0])
            e, t2, v = f"{s}.chunks::<{k}>()", PArr(PArr(T, k), N // k), [rep[i : i + k] for i in range(0, N, k)]
        elif f.startswith("push"):
            x = one()
            e, t2, v = f"{s}.{f}({x[0]})", PArr(T, N + 1), rep + [x[1]] if f == "push_back" else [x[1]] + rep
        elif f in ("interleave", "zip"):
            xs = [one() for _ in range(N)]
            e = f"{s}.{f}([{', '.join(x[0] for x in xs)}])"
            if f == "zip":
                t2, v = PArr(PTuple([T, T]), N), [[a, b[1]] for a, b in zip(rep, xs)]
            else:
                t2, v = PArr(T, 2 * N), [y for a, b in zip(rep, xs) for y in (a, b[1])]
        elif f == "unzip" and isinstance(T, PTuple) and len(T.members) == 2:
            e, t2, v = f"{s}.unzip()", PTuple([parr(m, N) for m in T.members]), [[x[j] for x in rep] for j in (0, 1)]
        elif f == "flatten" and isinstance(T, PArr):
            e, t2, v = f"{s}.flatten()", PArr(T.inner, N * T.n), [y for x in rep for y in x]
        elif f == "map" and not env.get("lam"):
            m, q, o = self.nm("m"), self.nm("q"), self.nm("o")
            e, t2 = f"{s}.map(fn |{q}| {{ let {o}: {T.src} = {q}; ({o},) }})", PArr(PTuple([T]), N)
            v = [[x] for x in rep]
        elif f == "first" and N == 1:
            e, t2, v = f"{s}.{r.choice(['first', 'last'])}()", T, rep[0]
        else:
            e, t2, v = s, t, rep
        env["out"].append(f"let {n} = {e};")
        self.add(env, n, t2, v)

    def call(self, env, d):
        """a unit around some linear values"""
        r = self.r
        n = self.nm("u")
        args, params = [], []
        for _ in range(min(len(env["hs"]), r.randint(0, 2))):
            s, t, rep = self.pick(env)
            args.append((s, t, rep))
        for _ in range(r.randint(0, 2)):
            e = self.expr(env, self.data())
            args.append((e.s, e.ty, e.v))
        r.shuffle(args)
        if not args:
            return
        params = [(self.nm("a"), t, rep) for _, t, rep in args]
        kind = r.choice(["fn", "entity", "entity"]) if env["entity"] else "fn"
        lam = r.random() < 0.15 and not env.get("lam")
        if lam:
            kind = "fn"
        body, ret, rep = self.body([p for p in params], d - 1, kind == "entity", lam=lam or env.get("lam"))
        if lam:
            cl = f"let {n} = fn |{', '.join(p[0] for p in params)}| {{ {' '.join(f'let {p[0]}: {p[1].src} = {p[0]};' for p in params)} {body} }};"
            env["out"].append(cl)
            c = f"{n}.call(({', '.join(a[0] for a in args)},))"
            if ret is None:
                ret = None
        else:
            rt = f" -> {ret.src}" if ret is not None else ""
            self.items.append(f"{r.choice(['', '', '#[inline] '])}{kind} {n}({', '.join(f'{p[0]}: {p[1].src}' for p in params)}){rt} {{ {body} }}")
            if r.random() < 0.5:
                a = "(" + ", ".join(x[0] for x in args) + ")"
            else:
                xs = [f"{p[0]}: {x[0]}" for p, x in zip(params, args)]
                r.shuffle(xs)
                a = f"$({', '.join(xs)})"
            c = f"{'inst ' if kind == 'entity' else ''}{n}{a}"
        if ret is None:
            env["out"].append(f"{c};")
            return
        m = self.nm()
        env["out"].append(f"let {m} = {c};")
        self.add(env, m, ret, rep)

    def body(self, params, d, entity, ret=True, lam=False):
        r = self.r
        env = dict(sc=[], hs=[], out=[], entity=entity, lam=lam)
        for p in params:
            self.add(env, *p)
        for _ in range(r.randint(0, 3 + 2 * d)):
            if self.budget <= 0:
                break
            self.budget -= 1
            self.step(env, d)
        keep = []
        if ret:
            while env["hs"] and r.random() < 0.5 and len(keep) < 3:
                keep.append(self.pick(env))
        while env["hs"]:
            self.finish(env, self.pick(env))
        if ret and (r.random() < 0.8 or not keep and r.random() < 0.6):
            e = self.expr(env, self.data())
            keep.append((e.s, e.ty, e.v))
            r.shuffle(keep)
            while env["hs"]:
                self.finish(env, self.pick(env))
        out = " ".join(env["out"])
        if not keep:
            return out, None, None
        if len(keep) == 1:
            return f"{out} {keep[0][0]}", keep[0][1], keep[0][2]
        t = ptuple([k[1] for k in keep])
        return f"{out} {self.build(t, [k[0] for k in keep]) if isinstance(t, PTuple) else '(' + ', '.join(k[0] for k in keep) + ')'}", t, [k[2] for k in keep]


class PortCase(Case):
    """the module's ports carry each part in its own direction"""

    def __init__(self, name, src, top, params, ret, rep, net):
        super().__init__(name, src, top)
        self.params, self.ret, self.rep, self.net = params, ret, rep, net

    def obligations(self, ctx):
        s = ctx.sim()
        fr = s.step()
        ok, outs = [], []
        net = self.net
        net.memo = {}
        ins = [(n, n, t, rep, False) for n, t, rep in self.params]
        ports = []

        def feed(t, rep, val, back):
            """values that come in from outside"""
            if isinstance(t, Ty):
                if not back:
                    for c in {net.of[x.decl().name()] for x in leaves(rep)}:
                        net.memo[c] = val
                return
            if isinstance(t, Inv):
                # the inner type's other end: its data goes out, its inverted data comes in
                feed2(t.inner, rep, val)
                return
            for m, x, v in zip(t.members, rep, val):
                feed(m, x, v, back)

        def feed2(t, rep, val):
            """rep is the far end of t; val are the values of t's backward part"""
            if isinstance(t, Ty):
                return
            if isinstance(t, Inv):
                feed(t.inner, rep, val, False)
                return
            for m, x, v in zip(t.members, rep, val):
                feed2(m, x, v)

        def want(t, rep):
            """what goes out at the near end of a value of type t: its forward part"""
            if isinstance(t, Ty):
                return net.final(rep)
            if isinstance(t, Inv):
                return want2(t.inner, rep)
            return [want(m, x) for m, x in zip(t.members, rep)]

        def want2(t, rep):
            """the backward part"""
            if isinstance(t, Ty):
                return []
            if isinstance(t, Inv):
                return want(t.inner, rep)
            return [want2(m, x) for m, x in zip(t.members, rep)]

        def want3(t, rep):
            """what goes back to the source of a value of type t that came in"""
            if isinstance(t, Ty):
                return []
            if isinstance(t, Inv):
                return sent(t.inner, rep)
            return [want3(m, x) for m, x in zip(t.members, rep)]

        def sent(t, rep):
            """rep is the far end of t: what was put into it"""
            if isinstance(t, Ty):
                return net.final(rep.v)
            if isinstance(t, Inv):
                return want3(t.inner, rep)
            return [sent(m, x) for m, x in zip(t.members, rep)]

        # a value that leaves: the parts of it that come back in feed the wires it holds
        def feed_out(t, rep, val):
            if isinstance(t, Ty):
                return
            if isinstance(t, Inv):
                feed_far(t.inner, rep, val)
                return
            for m, x, v in zip(t.members, rep, val):
                feed_out(m, x, v)

        def feed_far(t, rep, val):
            """rep is the far end of t, driven from outside with val"""
            if isinstance(t, Ty):
                net.memo[rep] = val
                return
            if isinstance(t, Inv):
                feed_out(t.inner, rep, val)
                return
            for m, x, v in zip(t.members, rep, val):
                feed_far(m, x, v)

        for n, t, rep in self.params:
            F = fwd(t)
            if F.w:
                v, o = in_val(fr, n, F)
                ok.append(o)
                feed(t, rep, v, False)
        if self.ret is not None and bwd(self.ret).w:
            B = bwd(self.ret)
            w = {n: w for n, w, d in fr.sim.elab.inputs}.get("input__")
            if w != B.w:
                raise Violation("port width", f"input__ has {w} bits, {B.src} needs {B.w}")
            bits = fr.input("input__", B.w)
            ok.append(B.ok(bits))
            feed_out(self.ret, self.rep, B.decode(bits))
        for n, t, rep in self.params:
            B = bwd(t)
            if B.w:
                outs.append((n + "_o", B, want3(t, rep)))
        if self.ret is not None and fwd(self.ret).w:
            outs.append((OUT, fwd(self.ret), want_out(self, want)))
        named = {n for n, _, _ in outs}
        for n, w in fr.sim.elab.outputs if not isinstance(fr.sim.elab.outputs, dict) else fr.sim.elab.outputs.items():
            if n not in named:
                raise Violation("port", f"unexpected output {n}")
        for n, T, v in outs:
            got, bits = out_val(fr, T, n)
            yield Ob(f"value of {n}", [z3.Not(T.same(got, v))], [(0, "", n, bits)], ok, [("expected", T, v), ("actual", T, got)])
        if not outs:
            yield Ob("shape", [z3.BoolVal(False)])


def want_out(case, want):
    return want(case.ret, case.rep)


def port_case(r, uid, ports):
    g = PGen(r, uid, budget=r.choice([6, 10, 16, 24]))
    entity = r.random() < 0.8
    g.g.declare_types(r.randint(0, 2))
    params = []
    for i in range(r.randint(1, 3)):
        t = g.data() if r.random() < 0.6 or not ports else g.ptype(2)
        v, c = channel(t, g.net)
        params.append((g.nm("i"), t, v))
    body, ret, rep = g.body(params, 2, entity, ret=True)
    if not ports and ret is not None and not isinstance(ret, Ty):
        return None
    top = f"pt{uid}"
    rt = f" -> {ret.src}" if ret is not None else ""
    if ret is None and not any(bwd(t).w for _, t, _ in params):
        return None
    g.items.append(f"{'entity' if entity else 'fn'} {top}({', '.join(f'{n}: {t.src}' for n, t, _ in params)}){rt} {{ {body} }}")
    return PortCase(top, "\n".join(g.items) + "\n", top, params, ret, rep, g.net)


def p18(tier, rng):
    quick = tier == "quick"
    out = []
    q = 0
    while len(out) < (1000 if quick else 8000):
        q += 1
        c = port_case(random.Random(rng.getrandbits(64)), f"{q}", q % 3 != 0)
        if c:
            out.append(c)
    return out
