"""P40: which types are Data and Copy, and that registers, choices, enums and bounds ask for it."""
import random
import re
import z3
from ..check import Verdict

COPY = "core::marker::Copy"

# helpers; every one of them gives back its argument
ITEMS = {
    "id": "fn id<T>(x: T) -> T { x }",
    "need": "fn need<T: Data>(x: T) -> T { x }",
    "needw": "fn needw<T>(x: T) -> T where T: Data { x }",
    "needi": "fn needi(x: impl Data) -> bool { true }",
    "needc": f"fn needc<T: {COPY}>(x: T) -> T {{ x }}",
    "needwc": f"fn needwc<T>(x: T) -> T where T: {COPY} {{ x }}",
    "chain": "fn need<T: Data>(x: T) -> T { x }\nfn chain<U: Data>(x: U) -> U { need(x) }",
    "super": f"fn needc<T: {COPY}>(x: T) -> T {{ x }}\nfn overc<U: Data>(x: U) -> U {{ needc(x) }}",
    "derefc": f"fn derefc<U: {COPY}>(x: U) -> U {{ *(&x) }}",
    "regg": "entity regg<T>(c: clock, x: T) -> T { reg(c) r = x; r }",
    "regb": "entity regb<T: Data>(c: clock, x: T) -> T { reg(c) r = x; r }",
    "muxg": "fn muxg<T>(b: bool, x: T, y: T) -> T { if b { x } else { y } }",
    "pp": "pipeline(1) pp<T>(c: clock, x: T) -> T { reg; x }",
    "pw": "pipeline(1) pw<T>(c: clock, wire x: T) -> T { reg; x }",
    "SD": "struct SD<T: Data> { v: T }",
    "SC": f"struct SC<T: {COPY}> {{ v: T }}",
    "G": "struct G<T> { v: T }",
    "MD": "struct G<T> { v: T }\ntrait M { fn m(self) -> Self; }\nimpl<T: Data> M for G<T> { fn m(self) -> Self { self } }",
    "MC": f"struct G<T> {{ v: T }}\ntrait N {{ fn n(self) -> Self; }}\nimpl<T: {COPY}> N for G<T> {{ fn n(self) -> Self {{ self }} }}",
    "MG": "struct G<T> { v: T }\ntrait M { fn m(self) -> Self; }\nimpl<T: Data> M for G<T> { fn m(self) -> Self { self } }\nfn viam<U: M>(x: U) -> U { x.m() }",
    "GM": "struct G<T> { v: T }\nimpl<T> G<T> { fn k<U: Data>(self, x: U) -> U { x } }",
    "GW": "struct GW<T> { v: T }\nimpl<T> GW<T> where T: Data { fn w(self) -> T { self.v } }",
    "TM": "trait TM { fn t<U: Data>(self, x: U) -> U; }\nimpl TM for bool { fn t<U: Data>(self, x: U) -> U { x } }",
    "EN": "enum EN<T> { A { v: T }, B }",
    "AB": "type AB<T: Data> = (T, bool);",
}

# name, what it asks for, items, text
SITES = [
    ("plain", None, [], "x"), ("id", None, ["id"], "id(x)"), ("tuple", None, [], "(b, x).1"), ("array", None, [], "[x][0]"), ("struct", None, ["G"], "G(x).v"), ("struct2", None, ["G"], "{ let G(z) = G(x); z }"),
    ("let", None, [], "{ let z = x; z }"), ("lettuple", None, [], "{ let (z, _) = (x, b); z }"), ("lambda", None, [], "(fn |q| q).call((x,))"), ("capture", None, [], "(fn |q| x).call((b,))"), ("wire", None, ["pw"], "inst(1) pw(c, x)"), ("block", None, [], "{ { x } }"),
    ("reg", "d", [], "{ reg(c) r = x; r }"), ("regt", "d", [], "{ reg(c) r: {T} = x; r }"), ("regreset", "d", [], "{ reg(c) r reset(b: y) = x; r }"), ("regpat", "d", [], "{ reg(c) (r, q) = (x, b); r }"), ("regpar", "d", ["G"], "{ reg(c) r = G(x); r.v }"), ("regarr", "d", [], "{ reg(c) r = [x]; r[0] }"),
    ("decl", "d", [], "{ decl r; reg(c) r = x; r }"),
    ("if", "d", [], "if b { x } else { y }"), ("ifelse", "d", [], "if b { y } else if !b { x } else { y2 }"), ("iftuple", "d", [], "if b { (x, b) } else { (y, b) }.0"), ("match", "d", [], "match b { true => x, false => y }"), ("match1", "d", [], "match b { _ => x }"), ("matchp", "d", [], "match (x, b) { (z, _) => z }"),
    ("iflet", "d", [], "if let (true, z) = (b, x) { z } else { y }"), ("some", "d", [], "match Some(x) { Some(z) => z, None => y }"), ("none", "d", [], "{ let z: Option<{T}> = None; x }"), ("unwrap", "d", [], "Some(x).unwrap_or(y)"), ("own", "d", ["EN"], "match EN::A(x) { EN::A(z) => z, EN::B => y }"),
    ("owntuple", "d", ["EN"], "match EN::A((b, x)) { EN::A((_, z)) => z, EN::B => y }"),
    ("need", "d", ["need"], "need(x)"), ("needt", "d", ["need"], "need::<{T}>(x)"), ("needw", "d", ["needw"], "needw(x)"), ("needi", "d", ["needi"], "{ let _ = needi(x); x }"), ("chain", "d", ["chain"], "chain(x)"), ("super", "d", ["super"], "overc(x)"), ("regg", "d", ["regg"], "inst regg(c, x)"), ("regb", "d", ["regb"], "inst regb(c, x)"),
    ("muxg", "d", ["muxg"], "muxg(b, x, y)"), ("pp", "d", ["pp"], "inst(1) pp(c, x)"), ("SD", "d", ["SD"], "SD(x).v"), ("SDn", "d", ["SD"], "SD$(v: x).v"), ("MD", "d", ["MD"], "G(x).m().v"), ("MG", "d", ["MG"], "viam(G(x)).v"), ("GM", "d", ["GM"], "G(b).k(x)"), ("GW", "d", ["GW"], "GW(x).w()"), ("TM", "d", ["TM"], "true.t(x)"),
    ("AB", "d", ["AB"], "{ let (z, _): AB<{T}> = (x, b); z }"), ("lambdareg", "d", [], "(entity |clk, q| { reg(clk) r = q; r }).inst call(c, (x,))"), ("lambdaif", "d", [], "(fn |q| if b { q } else { y }).call((x,))"), ("nested", "d", ["need"], "need((x, b)).0"), ("nestedarr", "d", ["need"], "need([x])[0]"), ("nestedG", "d", ["need", "G"], "need(G(x)).v"),
    ("needc", "c", ["needc"], "needc(x)"), ("needwc", "c", ["needwc"], "needwc(x)"), ("derefc", "c", ["derefc"], "derefc(x)"), ("deref", "c", [], "*(&x)"), ("derefG", "c", ["G"], "*((&G(x)).v)"), ("dereft", "c", [], "*((&(b, x)).1)"), ("SC", "c", ["SC"], "SC(x).v"), ("MC", "c", ["MC"], "G(x).n().v"), ("twice", "c", [], "(x, x).0"), ("twice2", "c", [], "{ let z = (x, x); z.1 }"),
]


class Ty:
    def __init__(self, src, d, c, cond):
        self.src, self.d, self.c = src, d, c
        self.cond = cond  # (data, copy) as z3 terms


class W:
    def __init__(self, r, tag):
        self.r, self.tag = r, tag
        self.n = 0
        self.cs = []
        self.items = []
        self.structs, self.enums, self.als = [], [], []

    def name(self, p):
        self.n += 1
        return f"{p}{self.tag}_{self.n}"

    def node(self, src, d, c, fd, fc):
        k = self.name("n")
        zd, zc = z3.Bool(f"d_{k}"), z3.Bool(f"c_{k}")
        self.cs += [zd == fd, zc == fc]
        return Ty(src, d, c, (zd, zc))

    def leaf(self, d, c, src):
        return self.node(src, d, c, z3.BoolVal(d), z3.BoolVal(c))

    def all(self, src, parts):
        # a view is neither claimed to be Data nor not to be
        d = False if any(p.d is False for p in parts) else None if any(p.d is None for p in parts) else True
        return self.node(src, d, all(p.c for p in parts), z3.And(*[p.cond[0] for p in parts]), z3.And(*[p.cond[1] for p in parts]))

    def basic(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            return self.leaf(False, True, "clock")
        if x < 0.42:
            return self.leaf(False, False, "inv " + r.choice(["bool", "uint<2>", "(bool, bool)", "[bool; 2]", "clock"]))
        return self.leaf(True, True, r.choice(["bool", f"uint<{r.randint(1, 9)}>", f"int<{r.randint(1, 9)}>", "tri"]))

    def ty(self, k):
        """a random type"""
        r = self.r
        x = r.random()
        if k <= 0 or x < 0.15:
            return self.basic()
        if x < 0.35:
            n = r.choice([1, 2, 2, 2, 3, 4, r.randint(5, 8)])
            ps = [self.ty(k - 1) if i < 3 else self.leaf(True, True, "bool") for i in range(n)]
            r.shuffle(ps)
            return self.all("(" + ", ".join(p.src for p in ps) + ("," if n == 1 else "") + ")", ps)
        if x < 0.5:
            p = self.ty(k - 1)
            return self.all(f"[{p.src}; {r.randint(1, 3)}]", [p])
        if x < 0.55:
            p = self.plain(k - 1)
            return self.node(f"inv {p.src}", False, False, z3.BoolVal(False), z3.BoolVal(False))
        if x < 0.6:
            p = self.ty(k - 1)
            return self.node(f"&{p.src}", None, True, z3.Bool(self.name("view")), z3.BoolVal(True))
        if x < 0.75:
            if not self.structs or r.random() < 0.5:
                self.structs.append(self.declare("struct"))
            return self.use(r.choice(self.structs), k)
        if x < 0.85:
            if not self.als or r.random() < 0.5:
                self.als.append(self.declare("alias"))
            return self.use(r.choice(self.als), k)
        if r.random() < 0.4:
            p = self.plain(k - 1)
            return self.all(f"Option<{p.src}>", [p])
        if not self.enums or r.random() < 0.5:
            self.enums.append(self.declare("enum"))
        e, ps, fs = r.choice(self.enums)
        args = [self.plain(k - 1) for _ in ps]
        return self.all(e + (f"<{', '.join(a.src for a in args)}>" if args else ""), args + [f for f, p in fs if not p] + [self.leaf(True, True, "")])

    def plain(self, k):
        while True:
            t = self.ty(k)
            if t.d:
                return t

    def declare(self, kind):
        r = self.r
        n = self.name({"struct": "S", "alias": "A", "enum": "E"}[kind])
        ps = [f"T{i}" for i in range(r.choice([0, 1, 1, 2]))]
        fs = [(None, p) for p in ps]
        text = list(ps)
        for _ in range(r.randint(0 if ps else 1, 2)):
            t = self.plain(1) if kind == "enum" else self.ty(1)
            fs.append((t, None))
            text.append(t.src)
        for p in ps:
            if r.random() < 0.4:
                w = text.index(p)
                text[w] = r.choice(["[{}; 2]", "({}, bool)"]).format(p)
        o = list(range(len(fs)))
        r.shuffle(o)
        g = f"<{', '.join(ps)}>" if ps else ""
        if kind == "struct":
            self.items.append(f"struct {n}{g} {{ {', '.join(f'f{i}: {text[i]}' for i in o)} }}")
        elif kind == "alias":
            self.items.append(f"type {n}{g} = ({', '.join(text[i] for i in o)}, bool);")
        else:
            self.items.append(f"enum {n}{g} {{ A {{ {', '.join(f'f{i}: {text[i]}' for i in o)} }}, B }}")
        return n, ps, fs

    def use(self, decl, k):
        n, ps, fs = decl
        args = [self.ty(k - 1) for _ in ps]
        env = dict(zip(ps, args))
        return self.all(n + (f"<{', '.join(a.src for a in args)}>" if args else ""), [env[p] if p else f for f, p in fs])

    def want(self, req, good, k):
        for _ in range(400):
            t = self.ty(k)
            if req is None:
                return t
            v = t.d if req == "d" else t.c
            if v is good:
                return t
        return None


def program(seed, tag, bad):
    r = random.Random(seed)
    w = W(r, tag)
    n = r.choice([1, 1, 2, 3])
    fault = r.randrange(n) if bad else -1
    params, lets, outs, need = [], [], [], []
    used = set()
    for i in range(n):
        s = r.choice([s for s in SITES if i != fault or s[1]])
        t = w.want(s[1], i != fault, r.choice([0, 1, 2, 3]))
        if t is None:
            return None
        if s[1]:
            w.cs.append(t.cond[0 if s[1] == "d" else 1])
        used.update(s[2])
        for v in ("y2", "y", "x"):
            if v in words(s[3]):
                params.append(f"{v}{'_' if v == 'y2' else ''}{i}: {t.src}")
        e = re.sub(r"\b(x|y|y2)\b", lambda m: m[1] + ("_" if m[1] == "y2" else "") + str(i), s[3]).replace("{T}", t.src)
        lets.append(f"let o{i} = {e};")
        outs.append(t.src)
    r.shuffle(params)
    if fault < 0 and bad:
        return None
    items = []
    for u in sorted(used):
        for line in ITEMS[u].split("\n"):
            if line not in items:
                items.append(line)
    items += w.items
    r.shuffle(items)
    ret = outs[0] if n == 1 else "(" + ", ".join(outs) + ")"
    res = "o0" if n == 1 else "(" + ", ".join(f"o{i}" for i in range(n)) + ")"
    src = "\n".join(items) + f"\nentity t{tag}(c: clock, b: bool, {', '.join(params)}) -> {ret} {{ {' '.join(lets)} {res} }}\n"
    return Verdict(f"mk{tag}", src, not bad, "a value that is not Data (Copy) is used as if it was" if bad else "everything that has to be Data (Copy) is", formula=(w.cs, bool(bad)))


def words(e):
    return set(re.findall(r"\w+", e))


def direct(seed, tag, bad):
    """the members of an enum"""
    r = random.Random(seed)
    w = W(r, tag)
    ts = [w.want("d", True, r.choice([0, 1, 2])) for _ in range(r.randint(1, 3))]
    if bad:
        ts[r.randrange(len(ts))] = w.want("d", False, r.choice([0, 1, 2, 3]))
    if None in ts:
        return None
    w.cs += [t.cond[0] for t in ts]
    vs = [[] for _ in range(r.randint(1, 2))]
    for i, t in enumerate(ts):
        r.choice(vs).append(f"f{i}: {t.src}")
    src = "\n".join(w.items) + f"\nenum D{tag} {{ {', '.join(f'V{i} {{ ' + ', '.join(v) + ' }' for i, v in enumerate(vs))}, Z }}\nentity t{tag}(b: bool) -> D{tag} {{ D{tag}::Z }}\n"
    return Verdict(f"em{tag}", src, not bad, "the members of an enum are Data" if not bad else "a member of an enum is not Data", formula=(w.cs, bool(bad)))


def spelled(seed, tag, bad):
    """enums and structs with bounds, wherever their types are written"""
    r = random.Random(seed)
    w = W(r, tag)
    t = w.want("d", not bad, r.choice([0, 1, 2, 3]))
    if t is None:
        return None
    w.cs.append(t.cond[0])
    b = r.choice(["Option<{}>", f"EN{tag}<{{}}>", f"SD{tag}<{{}}>", f"AB{tag}<{{}}>", f"SW{tag}<bool, {{}}>"]).format(t.src)
    full = r.choice(["{}", "({}, bool)", "[{}; 2]", "GN{t}<{}>"]).replace("{t}", tag).format(b)
    u = full
    body = r.choice([
        f"entity t{tag}(c: clock, x: {u}) -> {u} {{ x }}",
        f"fn f{tag}<T>(x: T) -> T {{ x }}\nentity t{tag}(c: clock, x: {u}) -> {u} {{ f{tag}::<{u}>(x) }}",
        f"struct H{tag} {{ h: {u} }}\nentity t{tag}(c: clock, x: H{tag}) -> {u} {{ x.h }}",
        f"struct Q{tag} {{ b: bool }}\nimpl Q{tag} {{ fn k(self, x: {u}) -> {u} {{ x }} }}\nentity t{tag}(c: clock, q: Q{tag}, x: {u}) -> {u} {{ q.k(x) }}",
    ])
    src = "\n".join(w.items) + f"\nenum EN{tag}<T> {{ A {{ v: T }}, B }}\nstruct SD{tag}<T: Data> {{ v: T }}\nstruct SW{tag}<U, T: Data> {{ v: T, u: U }}\ntype AB{tag}<T: Data> = (T, bool);\nstruct GN{tag}<T> {{ g: T }}\n{body}\n"
    return Verdict(f"sp{tag}", src, not bad, "the parameters of a type satisfy its bounds" if not bad else "a parameter of a type does not satisfy its bound", formula=(w.cs, bool(bad)))


def pipe(seed, tag, bad):
    """what is carried through the stages of a pipeline, unless it is a wire"""
    r = random.Random(seed)
    w = W(r, tag)
    n = r.choice([1, 2, 3])
    fault = r.randrange(n) if bad else -1
    params, lets, outs, tys = [], [], [], []
    for i in range(n):
        # the parameter, and the name that is bound to it
        pw, lw, how = r.random() < 0.6, r.random() < 0.6, r.choice(["none", "let", "tuple", "lettuple", "struct"])
        if i == fault and pw and (lw or how == "none"):
            pw = False
        asks = not pw or (not lw and how != "none")
        t = w.want("d" if asks else None, i != fault, r.choice([0, 1, 2]))
        if t is None:
            return None
        if asks:
            w.cs.append(t.cond[0])
        params.append(f"{'wire ' if pw else ''}x{i}: {t.src}")
        m = "wire " if lw else ""
        lets.append({"none": "", "let": f"let {m}z{i} = x{i};", "tuple": f"let ({m}z{i}, wire q{i}) = (x{i}, b);", "lettuple": f"let (q{i}, {m}z{i}) = (b, x{i});", "struct": f"let GP{tag}({m}z{i}) = GP{tag}(x{i});"}[how])
        outs.append(f"x{i}" if how == "none" else f"z{i}")
        tys.append(t.src)
    ret = tys[0] if n == 1 else "(" + ", ".join(tys) + ")"
    res = outs[0] if n == 1 else "(" + ", ".join(outs) + ")"
    d = r.choice([0, 1, 2])
    src = "\n".join(w.items) + f"\nstruct GP{tag}<T> {{ v: T }}\npipeline({d}) t{tag}(c: clock, b: bool, {', '.join(params)}) -> {ret} {{ {' '.join(lets)} {'reg; ' * d}{res} }}\n"
    return Verdict(f"pi{tag}", src, not bad, "everything in the registers of the pipeline is Data" if not bad else "something in the registers of the pipeline is not Data", formula=(w.cs, bool(bad)))


def p40(tier, rng):
    quick = tier == "quick"
    out = []
    q = 0
    for f, n in ((program, 260), (direct, 50), (spelled, 70), (pipe, 80)):
        k = 0
        while k < n * (1 if quick else 10):
            q += 1
            c = f(rng.getrandbits(64), str(q), q % 2 == 0)
            if c:
                out.append(c)
                k += 1
    return out
