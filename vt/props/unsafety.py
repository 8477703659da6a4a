"""P37: units marked as unsafe are only used where the program says so."""
import random
import z3
from ..check import Comb, Verdict
from ..spec import *

U4 = UInt(4)


class Prog:
    """A program with uses of safe and unsafe units in nested contexts. The context of an expression is one boolean
    variable of the formula, equal to that of its surroundings, set, or cleared; every use of an unsafe unit needs it."""

    def __init__(self, r, uid):
        self.r, self.uid = r, uid
        self.items, self.cs, self.n, self.k = [], [], 0, 0
        self.units = {}
        self.entity = r.random() < 0.6
        self.sub = 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.uid}_{self.n}"

    # every callee maps a uint<4> to itself xor a constant
    def callee(self, unsafe):
        r = self.r
        forms = ["fn", "method", "assoc", "trait", "generic", "named", "infix", "mod", "alias", "extra", "turbofish", "array", "tuple"] + (["entity", "entmeth"] if self.entity else [])
        form = r.choice(forms)
        # an item inside a function cannot instantiate, see item()
        if (form, unsafe) in self.units and r.random() < 0.6:
            return self.units[form, unsafe]
        k = r.randrange(16)
        mk = "unsafe " if unsafe else ""
        n = self.name("c")
        S = f"S{n}"
        pub = "pub "
        if form == "fn":
            d, call = f"{mk}fn {n}(x: uint<4>) -> uint<4> {{ x ^ {k} }}", lambda a: f"{n}({a})"
        elif form == "named":
            d, call = f"{mk}fn {n}(x: uint<4>, y: bool) -> uint<4> {{ x ^ {k} }}", lambda a: f"{n}$(y: true, x: {a})"
        elif form == "entity":
            d, call = f"{mk}entity {n}(x: uint<4>) -> uint<4> {{ x ^ {k} }}", lambda a: f"inst {n}({a})"
        elif form == "entmeth":
            d, call = f"struct {S} {{ x: uint<4> }} impl {S} {{ {mk}entity m(self) -> uint<4> {{ self.x ^ {k} }} }}", lambda a: f"{S}({a}).inst m()"
        elif form == "method":
            d, call = f"struct {S} {{ x: uint<4> }} impl {S} {{ {mk}fn m(self) -> uint<4> {{ self.x ^ {k} }} }}", lambda a: f"{S}({a}).m()"
        elif form == "array":
            d, call = f"struct {S} {{ x: uint<4> }} impl [{S}; 2] {{ {mk}fn m(self) -> uint<4> {{ self[1].x ^ {k} }} }}", lambda a: f"[{S}(0), {S}({a})].m()"
        elif form == "tuple":
            d, call = f"struct {S} {{ x: uint<4> }} impl ({S}, bool) {{ {mk}fn m(self) -> uint<4> {{ self.0.x ^ {k} }} }}", lambda a: f"({S}({a}), true).m()"
        elif form == "assoc":
            d, call = f"struct {S} {{ x: uint<4> }} impl {S} {{ {mk}fn m(x: uint<4>) -> uint<4> {{ x ^ {k} }} }}", lambda a: f"{S}::m({a})"
        elif form == "infix":
            d, call = f"{mk}fn {n}(x: uint<4>, y: bool) -> uint<4> {{ x ^ {k} }}", lambda a: f"({a} `{n}` true)"
        elif form == "trait":
            d, call = f"trait T{n} {{ {mk}fn m{n}(self) -> uint<4>; }} struct {S} {{ x: uint<4> }} impl T{n} for {S} {{ {mk}fn m{n}(self) -> uint<4> {{ self.x ^ {k} }} }}", lambda a: f"{S}({a}).m{n}()"
        elif form == "generic":
            d, call = f"{mk}fn {n}<T>(x: T, y: bool) -> T {{ x }}", lambda a: f"({n}({a}, true) ^ {k})"
        elif form == "turbofish":
            d, call = f"{mk}fn {n}<#uint N>(x: uint<N>) -> uint<N> {{ x ^ {k} }}", lambda a: f"{n}::<4>({a})"
        elif form == "mod":
            d, call = f"mod {n} {{ pub {mk}fn f(x: uint<4>) -> uint<4> {{ x ^ {k} }} }}", lambda a: f"{n}::f({a})"
        elif form == "alias":
            d, call = f"mod {n} {{ pub {mk}fn f(x: uint<4>) -> uint<4> {{ x ^ {k} }} }} use {n}::f as a{n};", lambda a: f"a{n}({a})"
        else:
            # the standard library's
            if not unsafe:
                return self.callee(unsafe)
            d, call, k = "", lambda a: f"std::conv::transmute::<uint<4>, uint<4>>({a})", 0
        self.items.append(d)
        self.units[form, unsafe] = (call, k, form)
        return call, k, form

    def ctx(self, outer=None, value=None):
        self.k += 1
        c = z3.Bool(f"c{self.k}")
        self.cs.append(c == (value if outer is None else outer))
        return c

    def item(self, d):
        """a unit of its own: its body is a safe context, whatever surrounds it and whether or not it is unsafe itself"""
        keep, self.entity = self.entity, False
        c = self.ctx(value=z3.BoolVal(False))
        v, m = self.expr(c, d, ["x"])
        self.entity = keep
        return v, m

    def expr(self, c, d, scope, must=False):
        """text, and the value as a function of the scope's variables; all of them are the input xor a constant"""
        r = self.r
        if d <= 0:
            if r.random() < 0.45 and not must:
                v = r.choice(scope)
                return v, lambda m: m[v]
            unsafe = r.random() < 0.6
            v = r.choice(scope)
            if unsafe and must is not True:
                # mostly put it where it is allowed
                if r.random() < 0.75:
                    k = self.ctx(value=z3.BoolVal(True))
                    call, n, f = self.callee(True)
                    self.cs.append(k)
                    return f"unsafe {{ {call(v)} }}", lambda m: m[v] ^ n
                if r.random() < 0.7:
                    return v, lambda m: m[v]
            call, n, f = self.callee(unsafe)
            if unsafe:
                self.cs.append(c)
            return call(v), lambda m: m[v] ^ n
        k = r.randrange(15)
        sub = lambda c=c, s=scope: self.expr(c, d - 1, s)
        if k <= 3:
            return self.wrap("unsafe {{ {0} }}", self.expr(self.ctx(value=z3.BoolVal(True)), d - 1, scope))
        if k == 4:
            return self.wrap("{{ {0} }}", sub())
        if k == 5:
            n = self.name("v")
            e, fe = sub()
            b, fb = self.expr(c, d - 1, scope + [n])
            return f"{{ let {n} = {e}; {b} }}", lambda m: fb({**m, n: fe(m)})
        if k == 6:
            e, fe = sub()
            b, fb = sub()
            return f"({e} ^ {b})", lambda m: fe(m) ^ fb(m)
        if k == 7:
            e, fe = sub()
            a, fa = sub()
            b, fb = sub()
            return f"(if {e} == 3 {{ {a} }} else {{ {b} }})", lambda m: z3.If(fe(m) == 3, fa(m), fb(m))
        if k == 8:
            e, fe = sub()
            n = self.name("v")
            a, fa = sub()
            b, fb = self.expr(c, d - 1, scope + [n])
            return f"match {e} {{ 5 => {a}, {n} => {b} }}", lambda m: z3.If(fe(m) == 5, fa(m), fb({**m, n: fe(m)}))
        if k == 9:
            # the body of a lambda is safe until it says otherwise
            n = self.name("v")
            e, fe = sub()
            b, fb = self.expr(self.ctx(value=z3.BoolVal(False)), d - 1, scope + [n])
            f = self.name("f")
            return f"{{ let {f} = fn |{n}| {{ let {n}: uint<4> = {n}; {b} }}; {f}.call(({e},)) }}", lambda m: fb({**m, n: fe(m)})
        if k == 10:
            e, fe = sub()
            b, fb = sub()
            i = r.randrange(2)
            return f"({e}, {b}).{i}", lambda m: (fe, fb)[i](m)
        if k == 11:
            e, fe = sub()
            b, fb = sub()
            i = r.randrange(2)
            return f"[{e}, {b}][{i}]", lambda m: (fe, fb)[i](m)
        if k == 12:
            # a safe or unsafe unit applied to a nested expression
            u = r.random() < 0.4
            call, n, f = self.callee(u)
            e, fe = sub()
            if u:
                self.cs.append(c)
            return call(e), lambda m: fe(m) ^ n
        if k == 13:
            # a unit declared right here; items see no local variables
            n = self.name("i")
            mk = r.choice(["", "unsafe "])
            b, fb = self.item(d - 1)
            if r.random() < 0.4:
                # one branch is left out, but both have to be right
                z, fz = self.item(d - 1)
                b, fb = r.choice([(f"gen if 1 == 1 {{ {b} }} else {{ {z} }}", fb), (f"gen if 1 == 2 {{ {b} }} else {{ {z} }}", fz)])
            e, fe = sub()
            if mk:
                self.cs.append(c)
            self.items.append(f"{mk}fn {n}(x: uint<4>) -> uint<4> {{ {b} }}")
            return f"{n}({e})", lambda m: fb({"x": fe(m)})
        e, fe = sub()
        return f"({e} as uint<4>)", fe

    def wrap(self, t, x):
        return t.format(x[0]), x[1]


def case(q, r):
    p = Prog(r, f"{q}_")
    mk = r.random() < 0.3
    c = p.ctx(value=z3.BoolVal(False))
    e, f = p.expr(c, r.choice([1, 2, 3]), ["a"])
    top = f"t{q}"
    kind = "entity" if p.entity else "fn"
    src = "\n".join(p.items) + f"\n{kind} {top}(a: uint<4>) -> uint<4> {{ {e} }}\n"
    s = z3.Solver()
    s.add(p.cs)
    if s.check() == z3.sat:
        return Comb(top, src, top, [("a", U4)], U4, lambda a: f({"a": a}))
    return Verdict(top, src, False, "an unsafe unit is used in a safe context", formula=(p.cs, True))


KINDS = [
    ("fn", "fn m(self) -> bool", "{ true }"), ("arg", "fn m(self, a: uint<3>) -> uint<3>", "{ a }"), ("gen", "fn m<T>(self, a: T) -> T", "{ a }"),
    ("entity", "entity m(self, clk: clock) -> bool", "{ true }"), ("pipe", "pipeline(1) m(self, clk: clock) -> bool", "{ reg; true }"), ("static", "fn m(a: bool) -> bool", "{ a }"),
]
# how a pipeline or a method of a generic value is used
USES = [
    ("pipe", "unsafe pipeline(1) u(clk: clock, a: bool) -> bool {{ reg; a }}\npipeline(1) t(clk: clock, a: bool) -> bool {{ let x = {0}inst(1) u(clk, a){1}; reg; x }}"),
    ("pipein", "unsafe fn u(a: bool) -> bool {{ a }}\npipeline(2) t(clk: clock, a: bool) -> bool {{ reg; let x = {0}u(a){1}; reg; x }}"),
    ("regval", "unsafe fn u(a: bool) -> bool {{ a }}\nentity t(clk: clock, a: bool) -> bool {{ reg(clk) x = {0}u(a){1}; x }}"),
    ("regrst", "unsafe fn u(a: bool) -> bool {{ a }}\nentity t(clk: clock, a: bool) -> bool {{ reg(clk) x reset({0}u(a){1}: false) = a; x }}"),
    ("regrstv", "unsafe fn u(a: bool) -> bool {{ a }}\nentity t(clk: clock, a: bool) -> bool {{ reg(clk) x reset(a: {0}u(a){1}) = a; x }}"),
    ("regclk", "unsafe fn u(a: clock) -> clock {{ a }}\nentity t(clk: clock, a: bool) -> bool {{ reg({0}u(clk){1}) x = a; x }}"),
    ("assert", "unsafe fn u(a: bool) -> bool {{ a }}\nfn t(a: bool) -> bool {{ assert {0}u(a){1}; a }}"),
    ("set", "unsafe fn u(a: bool) -> bool {{ a }}\nentity t(a: bool, o: inv bool) {{ set o = {0}u(a){1}; }}"),
    ("settarget", "unsafe fn u(a: inv bool) -> inv bool {{ a }}\nentity t(a: bool, o: inv bool) {{ set {0}u(o){1} = a; }}"),
    ("stagecond", "unsafe fn u(a: bool) -> bool {{ a }}\npipeline(1) t(clk: clock, a: bool) -> bool {{ reg[{0}u(a){1}]; a }}"),
    ("guard", "unsafe fn u(a: bool) -> bool {{ a }}\nfn t(a: bool) -> bool {{ match a {{ x if {0}u(x){1} => true, _ => false }} }}"),
    ("bound", "trait T {{ unsafe fn m(self) -> bool; }}\nimpl T for bool {{ unsafe fn m(self) -> bool {{ self }} }}\nfn g<X: T>(x: X) -> bool {{ {0}x.m(){1} }}\nfn t(a: bool) -> bool {{ g(a) }}"),
    ("impltrait", "trait T {{ unsafe fn m(self) -> bool; }}\nimpl T for bool {{ unsafe fn m(self) -> bool {{ self }} }}\nfn g(x: impl T) -> bool {{ {0}x.m(){1} }}\nfn t(a: bool) -> bool {{ g(a) }}"),
    ("blanket", "trait T {{ unsafe fn m(self) -> bool; }}\nimpl<#uint N> T for [bool; N] {{ unsafe fn m(self) -> bool {{ true }} }}\nfn t(a: bool) -> bool {{ {0}[a, a].m(){1} }}"),
    ("self", "struct S {{ a: bool }}\nimpl S {{ unsafe fn m(self) -> bool {{ self.a }} fn n(self) -> bool {{ {0}self.m(){1} }} }}\nfn t(a: bool) -> bool {{ S(a).n() }}"),
    ("unsafein", "unsafe fn u(a: bool) -> bool {{ a }}\nunsafe fn v(a: bool) -> bool {{ {0}u(a){1} }}\nfn t(a: bool) -> bool {{ unsafe {{ v(a) }} }}"),
    ("extern", "unsafe extern fn u(a: bool) -> bool;\nfn t(a: bool) -> bool {{ {0}u(a){1} }}"),
    ("lambda", "unsafe fn u(a: bool) -> bool {{ a }}\nfn t(a: bool) -> bool {{ let f = fn |x| {{ {0}u(x){1} }}; f.call((a,)) }}"),
    ("lambda_e", "unsafe fn u(a: bool) -> bool {{ a }}\nentity t(clk: clock, a: bool) -> bool {{ let f = entity |clk, x| {{ {0}u(x){1} }}; f.inst call(clk, (a,)) }}"),
    ("view", "struct S {{ a: bool }}\nimpl S {{ unsafe fn m(&self) -> bool {{ *self.a }} }}\nfn t(a: bool) -> bool {{ {0}S(a).m(){1} }}"),
    ("recursive", "unsafe fn u<#uint N>(a: bool) -> bool {{ gen if N == 0 {{ a }} else {{ {0}u::<{{N - 1}}>(a){1} }} }}\nfn t(a: bool) -> bool {{ unsafe {{ u::<3>(a) }} }}"),
    ("genin", "unsafe fn u(a: bool) -> bool {{ a }}\nfn g<#uint N>(a: bool) -> bool {{ {0}gen if N == 1 {{ u(a) }} else {{ !u(a) }}{1} }}\nfn t(a: bool) -> bool {{ g::<2>(a) }}"),
    ("gencond", "unsafe fn u(a: bool) -> bool {{ a }}\nfn g<#uint N>(a: bool) -> bool {{ gen if N == 1 {{ {0}u(a){1} }} else {{ a }} }}\nfn t(a: bool) -> bool {{ g::<1>(a) }}"),
    ("arg", "unsafe fn u(a: bool) -> bool {{ a }}\nfn v(a: bool) -> bool {{ a }}\nfn t(a: bool) -> bool {{ v({0}u(a){1}) }}"),
    ("iflet", "unsafe fn u(a: Option<bool>) -> Option<bool> {{ a }}\nfn t(a: Option<bool>) -> bool {{ if let Some(x) = {0}u(a){1} {{ x }} else {{ false }} }}"),
    ("index", "unsafe fn u(a: uint<1>) -> uint<1> {{ a }}\nfn t(a: [bool; 2], i: uint<1>) -> bool {{ a[{0}u(i){1}] }}"),
    ("mem", "use std::mem::clocked_memory; use std::mem::read_memory;\nunsafe fn u(a: bool) -> bool {{ a }}\nentity t(clk: clock, a: bool, i: uint<1>) -> bool {{ let m: Memory<bool, 2> = inst clocked_memory(clk, [({0}u(a){1}, i, a)]); inst read_memory(m, i) }}"),
]


def p37(tier, rng):
    out = []
    for q in range(220 if tier == "quick" else 2500):
        out.append(case(q, random.Random(rng.getrandbits(64))))
    for n, t in USES:
        out.append(Verdict(f"use_{n}_u", t.format("unsafe { ", " }") + "\n", True, "an unsafe unit in an unsafe block"))
        out.append(Verdict(f"use_{n}_s", t.format("", "") + "\n", False, "an unsafe unit in a safe context"))
    for n, head, body in KINDS:
        for tu in (False, True):
            for iu in (False, True):
                src = f"trait T {{ {'unsafe ' * tu}{head}; }}\nimpl T for bool {{ {'unsafe ' * iu}{head} {body} }}\n"
                a, b = z3.Bools("a b")
                out.append(Verdict(f"impl_{n}{int(tu)}{int(iu)}", src, tu == iu, "an implementation is as safe as the trait says", formula=([a == tu, b == iu, a == b], tu != iu)))
    return out
