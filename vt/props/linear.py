"""P19: every part of a value that flows backwards is driven exactly once, or the program is rejected."""
import random
import z3
from ..check import Verdict
from ..spec import *
from . import ports
from .ports import PGen, Inv, PTuple, PArr, channel


class LaxNet(ports.Net):
    """a program with a fault has no reference value: only its shape matters"""

    def bind(self, c, v):
        c.bound = v
        c.__dict__.pop("direct", None)

    def unbind(self, c):
        c.bound = None
        c.__dict__.pop("direct", None)


def ends(t, back=False):
    """number of wires a value of type t has to drive; inverting twice is not inverting"""
    if isinstance(t, Ty):
        return int(back and t.w > 0)
    if isinstance(t, Inv):
        return ends(t.inner, not back)
    return sum(ends(m, back) for m in t.members)


class FGen(PGen):
    """a valid program, but for one fault at step `at`: a linear value used twice, or not at all"""

    def __init__(self, r, uid, kind, at, **kw):
        super().__init__(r, uid, **kw)
        self.kind, self.at, self.steps, self.hit = kind, at, 0, None
        if kind:
            self.net = LaxNet()

    def step(self, env, d):
        self.steps += 1
        if self.kind and self.hit is None and self.steps >= self.at and env["hs"]:
            i = self.r.randrange(len(env["hs"]))
            h = env["hs"][i]
            self.hit = ends(h[1])
            if self.kind == "drop":
                del env["hs"][i]
            else:
                env["hs"].append(h)
        else:
            super().step(env, d)


def uses_formula(n, hit, kind):
    """is there a wire which is not used exactly once?"""
    a = z3.K(z3.IntSort(), z3.IntVal(1))
    for i in range(hit):
        a = z3.Store(a, i, 2 if kind == "dup" else 0)
    i = z3.Int("wire")
    return [i >= 0, i < n, z3.Select(a, i) != 1]


def program(seed, uid, kind, at):
    r = random.Random(seed)
    g = FGen(r, uid, kind, at, budget=r.choice([6, 10, 16]))
    entity = r.random() < 0.8
    g.g.declare_types(r.randint(0, 2))
    params = []
    for _ in range(r.randint(1, 3)):
        t = g.ptype(2) if r.random() < 0.6 else g.data()
        v, c = channel(t, g.net)
        params.append((g.nm("i"), t, v))
    try:
        body, ret, rep = g.body(params, 2, entity, ret=True)
    except (RecursionError, ports.Loop):
        return None
    if kind and not g.hit:
        return None
    top = f"ln{uid}"
    rt = f" -> {ret.src}" if ret is not None else ""
    if ret is None and not any(ports.bwd(t).w for _, t, _ in params):
        return None
    g.items.append(f"{'entity' if entity else 'fn'} {top}({', '.join(f'{n}: {t.src}' for n, t, _ in params)}){rt} {{ {body} }}")
    n = max(g.hit or 0, 1)
    return Verdict(f"{kind or 'ok'}{uid}", "\n".join(g.items) + "\n", not kind,
                   "every inverted wire is used exactly once" if not kind else f"an inverted wire is {'never used' if kind == 'drop' else 'used twice'}",
                   formula=(uses_formula(n, g.hit or 0, kind), not kind))


# accepted exactly when every wire is driven once: forms the random programs do not reach
FORMS = [
    ('lam_arg', True, 'entity t(p: inv bool) -> bool { let f = fn |q| { set q = true; true }; f.call((p,)) }'),
    ('lam_arg_drop', False, 'entity t(p: inv bool) -> bool { let f = fn |q| { true }; f.call((p,)) }'),
    ('lam_pass', True, 'fn app<F>(f: F) -> bool where F: Fn<(bool,), bool> { f.call((true,)) } fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; app(f) }'),
    ('lam_pass0', False, 'fn app<F>(f: F) -> bool where F: Fn<(bool,), bool> { true } fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; app(f) }'),
    ('lam_pass2', False, 'fn app<F>(f: F) -> bool where F: Fn<(bool,), bool> { f.call((true,)) ^^ f.call((false,)) } fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; app(f) }'),
    ('lam_tuple', True, 'fn t(p: (bool, inv bool)) -> bool { let f = fn |x| { set p.1 = x; true }; f.call((true,)) ^^ p.0 }'),
    ('method', True, 'struct S { p: inv bool, d: bool } impl S { fn m(self) -> bool { set self.p = self.d; self.d } } fn t(s: S) -> bool { s.m() }'),
    ('method2', False, 'struct S { p: inv bool, d: bool } impl S { fn m(self) -> bool { set self.p = self.d; self.d } } fn t(s: S) -> bool { s.m() ^^ s.m() }'),
    ('reset_use', True, 'entity t(c: clock, p: inv bool) -> bool { reg(c) x reset ({set p = true; x}: false) = true; x }'),
    ('reset_use2', False, 'entity t(c: clock, p: inv bool) -> bool { reg(c) x reset ({set p = true; x}: {set p = false; x}) = true; x }'),
    ('set_in_set', True, 'entity t(c: clock, p: inv bool, q: inv bool) -> bool { set {set p = true; q} = true;  true }'),
    ('inspect2', False, 'entity t(p: inv bool) -> bool { let (x, y) = p.inspect(); set y = true; set p = x; true }'),
    ('concat', True, 'entity t(p: [inv bool; 2], q: [inv bool; 2]) -> [inv bool; 4] { p `concat_arrays` q }'),
    ('transport', False, 'entity e(p: inv bool) -> bool { set p = true; true } entity t(p: inv bool) -> bool { inst e(p) && inst e(p) }'),
    ('shortnamed', False, 'entity e(p: inv bool) -> bool { set p = true; true } entity t(p: inv bool) -> bool { inst e$(p) && inst e$(p) }'),
    ('index_whole', True, 'fn t(p: [(bool, inv bool); 2]) -> bool { set p[0].1 = true; set p[1].1 = true; p[0].0 }'),
    ('index_read', True, 'fn t(p: [(bool, inv bool); 2]) -> ([(bool, inv bool); 2], bool) { (p, p[0].0) }'),
    ('index_two', False, 'fn t(p: [(bool, inv bool); 2]) -> bool { let (a, b) = p[0]; let (c, d) = p[0]; set b = true; set d = true; a }'),
    ('assert_double', False, 'fn f(p: inv bool) -> bool { set p = false; true } entity t(c: clock, p: inv bool) -> bool { set p = true; assert f(p); true }'),
    ('assert_only', True, 'fn f(p: inv bool) -> bool { set p = false; true } entity t(c: clock, p: inv bool) -> bool { assert f(p); true }'),
    ('deref_double', False, 'entity t(p: inv bool) -> bool { let x = &p; set *x = true; set p = false; true }'),
    ('deref_name', False, 'entity t(p: inv bool) -> bool { let x = &p; let y = *x; set y = true; set p = false; true }'),
    ('decl_before', True, 'entity t(a: bool) -> bool { decl p; set p = a; let (f, p) = port(); f }'),
    ('decl_both', False, 'entity t(a: bool) -> bool { decl p; set p = a; let (f, p) = port(); set p = !a; f }'),
    ('decl_none', False, 'entity t(a: bool) -> bool { decl p; let (f, p): (bool, inv bool) = port(); f }'),
    ('decl_after', True, 'entity t(a: bool) -> bool { decl p; let (f, p) = port(); set p = !a; f }'),
    ('reg_pair', False, 'entity t(c: clock, p: (bool, inv bool)) -> bool { reg(c) q = p; set q.1 = true; q.0 }'),
    ('lam_once', True, 'fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; f.call((true,)) }'),
    ('lam_twice', False, 'fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; f.call((true,)) && f.call((false,)) }'),
    ('lam_zero', False, 'fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; true }'),
    ('lam_and', False, 'fn t(p: inv bool) -> bool { let f = fn |x| { set p = x; true }; set p = true; f.call((true,)) }'),
    ('lam_unused_cap', False, 'fn t(p: inv bool) -> bool { let f = fn |x| { let y = &p; true }; set p = true; f.call((true,)) }'),
    ('lam_local', True, 'fn t(a: bool) -> bool { let f = fn |x| { let (f, b) = port(); set b = x; f }; f.call((a,)) && f.call((!a,)) }'),
    ('lam_shadow_arg', True, 'fn t(a: bool, p: inv bool) -> bool { let f = fn |p| { p && true }; set p = a; f.call((a,)) }'),
    ('lam_shadow_let', True, 'fn t(a: bool, p: inv bool) -> bool { let f = fn |x| { let p = x; p && true }; set p = a; f.call((a,)) }'),
    ('lam_shadow_tuple', True, 'fn t(a: bool, p: inv bool) -> bool { let f = fn |(p, q)| { let _: bool = q; p && true }; set p = a; f.call(((a, a),)) }'),
    ('lam_shadow_match', True, 'fn t(a: Option<bool>, p: inv bool) -> bool { let f = fn |x| { match x { Some(p) => p, None => true } }; set p = true; f.call((a,)) }'),
    ('lam_shadow_unset', False, 'fn t(a: bool, p: inv bool) -> bool { let f = fn |p| { p && true }; f.call((a,)) }'),
    ('lam_shadow_used', False, 'fn t(a: bool, p: inv bool) -> bool { let f = fn |x| { set p = x; let p = x; p && true }; set p = a; f.call((a,)) }'),
    ('lam_map', False, 'fn t(p: inv bool) -> [bool; 2] { [true, false].map(fn |x| { set p = x; x }) }'),
    ('lam_map1', True, 'fn t(p: inv bool) -> [bool; 1] { [true].map(fn |x| { set p = x; x }) }'),
    ('enum_inv', False, 'enum E { A{p: inv bool}, B } fn t(p: inv bool) -> bool { let e = E::A(p); true }'),
    ('opt_inv', False, 'fn t(p: inv bool) -> bool { let e = Some(p); true }'),
    ('opt_inv2', False, 'fn t(p: inv bool) -> bool { let e = Some(p); match e { Some(q) => {set q = true; true}, None => true} }'),
    ('opt_param', False, 'fn t(p: Option<inv bool>) -> bool { true }'),
    ('gen_dup', False, 'fn d<T>(x: T) -> (T, T) { (x, x) } fn t(p: inv bool) -> bool { let (a, b) = d(p); set a = true; set b = false; true }'),
    ('gen_drop', False, 'fn d<T>(x: T) -> bool { true } fn t(p: inv bool) -> bool { d(p) }'),
    ('gen_opt', False, 'fn d<T>(x: T) -> Option<T> { Some(x) } fn t(p: inv bool) -> bool { let x = d(p); true }'),
    ('at', False, 'fn t(p: (bool, inv bool)) -> bool { let q @ (x, r) = p; set r = true; set q.1 = x; x }'),
    ('at2', False, 'fn t(p: (bool, inv bool)) -> bool { let q @ (x, r) = p; set r = true; x }'),
    ('idx_oob', False, 'fn t(p: [inv bool; 2]) -> bool { set p[0] = true; set p[2] = true; set p[1] = true; true }'),
    ('stmt', False, 'fn t(p: inv bool) -> bool { p; true }'),
    ('ret_part', True, 'fn t(p: (inv bool, inv bool)) -> inv bool { set p.0 = true; p.1 }'),
    ('ret_part_d', False, 'fn t(p: (inv bool, inv bool)) -> inv bool { set p.1 = true; p.1 }'),
    ('if_one', True, 'fn t(c: bool, p: inv bool) -> bool { if c { set p = true; true } else { false } }'),
    ('tyif', True, 'fn t<#uint N>(p: inv bool) -> bool { gen if N == 1 { set p = true; true } else { true } } fn u(p: inv bool) -> bool { t::<1>(p) }'),
    ('tyif2', False, 'fn t<#uint N>(p: inv bool) -> bool { gen if N == 1 { set p = true; true } else { true } } fn u(p: inv bool) -> bool { t::<2>(p) }'),
]


# everywhere a value can be written: U is a bool, N an uint<1>, M an int<2> and I something of `inv bool`, in which the wire is driven
PRE = """fn u(p: inv bool) -> bool { set p = true; true }
fn un(p: inv bool) -> uint<1> { set p = true; 1 }
fn us(p: inv bool) -> int<2> { set p = true; 1 }
fn ui(p: inv bool) -> (bool, inv bool) { let (f, b) = port(); set p = f; (true, b) }
struct S { x: bool } impl S { fn m(self, y: bool) -> bool { self.x ^^ y } fn k(x: bool) -> bool { x } entity n(self, c: clock, y: bool) -> bool { y } }
fn two(x: bool, y: bool) -> bool { x } entity en(c: clock, x: bool) -> bool { x } pipeline(1) pi(c: clock, x: bool) -> bool { reg; x }
fn id<T>(x: T) -> T { x }
"""
PLACES = [
    "U", "if U { a } else { b }", "if a { U } else { b }", "if a { b } else { U }", "match U { true => a, false => b }", "match a { true => U, false => b }", "match a { true => b, false => U }", "match a { x if U => x, y => b }",
    "match (a, U) { (true, x) => x, (false, x) => b }", "if let true = U { a } else { b }", "if let true = a { U } else { b }", "[a, b][N]", "[U, a][1]", "[a, U][0]", "[U, a][0..1][0]", "[[a, U], [a, b]][1][0]", "[U; 1][0]", "(U, a).1", "(a, U).0",
    "S(U).x", "S$(x: U).x", "S(U).m(a)", "S(a).m(U)", "S(a).m$(y: U)", "S(a).inst n(c, U)", "S::k(U)", "two(U, a)", "two(a, U)", "two$(y: U, x: a)", "inst en(c, U)", "(N + 1u1) == 1", "(1u1 + N) == 1", "(N - 1u1) == 1", "(N * 1u1) == 1", "(1u1 * N) == 1", "(N << 1u1) == 0",
    "(1u1 << N) == 0", "(1u1 >> N) == 0", "(-M) == 1", "(M / 1i2) == 1", "(N / 1u1) == 1", "(N % 1u1) == 1", "U && a", "a && U", "a || U", "a ^^ U", "!U", "(~N) == 1", "N == 1", "1 == N", "N != 1", "N < 1", "1 >= N", "(N & 1) == 1", "(1 | N) == 1", "(N +. 1u1) == 1", "(1u1 -. N) == 1",
    "*(&U)", "(U) as bool", "{ U }", "{ let x = U; x }", "{ let _ = U; a }", "{ let (x, y) = (U, a); y }", "(fn |x| x).call((U,))", "(fn |x| x && U).call((a,))", "id(U)", "id::<bool>(U)", "Some(U).unwrap_or(a)", "match Some(U) { Some(x) => x, None => a }", "{ reg(c) x = U; x }",
    "{ reg(c) x reset (U: a) = b; x }", "{ reg(c) x reset (a: U) = b; x }", "{ let (f, q) = port(); set q = U; f }", "{ assert U; a }", "{ let (x, q) = I; set q = x; x }", "{ let t = I; set t.1 = a; t.0 }", "{ set I.1 = a; b }",
    "N `two_n` 1u1", "[N, 1u1].map(fn |x| x)[1] == 1", "{ let x = { let y = U; y ^^ a }; x && b }", "(((U)))", "{ type T = bool; let x: T = U; x }",
]


def places():
    out = []
    for k, t in enumerate(PLACES):
        pre = PRE + ("fn two_n(x: uint<1>, y: uint<1>) -> bool { x == y }\n" if "two_n" in t else "")
        inst = {"U": "u(p)", "N": "un(p)", "M": "us(p)", "I": "ui(p)"}
        used = {"U": "true", "N": "1u1", "M": "1i2", "I": "{ let (ff, bb) = port(); (ff, bb) }"}
        put = lambda d: "".join(d.get(c, c) if c in "UNMI" and (i == 0 or not (t[i - 1].isalnum() or t[i - 1] in "_:'")) and (i + 1 == len(t) or not (t[i + 1].isalnum() or t[i + 1] == "_" or t[i + 1 : i + 3] == "::")) else c for i, c in enumerate(t))
        head = "entity t(c: clock, a: bool, b: bool, p: inv bool) -> bool { "
        end = " }"
        one = head + put(inst) + end
        n = 0
        for kind, src, want in [("once", one, True), ("never", head + put(used) + end, False), ("before", head.replace("{ ", "{ let zz = u(p); ", 1) + put(inst) + end, False), ("beforeonly", head.replace("{ ", "{ let zz = u(p); ", 1) + put(used) + end, True),
                                ("after", head + "let rr = " + put(inst) + "; set p = true; rr }", False)]:
            out.append(Verdict(f"pl{k}_{kind}", pre + src + "\n", want, "every inverted wire is driven exactly once" if want else "some inverted wire is not driven exactly once", formula=(uses_formula(1, 0 if want else 1, "drop" if kind == "never" else "dup"), want)))
    return out


def p19(tier, rng):
    quick = tier == "quick"
    out = []
    q = 0
    while len(out) < (1200 if quick else 12000):
        q += 1
        kind = [None, "drop", "dup"][q % 3]
        c = program(rng.getrandbits(64), f"{q}", kind, rng.randint(1, 8))
        if c:
            out.append(c)
    out += places()
    out += [Verdict("f_" + k, s, w, "every inverted wire is driven exactly once" if w else "some inverted wire is not driven exactly once") for k, w, s in FORMS]
    return out
