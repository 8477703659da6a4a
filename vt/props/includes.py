"""P38: included files mean what they contain."""
import os
import random
import re
import z3
from ..check import Comb, Verdict
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst

U8 = UInt(8)


class IncGen(Gen):
    """A generator that moves parts of expressions to files of their own."""

    def expr(self, t, d, sc):
        e = super().expr(t, d, sc)
        if not hasattr(self, "files"):
            self.files = []
        if self.r.random() < self.rate and len(self.files) < 12:
            self.files.append(e.s)
            return Ex(e.ty, f'include!("@{len(self.files) - 1}@")', e.v)
        return e


def place(r, text, files):
    """gives every file a place; paths are relative to the file they are written in"""
    where = {}
    dirs = ["src", "src/a", "src/a/b", "src/c", "other", "other/a", "."]
    # nothing but the contents matters, so equal names in different folders are as good as any
    for k in range(len(files)):
        while True:
            p = os.path.normpath(os.path.join(r.choice(dirs), r.choice(["x", "x.spade", "y.txt", "z 1.inc", "t.spade", f"f{k}.spade"])))
            if p not in where.values() and p != "src/t.spade":
                break
        where[k] = p

    def rel(text, at):
        def one(m):
            p = os.path.relpath(where[int(m.group(1))], os.path.dirname(at) or ".")
            if "/" not in p and r.random() < 0.3:
                p = "./" + p
            return p

        return re.sub(r"@(\d+)@", one, text)

    side = []
    for k, s in enumerate(files):
        s = rel(s, where[k])
        s = r.choice(["", "", "\n", "// a comment\n", "/* } */ "]) + s + r.choice(["", "", "\n", "\n\n", " // ;", "\n/* + */\n"])
        side.append([where[k], s.encode().hex()])
    return rel(text, "src/t.spade"), side


def composite(q, r, depth):
    g = IncGen(r, q, Opts(maxw=12))
    g.files, g.rate = [], r.choice([0.05, 0.1, 0.2])
    g.entity = r.random() < 0.5
    g.declare_types(r.randint(0, 2))
    ins = [(n, g.small_type(2)) for n in "abcd"[: r.randint(2, 4)]]
    pv = [fresh(T) for _, T in ins]
    t = g.small_type(2)
    e = g.expr(t, depth, [(n, Ex(T, n, v)) for (n, T), v in zip(ins, pv)])
    body = e.s
    if not g.files:
        g.files.append(body)
        body = 'include!("@0@")'
    top = f"top{q}"
    sig = ", ".join(f"{n}: {T.src}" for n, T in ins)
    text, side = place(r, "\n".join(g.items) + f"\n{'entity' if g.entity else 'fn'} {top}({sig}) -> {t.src} {{\n    {body}\n}}\n", g.files)

    def f(**vals):
        pairs = []
        for (n, T), p in zip(ins, pv):
            pairs += list(zip(leaves(p), leaves(vals[n])))
        return subst(e.v, pairs)

    return Comb(top, text, top, ins, t, f, opts=dict(side=side), solo=True)


def data(q, r):
    """the bytes of a file as an array"""
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 33])
    b = bytes(r.choice([r.randrange(256), 0, 255, 128, 10, 13, 34, 0x80, 0xC3]) for _ in range(n))
    p = r.choice(["src/d.bin", "src/sub/d", "d.bin", "other/d.spade"])
    inc = f'include_bytes!("{os.path.relpath(p, "src")}")'
    side = [[p, b.hex()]]
    if r.random() < 0.2:
        # from a file that is itself somewhere else
        w = r.choice(["src/sub/e.spade", "other/e.spade", "e"])
        side.append([w, f'include_bytes!("{os.path.relpath(p, os.path.dirname(w) or ".")}")'.encode().hex()])
        inc = f'include!("{os.path.relpath(w, "src")}")'
    A = Array(U8, n)
    k = r.randrange(5)
    if n == 1 and k == 1:
        k = 0
    top = f"d{q}"
    iw = max(1, (n - 1).bit_length())
    if k == 0:
        return Comb(top, f"fn {top}() -> [uint<8>; {n}] {{ {inc} }}\n", top, [], A, lambda: [bv(x, 8) for x in b], opts=dict(side=side), solo=True)
    if k == 1:
        T = UInt(iw)
        return Comb(top, f"fn {top}(i: uint<{iw}>) -> uint<8> {{ let a = {inc}; a[i] }}\n", top, [("i", T)], U8, lambda i: pick(b, i), opts=dict(side=side), solo=True, pre=lambda i: [z3.ULT(z3.ZeroExt(8, i), n)])
    if k == 2:
        return Comb(top, f"fn {top}(x: uint<8>) -> [uint<8>; {n + 1}] {{ {inc}.concat([x]) }}\n", top, [("x", U8)], Array(U8, n + 1), lambda x: [bv(v, 8) for v in b] + [x], opts=dict(side=side), solo=True)
    if k == 3:
        m = r.randrange(n)
        return Comb(top, f"fn {top}() -> [uint<8>; {n - m}] {{ {inc}[{m}..{n}] }}\n", top, [], Array(U8, n - m), lambda: [bv(v, 8) for v in b[m:]], opts=dict(side=side), solo=True)
    d = r.choice([-1, 1])
    return Verdict(top, f"fn {top}() -> [uint<8>; {n + d}] {{ {inc} }}\n", False, "one element per byte", opts=dict(side=side), formula=([z3.IntVal(n) == n + d], True))


def pick(b, i):
    v = bv(b[0], 8)
    for k in range(1, len(b)):
        v = z3.If(i == k, bv(b[k], 8), v)
    return v


S = "fn f(a: uint<8>, b: uint<8>) -> uint<8> {{ {0} }}\n"
# name, the body, the included file, is it a program
FORMS = [
    ("ok", 'include!("x")', "a ^ b", True), ("paren", 'include!("x") ^ a', "(a ^ b)", True), ("block", 'include!("x")', "{ let c = a; c ^ b }", True), ("nl", 'include!("x")', "\n\na\n^\nb\n", True),
    ("path", 'core::macros::include!("x")', "a", True), ("missing", 'include!("y")', "a", False), ("ident", "include!(x)", "a", False), ("two", 'include!("x" "x")', "a", False), ("none", "include!()", "a", False),
    ("empty", 'include!("x")', "", False), ("comment", 'include!("x")', "// a", False), ("type", 'include!("x")', "true", False), ("scope", 'include!("x")', "c", False), ("unfinished", 'include!("x")', "a ^", False),
    ("stmt", 'include!("x")', "let c = a;", False), ("item", 'include!("x")', "fn g() -> bool { true }", False), ("rest", 'include!("x")', "a b", False), ("rest2", 'include!("x")', "a; b", False), ("rest3", 'include!("x")', "a } fn g(a: uint<8>) -> uint<8> { a", False),
    ("rest4", 'include!("x")', "a, b", False), ("rest5", 'include!("x")', "a)", False), ("rest6", 'include!("x")', "a\n^ b\nlet", False), ("dir", 'include!(".")', "a", False), ("bmissing", '{ let x = include_bytes!("y"); a }', "a", False),
    ("bnone", "{ let x = include_bytes!(); a }", "a", False), ("bident", "{ let x = include_bytes!(x); a }", "a", False), ("other", 'unknown!("x")', "a", False), ("btype", '{ let x: [uint<4>; 1] = include_bytes!("x"); a }', "a", False),
    ("blen", '{ let x: [uint<8>; 2] = include_bytes!("x"); a }', "a", False), ("bok", '{ let x: [uint<8>; 1] = include_bytes!("x"); x[0] }', "a", True), ("utf8", 'include!("x")', b"a \xff", False),
]


def p38(tier, rng):
    out = []
    quick = tier == "quick"
    for q in range(150 if quick else 1200):
        r = random.Random(rng.getrandbits(64))
        out.append(composite(q, r, r.choice([2, 3, 4] if quick else [3, 4, 5])))
    for q in range(40 if quick else 300):
        out.append(data(q, random.Random(rng.getrandbits(64))))
    for n, body, text, ok in FORMS:
        text = text if isinstance(text, bytes) else text.encode()
        out.append(Verdict(f"form_{n}", S.format(body), ok, "what a file that is included has to be", opts=dict(side=[["src/x", text.hex()]])))
    for n, src, text, ok in UNITS:
        out.append(Verdict(f"unit_{n}", src, ok, "what a unit of this kind can contain", opts=dict(side=[["src/x", text.encode().hex()]])))
    # the operators around an included expression do not take it apart
    for k, (t, T, f) in enumerate([
        ("trunc({0} * b)", U8, lambda a, b: (a + b) * b), ("{0} ^ b & a", U8, lambda a, b: (a + b) ^ (b & a)), ("a ^ {0} & b", U8, lambda a, b: a ^ ((a + b) & b)), ("~{0}", U8, lambda a, b: ~(a + b)),
        ("!({0} == b)", Bool, lambda a, b: z3.If(a + b == b, bv(0, 1), bv(1, 1))), ("{0} == b", Bool, lambda a, b: z3.If(a + b == b, bv(1, 1), bv(0, 1))), ("b >> {0}", U8, lambda a, b: z3.LShR(b, a + b)),
        ("({0}, a).0", U8, lambda a, b: a + b), ("if {0} == a { b } else { {0} }", U8, lambda a, b: z3.If(a + b == a, b, a + b)),
    ]):
        top = f"prec{k}"
        body = t.replace("{0}", 'include!("x")')
        out.append(Comb(top, f"fn {top}(a: uint<8>, b: uint<8>) -> {T.src} {{ {body} }}\n", top, [("a", U8), ("b", U8)], T, f, opts=dict(side=[["src/x", b"a +. b".hex()]]), solo=True))
    return out


SUB = "entity sub(clk: clock, x: uint<8>) -> uint<8> { reg(clk) r = x; r }\nstruct S { v: uint<8> }\nimpl S { entity m(self, clk: clock) -> uint<8> { reg(clk) r = self.v; r } }\n"
FN = SUB + 'fn f(clk: clock, a: uint<8>) -> uint<8> { include!("x") }\n'
ENT = SUB + 'entity f(clk: clock, a: uint<8>) -> uint<8> { include!("x") }\n'
PIPE = SUB + 'pipeline(2) f(clk: clock, a: uint<8>) -> uint<8> { reg; \'st reg; include!("x") }\n'
UNITS = [
    ("inst_fn", FN, "inst sub(clk, a)", False), ("inst_ent", ENT, "inst sub(clk, a)", True), ("inst_pipe", PIPE, "inst sub(clk, a)", True), ("minst_fn", FN, "S(a).inst m(clk)", False), ("minst_ent", ENT, "S(a).inst m(clk)", True),
    ("minst_pipe", PIPE, "S(a).inst m(clk)", True), ("reg_fn", FN, "{ reg(clk) r = a; r }", False), ("reg_ent", ENT, "{ reg(clk) r = a; r }", True), ("reg_pipe", PIPE, "{ reg(clk) r = a; r }", True),
    ("stage_fn", FN, "stage(-1).a", False), ("stage_ent", ENT, "stage(-1).a", False), ("stage_pipe", PIPE, "stage(-1).a", True), ("stage_label", PIPE, "stage(st).a", True), ("stage_far", PIPE, "stage(-3).a", False),
    ("stage_reg", PIPE, "{ reg; a }", False), ("semi", ENT, "{ a a }", False), ("semi2", ENT, "{ a let c = a; c }", False), ("semi3", FN, "{ let _ = a; a }", True), ("lambda", FN, "(fn |x| x ^ a).call((a,))", True),
    ("lambda_inst", FN, "(fn |x| { inst sub(clk, x) }).call((a,))", False), ("lambda_reg", FN, "(fn |x| { reg(clk) r = x; r }).call((a,))", False), ("genif", FN, "gen if 1 == 1 { a } else { a ^ 1 }", None),
]
UNITS = [u for u in UNITS if u[3] is not None]

