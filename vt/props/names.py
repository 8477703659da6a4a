"""P21: the emitted netlist is legal whatever the names in the source are."""
import random
import re
import z3
from ..check import Comb, Seq, Verdict
from ..spec import *
from ..gen import Opts, program
from ..sym import bv
from .seq import machine, SeqCase

SPADE = set(
    "true false reg let decl inst reset initial if else match set pipeline stage entity trait impl for macro fn enum struct wire mod type use as assert "
    "mut inv pub where gen extern unsafe self Self lib std core int uint bool clock Option Some None Memory tri inout port in let "
    "concat trunc sext zext call map value super include default include_bytes".split()
)
# words that mean something in Verilog and SystemVerilog and nothing in Spade
VERILOG = (
    "module endmodule always always_ff always_comb assign begin end logic input output case endcase casez default function endfunction task "
    "for while signed unsigned integer real time string bit byte shortint longint parameter localparam generate genvar posedge negedge or and not xor "
    "nand nor buf force release disable wait event primitive table specify supply0 supply1 wand wor small large automatic class new interface "
    "modport package import export program property sequence cover assume unique priority void do break continue return const static virtual final "
    "union typedef var ref rand ifdef endif defparam deassign forever fork join repeat scalared vectored edge cell config library use_ design include "
    "is_ x z b h d o X Z".split()
)
VERILOG = [v for v in VERILOG if v not in SPADE and not v.endswith("_")]


def idents(src):
    """the names a program gives to things"""
    src = re.sub(r'"[^"]*"|#\[[^\]]*\]', "", src)
    own = set(re.findall(r"\b(?:fn|entity|pipeline\([^)]*\))\s+(\w+)", src))
    std = {x for x in re.findall(r"\.(?:inst(?:\([^)]*\))?\s+)?([a-zA-Z_]\w*)\s*(?:::<[^(]*>)?\(", src) if x not in own}
    std |= {x for p in re.findall(r"\w+(?:::\w+)+", src) for x in p.split("::") if p.startswith("std::")}
    out = []
    for x in re.findall(r"(?<![\w$])[a-zA-Z_]\w*", src):
        if x not in SPADE and x not in out and x not in std and x != "_":
            out.append(x)
    return out


def nasty(r, names, keep, kind):
    """a renaming of some of the names, one to one, to names that look like what a compiler would make up"""
    out = {}
    used = set(names)
    pool = [n for n in names if n not in keep]
    r.shuffle(pool)
    some = pool if r.random() < 0.5 else pool[: max(2, len(pool) // 2)]
    bases = [n for n in pool if n not in some] + ["lhs", "rhs", "x", "a", "self", "v", "output", "clk", "rst"]
    for n in some:
        b = r.choice(bases + list(out.values()))
        k = kind or r.random()
        for _ in range(20):
            c = r.random()
            if c < 0.22:
                new = r.choice(VERILOG)
            elif c < 0.4:
                new = b + r.choice(["_i", "_o", "_mut", "_n0", "_n1", "_n2", "_n3", "_n1_mut", "_i_i", "_n1_n1"])
            elif c < 0.5:
                new = b + r.choice(["_0", "_1", "_2", "_0_0"])
            elif c < 0.6:
                new = r.choice(["output__", "input__", "output___n1", "clk_i", "rst_i", "__vcd_file", "__top_module", "COCOTB_CODE", "s", "i"])
            elif c < 0.75:
                new = f"_e_{r.randint(1700, 2600)}" + r.choice(["", "", "", "_mut"])
            elif c < 0.85:
                new = r.choice(["_", "__", "e_", "_e_", "n_"]) + b
            else:
                new = b + r.choice(["_", "__", "_n", "_i_n1", "_"])
            if new not in used and new not in SPADE and new != "_" and new not in keep:
                break
        else:
            continue
        used.add(new)
        out[n] = new
    return out


def rename(src, m):
    return re.sub(r"#\[[^\]]*\]|(?<![\w$])[a-zA-Z_]\w*", lambda x: m.get(x.group(0), x.group(0)), src)


def comb_case(r, uid):
    src, top, ins, t, f = program(r, uid, depth=r.choice([2, 3, 3, 4]), opts=Opts(maxw=8, budget=70, let=8, call=5))
    m = nasty(r, idents(src), {top}, None)
    back = {m.get(n, n): n for n, _ in ins}
    ins2 = [(m.get(n, n), T) for n, T in ins]
    return Comb(top, rename(src, m), top, ins2, t, lambda **v: f(**{back[n]: x for n, x in v.items()}))


def seq_case(r, uid):
    src, top, m = machine(r, uid, nclk=r.choice([1, 1, 2]))
    mp = nasty(r, idents(src), {top}, None)
    src = rename(src, mp)
    m.inputs = [(mp.get(n, n), t, v) for n, t, v in m.inputs]
    m.clocks = [mp.get(c, c) for c in m.clocks]
    for x in m.regs:
        x.name, x.clock = mp.get(x.name, x.name), mp.get(x.clock, x.clock)
    return SeqCase(top, src, top, m)


# -- a chosen name against each thing the compiler names
def one(name, ins, out, body, f, items=""):
    sig = ", ".join(f"{n}: {t.src}" for n, t in ins)
    return Comb(name, f"{items}fn {name}({sig}) -> {out.src} {{ {body} }}\n", name, ins, out, f)


def clash_cases(r):
    out = []
    U = UInt(4)
    n = [0]

    def add(ins, body, f, items="", kind="fn"):
        n[0] += 1
        sig = ", ".join(f"{a}: {t.src}" for a, t in ins)
        nm = f"clash{n[0]}"
        src = items.replace("@", nm) + f"{kind} {nm}({sig}) -> {U.src} {{ {body.replace('@', nm)} }}\n"
        out.append(Comb(nm, src, nm, ins, U, f))

    for v in ["p", "q", "sig"]:
        for suf in ["_i", "_n1", "_n2", "_mut", "_o", "_i_n1", "_n1_n1"]:
            w = v + suf
            # against a port, an earlier value and a later one of the same base
            add([(v, U), ("k", U)], f"let {w} = k; {w} ^ {v} + 0 - 0" if False else f"let {w} = k; {w} ^ ({v} & 5)", lambda v=v, **a: a["k"] ^ (a[v] & 5))
            add([(v, U), (w, U)], f"({v} & 12) ^ {w}", lambda v=v, w=w, **a: (a[v] & 12) ^ a[w])
            add([(v, U), (w, U)], f"let {v} = {v} & {w}; let {w} = {v} ^ {w}; let {v} = {v} | 1; {v} ^ {w}",
                lambda v=v, w=w, **a: ((a[v] & a[w]) | 1) ^ ((a[v] & a[w]) ^ a[w]))
            add([(w, U), (v, U)], f"let {w} = {v} & {w}; let {v} = {v} ^ {w}; {v} | {w}",
                lambda v=v, w=w, **a: (a[v] ^ (a[v] & a[w])) | (a[v] & a[w]))
            add([(v, U)], f"let {w} = f@({v}); let {v} = {w} ^ 3; f@({v}) & {w}",
                lambda v=v, **a: (~(~a[v] ^ 3)) & ~a[v], f"fn f@({w}: {U.src}) -> {U.src} {{ let {v} = {w}; let {v} = ~{v}; {v} }}\n")
    for w in ["output__", "input__", "output___n1", "output__x"]:
        add([("a", U), (w, U)], f"a ^ {w}", lambda w=w, **a: a["a"] ^ a[w])
        add([("a", U)], f"let {w} = a ^ 5; {w}", lambda **a: a["a"] ^ 5)
        add([("a", U)], f"let {w} = f@(a); f@({w}) & a", lambda **a: ((a["a"] ^ 5) ^ 5) & a["a"], f"fn f@({w}: {U.src}) -> {U.src} {{ {w} ^ 5 }}\n")
    # instances: the name of a unit with a number
    for i in range(3):
        for kind in ("fn", "entity"):
            c = "inst " if kind == "entity" else ""
            add([("a", U), (f"g@_{i}".replace("@", "x"), U)], f"let gx_1 = {c}gx@(a); let q = {c}gx@(gx_1); let gx_0 = {c}gx@(q & a); gx_0 ^ gx_1" if i == 0 else f"{c}gx@({c}gx@({c}gx@(a)))",
                (lambda **a: (((a["a"] ^ 9) ^ 9) & a["a"]) ^ 9 ^ (a["a"] ^ 9)) if i == 0 else (lambda **a: a["a"] ^ 9), f"{kind} gx@(b: {U.src}) -> {U.src} {{ b ^ 9 }}\n", kind)
    for q in range(8):
        nm = f"inst{q}"
        k = r.randint(0, 2)
        kind = r.choice(["fn", "entity"])
        c = "inst " if kind == "entity" else ""
        src = f"{kind} un{q}(b: {U.src}) -> {U.src} {{ b ^ 9 }}\n{kind} {nm}(a: {U.src}, un{q}_{k}: {U.src}) -> {U.src} {{ let un{q}_{(k+1)%3} = {c}un{q}(a); let t = {c}un{q}(un{q}_{k}); {c}un{q}(t & un{q}_{(k+1)%3}) }}\n"
        out.append(Comb(nm, src, nm, [("a", U), (f"un{q}_{k}", U)], U, lambda q=q, k=k, **a: (((a["a"] ^ 9) & (a[f"un{q}_{k}"] ^ 9)) ^ 9)))
    # the number of an expression
    for base in range(1700, 2700, 25):
        ws = [f"_e_{i}" for i in range(base, base + 25)]
        lets = " ".join(f"let {w} = {'a' if i == 0 else ws[i-1]} ^ b;" if i % 2 else f"let {w} = {'a' if i == 0 else ws[i-1]} & (b | {i % 16});" for i, w in enumerate(ws))

        def f(**v):
            x = v["a"]
            for i in range(25):
                x = x ^ v["b"] if i % 2 else x & (v["b"] | (i % 16))
            return x

        add([("a", U), ("b", U)], f"{lets} {ws[-1]}", f)
    return out


# -- units with the same last name, in modules, impls, generics and lambdas
def unit_cases(r, quick):
    out = []
    U = UInt(4)
    for q in range(40 if quick else 300):
        rr = random.Random(r.getrandbits(64))
        items, calls = [], []
        names = rr.sample(["f", "g", "f_0", "f_n1", "impl", "m", "call", "lambda", "module", "top", "e_f"], 4)
        names = [x for x in names if x not in SPADE]
        top = f"un{q}"
        mods = [f"m{q}", f"m{q}_{rr.choice(names)}", f"{rr.choice(names)}{q}"]
        mods = list(dict.fromkeys(mods))
        consts = iter(rr.sample(range(1, 16), 15))
        units = []
        for m in mods:
            inner = []
            for nm in rr.sample(names, min(len(names), rr.randint(1, 3))):
                k = next(consts, 7)
                if rr.random() < 0.5:
                    inner.append(f"pub fn {nm}(a: {U.src}) -> {U.src} {{ a ^ {k} }}")
                    units.append((f"{m}::{nm}", k, ""))
                elif rr.random() < 0.5:
                    inner.append(f"pub fn {nm}<#uint N>(a: uint<N>) -> uint<N> {{ a ^ {k} }}")
                    units.append((f"{m}::{nm}", k, ""))
                else:
                    inner.append(f"pub entity {nm}(a: {U.src}) -> {U.src} {{ let {nm} = a; {nm} ^ {k} }}")
                    units.append((f"{m}::{nm}", k, "inst "))
            if rr.random() < 0.5:
                k, k2 = next(consts, 3), next(consts, 5)
                nm = rr.choice(names)
                inner.append(f"pub struct S {{ v: {U.src} }} impl S {{ pub fn {nm}(self) -> {U.src} {{ self.v ^ {k} }} }}")
                units.append((("meth", m, nm), k, ""))
            items.append(f"mod {m} {{ {' '.join(inner)} }}")
        for nm in rr.sample(names, 2):
            k = next(consts, 9)
            items.append(f"fn {nm}_t{q}(a: {U.src}) -> {U.src} {{ a ^ {k} }}")
            units.append((f"{nm}_t{q}", k, ""))
        picks = [rr.choice(units) for _ in range(rr.randint(3, 8))]
        body, v, ks = "", "a", 0
        lets = []
        tot = 0
        for i, (u, k, c) in enumerate(picks):
            tot ^= k
            w = rr.choice([f"x{i}", f"x{i}", f"f_{i}", f"g_{i}", f"call_{i}"])
            w = w if all(w != l for l in lets) else f"y{i}"
            if isinstance(u, tuple):
                e = f"{u[1]}::S({v}).{u[2]}()"
            elif c == "" and rr.random() < 0.3:
                e = f"{{ let h = fn |z| {{ let z: {U.src} = z; {u}(z) }}; h.call(({v},)) }}"
            else:
                e = f"{c}{u}({v})"
            body += f"let {w}: {U.src} = {e}; "
            lets.append(w)
            v = w
        src = "\n".join(items) + f"\nentity {top}(a: {U.src}) -> {U.src} {{ {body}{v} }}\n"
        out.append(Comb(top, src, top, [("a", U)], U, lambda tot=tot, **v: v["a"] ^ tot))
    return out


def p21(tier, rng):
    quick = tier == "quick"
    out = []
    for q in range(500 if quick else 6000):
        out.append(comb_case(random.Random(rng.getrandbits(64)), f"{q}"))
    for q in range(200 if quick else 2400):
        out.append(seq_case(random.Random(rng.getrandbits(64)), f"{q}"))
    out += clash_cases(random.Random(rng.getrandbits(64)))
    out += unit_cases(random.Random(rng.getrandbits(64)), quick)
    for c in out:
        c.solo = True
    return out
