"""P25 the standard library's memories with ports and FIFOs, P26 its clock crossings and edge detectors."""
import random
import z3
from ..check import Case, Seq, Verdict, Ob, Violation, in_val, out_val, OUT
from ..spec import *
from ..gen import fresh, leaves
from ..sym import bv
from .stdlib import some, the, small_val_type, resize

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Run(Case):
    """a bounded run from power-on under every schedule of the clocks; model(frames) yields claims.

    Each frame is (inputs, output, ticks); a claim is (name, frame, condition)."""

    def __init__(self, name, src, top, ins, out, clocks, n, model, assume=None, free=True):
        super().__init__(name, src, top, solo=True)
        self.ins, self.otype, self.clocks, self.n, self.model, self.assume, self.free = ins, out, clocks, n, model, assume, free

    def obligations(self, ctx):
        s = ctx.sim(**(dict(clock_ticks="free") if self.free and len(self.clocks) > 1 else {}))
        ok, fr, bits = [], [], []
        for t in range(self.n):
            f = s.step()
            vals = {}
            for n, ty in self.ins:
                vals[n], o = in_val(f, n, ty)
                ok.append(o)
            ticks = {}
            for c in self.clocks:
                ticks[c] = next((x for root, x in f.ticks.items() if root[0] == c + "_i"), FALSE)
            fr.append((vals, None, ticks))
        for t in range(self.n):
            v, b = out_val(s.frames[t], self.otype)
            fr[t] = (fr[t][0], v, fr[t][2])
            bits.append(b)
        if self.assume:
            ok += self.assume(fr)
        for name, t, c in self.model(fr):
            yield Ob(f"{name} at {t}", [z3.Not(c)], [(t, "", OUT, bits[t])], ok, [("output", self.otype, fr[t][1])])


def ticking(fr, t):
    return list(fr[t][2].values())


# ------------------------------------------------------------------ FIFO
def fifo_case(r, uid, quick):
    w = r.choice([1, 1, 2, 2, 2, 3]) if not quick else r.choice([1, 1, 2, 2])
    C = 1 << w
    T = r.choice([UInt(3), UInt(2), Bool, Tuple(Bool, UInt(2)), option(Bool), Int(4)])
    two = r.random() < 0.5
    top = f"ff{uid}"
    O = Tuple(Bool, option(T), UInt(w))
    cl = ["wclk", "rclk"] if two else ["clk"]
    wc, rc = cl[0], cl[-1]
    ports = ", ".join(f"{c}: clock" for c in cl)
    gen = r.choice([f"::<{w}, {T.src}, {C}>", f"::<{w}, _, {C}>"])
    wr = r.choice(["let (wr, rd) = {c}; set wr.write = w; set rd.ack = ack; (wr.full, rd.read, rd.num_elements)",
                   "let (FifoWrite$(write, full), FifoRead$(read, ack: a, num_elements)) = {c}; set write = w; set a = ack; (full, read, num_elements)"])
    call = r.choice([f"inst fifo{gen}({wc}, wrst, {rc}, rrst)", f"inst fifo{gen}$(read_clk: {rc}, write_clk: {wc}, write_rst: wrst, read_rst: rrst)"])
    src = ("use std::mem::fifo;\nuse std::mem::FifoWrite;\nuse std::mem::FifoRead;\n"
           f"entity {top}({ports}, wrst: bool, rrst: bool, w: {option(T).src}, ack: bool) -> {O.src} {{ {wr.replace('{c}', call)} }}\n")
    ins = [("wrst", Bool), ("rrst", Bool), ("w", option(T)), ("ack", Bool)]
    init = 5
    k = (12 if two else 14) if quick else (15 if two else 20)
    settle = 5  # steps in which both clocks tick and nothing is written or read
    n = init + k

    def assume(fr):
        out = []
        for t in range(n):
            v = fr[t][0]
            if t < init:
                out += ticking(fr, t) + [is1(v["wrst"]), is1(v["rrst"])]
            else:
                out += [z3.Not(is1(v["wrst"])), z3.Not(is1(v["rrst"]))]
        return out

    def model(fr):
        log = [zero(T)] * k
        nw, nr = bv(0, 8), bv(0, 8)
        quiet = bv(0, 8)
        for t in range(init, n):
            v, o, ticks = fr[t]
            full, rd, num = is1(o[0]), o[1], o[2]
            head = log[-1]
            for i in range(k - 2, -1, -1):
                head = T.ite(nr == i, log[i], head)
            have = nw - nr
            yield "only what was written comes out, in order", t, z3.Implies(some(rd), z3.And(z3.ULT(nr, nw), T.same(the(rd), head)))
            yield "the count is at most what is there", t, z3.ULE(resize(num, 8, False), have)
            yield "never more than the capacity", t, z3.ULE(have, C - 1)
            yield "an empty count says there is nothing", t, some(rd) == (num != 0)
            st = z3.UGE(quiet, settle)
            yield "what was written arrives", t, z3.Implies(st, z3.And(some(rd) == (have != 0), resize(num, 8, False) == have))
            yield "space that was freed is seen", t, z3.Implies(st, full == (have == C - 1))
            push = z3.And(ticks[wc], some(v["w"]), z3.Not(full))
            pop = z3.And(ticks[rc], is1(v["ack"]), some(rd))
            log = [T.ite(z3.And(push, nw == i), the(v["w"]), x) for i, x in enumerate(log)]
            nw, nr = z3.If(push, nw + 1, nw), z3.If(pop, nr + 1, nr)
            quiet = z3.If(z3.And(*ticking(fr, t), z3.Not(push), z3.Not(pop)), quiet + 1, bv(0, 8))

    return Run(top, src, top, ins, O, cl, n, model, assume)


# ------------------------------------------------------------------ RAM with ports
def ram_case(r, uid, quick):
    C = r.choice([1, 2, 2, 3, 4, 4, 5])
    w = (C - 1).bit_length()
    if w == 0:
        C, w = 2, 1
    T = small_val_type(r)
    two = r.random() < 0.5
    top = f"ram{uid}"
    cl = ["wclk", "rclk"] if two else ["clk"]
    wc, rc = cl[0], cl[-1]
    ports = ", ".join(f"{c}: clock" for c in cl)
    W = r.choice(["wp.write(wa, w);", "let _ = wp.write(wa, w);", "set wp.addr = wa; set wp.write = w;", "let WritePort$(addr, write) = wp; set addr = wa; set write = w;"])
    k = r.random()
    if k < 0.35:
        R = f"inst(1) read_read_port({rc}, ra, rp)"
        kind = "call"
    elif k < 0.7:
        R = f"rp.inst(1) read({rc}, ra)"
        kind = "call"
    else:
        kind = "raw"
        R = ""
    gen = r.choice([f"::<{w}, {T.src}, {C}>", f"::<{w}, _, {C}>"])
    args = r.choice([f"({wc}, {rc})", f"$(read_clk: {rc}, write_clk: {wc})"])
    head = "use std::mem::dp_bram;\nuse std::mem::WritePort;\nuse std::mem::ReadPort;\nuse std::mem::read_read_port;\n"
    body = f"let (wp, rp) = inst dp_bram{gen}{args}; {W} "
    body += f"let q: {T.src} = {R}; q" if kind == "call" else "set rp.addr = ra; rp.out"
    src = head + f"entity {top}({ports}, w: {option(T).src}, wa: {UInt(w).src}, ra: {UInt(w).src}) -> {T.src} {{ {body} }}\n"
    n = 4 if quick else 6

    def model(fr):
        mem, known = [zero(T)] * C, [FALSE] * C
        exp, sure = zero(T), FALSE
        for t in range(n):
            v, o, ticks = fr[t]
            yield "the value read", t, z3.Implies(sure, T.same(o, exp))
            wr = z3.And(ticks[wc], some(v["w"]))
            tick = ticks[rc]
            # a write to the address being read at the same time leaves the result open
            clash = z3.And(wr, v["wa"] == v["ra"])
            ne, ns = exp, FALSE
            for i in range(C):
                hit = v["ra"] == i
                ne = T.ite(z3.And(tick, hit), mem[i], ne)
                ns = z3.If(hit, known[i], ns)
            sure = z3.If(tick, z3.And(ns, z3.Not(clash)), sure)
            exp = ne
            mem = [T.ite(z3.And(wr, v["wa"] == i), the(v["w"]), x) for i, x in enumerate(mem)]
            known = [z3.Or(x, z3.And(wr, v["wa"] == i)) for i, x in enumerate(known)]

    return Run(top, src, top, [("w", option(T)), ("wa", UInt(w)), ("ra", UInt(w))], T, cl, n, model)


BAD25 = [
    ("fifo_w", "use std::mem::fifo; entity top(clk: clock, rst: bool, w: Option<bool>) -> bool { let (wr, rd) = inst fifo::<2, bool, 8>(clk, rst, clk, rst); set wr.write = w; set rd.ack = true; wr.full }", "8 elements need 3 address bits"),
    ("fifo_w2", "use std::mem::fifo; entity top(clk: clock, rst: bool, w: Option<bool>) -> bool { let (wr, rd) = inst fifo::<3, bool, 4>(clk, rst, clk, rst); set wr.write = w; set rd.ack = true; wr.full }", "4 elements need 2 address bits"),
    ("fifo_t", "use std::mem::fifo; entity top(clk: clock, rst: bool, w: Option<uint<2>>) -> bool { let (wr, rd) = inst fifo::<2, bool, 4>(clk, rst, clk, rst); set wr.write = w; set rd.ack = true; wr.full }", "writes another type"),
    ("fifo_noack", "use std::mem::fifo; entity top(clk: clock, rst: bool, w: Option<bool>) -> bool { let (wr, rd) = inst fifo::<2, bool, 4>(clk, rst, clk, rst); set wr.write = w; wr.full }", "the acknowledge wire is never set"),
    ("fifo_nowr", "use std::mem::fifo; entity top(clk: clock, rst: bool, w: Option<bool>) -> bool { let (wr, rd) = inst fifo::<2, bool, 4>(clk, rst, clk, rst); set rd.ack = true; wr.full }", "the write wire is never set"),
    ("ram_noaddr", "use std::mem::dp_bram; entity top(clk: clock, a: uint<2>) -> bool { let (wp, rp) = inst dp_bram::<2, bool, 4>(clk, clk); wp.write(a, None); rp.out }", "the read address is never set"),
    ("ram_twice", "use std::mem::dp_bram; entity top(clk: clock, a: uint<2>) -> bool { let (wp, rp) = inst dp_bram::<2, bool, 4>(clk, clk); wp.write(a, None); wp.write(a, None); set rp.addr = a; rp.out }", "two writers on a port"),
    ("ram_aw", "use std::mem::dp_bram; entity top(clk: clock, a: uint<3>) -> bool { let (wp, rp) = inst dp_bram::<2, bool, 4>(clk, clk); wp.write(a, None); set rp.addr = a; rp.out }", "addresses of another width"),
    ("ram_size", "use std::mem::dp_bram; entity top(clk: clock, a: uint<2>) -> bool { let (wp, rp) = inst dp_bram::<2, bool, 5>(clk, clk); wp.write(a, None); set rp.addr = a; rp.out }", "5 elements need 3 address bits"),
]


def p25(tier, rng):
    quick = tier == "quick"
    out = [Verdict(n, s + "\n", False, w) for n, s, w in BAD25]
    for q in range(20 if quick else 60):
        out.append(fifo_case(random.Random(rng.getrandbits(64)), f"{q}", quick))
    for q in range(80 if quick else 800):
        out.append(ram_case(random.Random(rng.getrandbits(64)), f"{q}", quick))
    return out


# ------------------------------------------------------------------ clock crossings
def edge_case(r, uid):
    rising = r.random() < 0.5
    top = f"ed{uid}"
    fn = "rising_edge" if rising else "falling_edge"
    call = r.choice([f"inst std::io::{fn}(clk, a)", f"inst std::io::{fn}$(value: a, clk)", f"inst std::io::{fn}(clk, !(!a))"])
    src = f"entity {top}(clk: clock, a: bool) -> bool {{ {call} }}\n"

    def f(ins):
        for t in (1, 2, 3):
            now, old = ins[t]["a"], ins[t - 1]["a"]
            yield t, TRUE, now & ~old if rising else ~now & old

    return Seq(top, src, top, [("a", Bool)], Bool, f, 4)


def sync_case(r, uid):
    T = small_val_type(r)
    top = f"sy{uid}"
    if r.random() < 0.3:
        T = Bool
        call = r.choice(["inst std::cdc::sync2_bool(clk, a)", "inst std::cdc::sync2_bool$(input: a, clk)"])
    else:
        call = r.choice(["unsafe { inst std::cdc::sync2(clk, a) }", "unsafe { inst std::cdc::sync2$(input: a, clk) }"])
    src = f"entity {top}(clk: clock, a: {T.src}) -> {T.src} {{ {call} }}\n"

    def f(ins):
        for t in (2, 3, 4):
            yield t, TRUE, ins[t - 2]["a"]

    return Seq(top, src, top, [("a", T)], T, f, 5)


def counter_case(r, uid, quick):
    w = r.choice([1, 2, 3, 4, 5, 8])
    U = UInt(w)
    top = f"cn{uid}"
    src = f"entity {top}(s: clock, d: clock, a: {U.src}) -> {U.src} {{ unsafe {{ inst std::cdc::sync_uint_counter{r.choice(['(s, d, a)', '$(dest_clk: d, source_clk: s, input: a)'])} }} }}\n"
    n = 6 if quick else 9

    def model(fr):
        # what each stage holds and whether it has been loaded
        st = [(bv(0, w), FALSE)] * 3
        for t in range(n):
            v, o, ticks = fr[t]
            yield "the counter two ticks on", t, z3.Implies(st[2][1], o == st[2][0])
            a = (z3.If(ticks["s"], v["a"], st[0][0]), z3.Or(st[0][1], ticks["s"]))
            b = (z3.If(ticks["d"], st[0][0], st[1][0]), z3.If(ticks["d"], st[0][1], st[1][1]))
            c = (z3.If(ticks["d"], st[1][0], st[2][0]), z3.If(ticks["d"], st[1][1], st[2][1]))
            st = [a, b, c]

    return Run(top, src, top, [("a", U)], U, ["s", "d"], n, model)


def wide_case(r, uid, quick):
    """sync_wide: only values that were there, none older than one already seen, and the last one arrives"""
    w = r.choice([2, 3, 4])
    T = r.choice([UInt(w), Tuple(Bool, UInt(2)), option(UInt(2))])
    top = f"wd{uid}"
    same = r.random() < 0.2
    cl = ["clk"] if same else ["s", "d"]
    s_, d_ = cl[0], cl[-1]
    ports = ", ".join(f"{c}: clock" for c in cl)
    call = r.choice([f"inst std::cdc::sync_wide({s_}, rst, a, ini, {d_})", f"inst std::cdc::sync_wide$(dest_clk: {d_}, source_clk: {s_}, rst, init: ini, input: a)"])
    src = f"entity {top}({ports}, rst: bool, a: {T.src}, ini: {T.src}) -> {T.src} {{ {call} }}\n"
    init = 5
    deep = 12 if quick else 14
    k = 22 + (6 if quick else 10)
    n = init + k

    def assume(fr):
        out = []
        for t in range(n):
            v = fr[t][0]
            if t < init:
                out += ticking(fr, t) + [is1(v["rst"])]
            else:
                out += [z3.Not(is1(v["rst"]))]
            if t:
                out.append(T.same(v["ini"], fr[0][0]["ini"]))
        return out

    def model(fr):
        ini = fr[0][0]["ini"]
        need = 22
        for t in range(init, n):
            v, o, ticks = fr[t]
            # the output is the start value or an input at a tick of the source before
            if t < init + deep:
                yield "a value that was there", t, z3.Or(T.same(o, ini), *[z3.And(fr[u][2][s_], T.same(o, fr[u][0]["a"])) for u in range(init, t)])
            if t >= init + need:
                calm = [z3.And(*ticking(fr, u)) for u in range(t - need, t)] + [T.same(fr[u][0]["a"], v["a"]) for u in range(t - need, t)]
                yield "the value arrives when it stays", t, z3.Implies(z3.And(*calm), T.same(o, v["a"]))

    return Run(top, src, top, [("rst", Bool), ("a", T), ("ini", T)], T, cl, n, model, assume)


def shake_case(r, uid, quick):
    """handshake: a pulse in one domain is one pulse of the same value in the other"""
    T = r.choice([UInt(3), Bool, Tuple(Bool, UInt(2)), option(Bool)])
    top = f"hs{uid}"
    same = r.random() < 0.2
    cl = ["clk"] if same else ["s", "d"]
    s_, d_ = cl[0], cl[-1]
    ports = ", ".join(f"{c}: clock" for c in cl)
    O = option(T)
    call = r.choice([f"inst std::cdc::handshake({s_}, rst, a, {d_})", f"inst std::cdc::handshake$(to_clk: {d_}, from_clk: {s_}, data: a, rst)"])
    src = f"entity {top}({ports}, rst: bool, a: {O.src}) -> {O.src} {{ unsafe {{ {call} }} }}\n"
    init = 5
    gap = 11  # both domains run freely this long after each pulse has been taken
    pulses = 2
    slack = 4 if quick else 8  # steps under any schedule before each pulse is taken and after
    n = init + pulses * (slack + gap) + 1

    def assume(fr):
        out = []
        for t in range(n):
            v = fr[t][0]
            if t < init:
                out += ticking(fr, t) + [is1(v["rst"]), z3.Not(some(v["a"]))]
                continue
            out.append(z3.Not(is1(v["rst"])))
            p = (t - init) % (slack + gap)
            if p >= slack or t == n - 1:
                out += ticking(fr, t)
                out.append(z3.Not(some(v["a"])))
        # at most one tick of the source sees the pulse in each window
        for q in range(pulses):
            w = range(init + q * (slack + gap), init + q * (slack + gap) + slack)
            seen = [z3.And(fr[t][2][s_], some(fr[t][0]["a"])) for t in w]
            out.append(z3.AtMost(*seen, 1))
        return out

    def model(fr):
        for q in range(pulses):
            a = init + q * (slack + gap)
            b = min(a + slack + gap, n - 1)
            took, val = FALSE, zero(T)
            for t in range(a, a + slack):
                v, o, ticks = fr[t]
                x = z3.And(ticks[s_], some(v["a"]))
                val = T.ite(x, the(v["a"]), val)
                took = z3.Or(took, x)
            cnt = bv(0, 8)
            for t in range(a, b):
                v, o, ticks = fr[t]
                # the output is looked at when its clock ticks
                hit = z3.And(ticks[d_], some(o))
                cnt = cnt + z3.If(hit, bv(1, 8), bv(0, 8))
                yield "only the value sent", t, z3.Implies(some(o), T.same(the(o), val))
            yield "one pulse for each sent", b, cnt == z3.If(took, bv(1, 8), bv(0, 8))

    return Run(top, src, top, [("rst", Bool), ("a", O)], O, cl, n, model, assume)


BAD26 = [
    ("sync2_safe", "entity top(clk: clock, a: uint<4>) -> uint<4> { inst std::cdc::sync2(clk, a) }", "sync2 is unsafe"),
    ("counter_safe", "entity top(s: clock, d: clock, a: uint<4>) -> uint<4> { inst std::cdc::sync_uint_counter(s, d, a) }", "sync_uint_counter is unsafe"),
    ("shake_safe", "entity top(s: clock, d: clock, rst: bool, a: Option<bool>) -> Option<bool> { inst std::cdc::handshake(s, rst, a, d) }", "handshake is unsafe"),
    ("sync2_bool_t", "entity top(clk: clock, a: uint<1>) -> uint<1> { inst std::cdc::sync2_bool(clk, a) }", "sync2_bool takes bool"),
    ("wide_init", "entity top(s: clock, d: clock, rst: bool, a: uint<4>) -> uint<4> { inst std::cdc::sync_wide(s, rst, a, false, d) }", "the start value has another type"),
    ("edge_t", "entity top(clk: clock, a: uint<1>) -> bool { inst std::io::rising_edge(clk, a) }", "an edge of a number"),
    ("edge_fn", "fn top(clk: clock, a: bool) -> bool { inst std::io::rising_edge(clk, a) }", "an instance in a function"),
]


def p26(tier, rng):
    quick = tier == "quick"
    out = [Verdict(n, s + "\n", False, w) for n, s, w in BAD26]
    for q in range(12):
        out.append(edge_case(random.Random(rng.getrandbits(64)), f"{q}"))
    for q in range(40 if quick else 200):
        out.append(sync_case(random.Random(rng.getrandbits(64)), f"{q}"))
    for q in range(20 if quick else 60):
        out.append(counter_case(random.Random(rng.getrandbits(64)), f"{q}", quick))
    for q in range(10 if quick else 24):
        out.append(wide_case(random.Random(rng.getrandbits(64)), f"{q}", quick))
    for q in range(10 if quick else 24):
        out.append(shake_case(random.Random(rng.getrandbits(64)), f"{q}", quick))
    return out
