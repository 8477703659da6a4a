"""Concrete simulator of the elaborated netlist, used to replay counterexamples.

Written independently of sym.py: integers, and every driver is re-evaluated until nothing changes
(an event-free fixpoint), as a Verilog simulator settles. Unknown bits come from an oracle.
"""
from .verilog import VError, Illegal


def M(w):
    return (1 << w) - 1


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Conc:
    def __init__(self, elab, oracle, inputs, ticks=lambda root, t: True, free_init=False):
        """oracle(key, width) -> int; inputs(name, t, width) -> int"""
        self.el, self.oracle, self.inp, self.ticks = elab, oracle, inputs, ticks
        self.t = -1
        self.v = {}
        self.state = {}
        self.scopes = {s.path: s for s in elab.scopes}
        for sc, clk, st, ts in elab.seqs:
            for t in ts:
                r, n = sc.root(t)
                self.state[(r.path, n)] = None
        for k in elab.inits:
            self.state.setdefault(k, None)
        for sc in elab.scopes:  # memories nothing writes
            for name, n in sc.module.nets.items():
                if n.depth is not None and name not in sc.inout_alias:
                    self.state.setdefault((sc.path, name), None)
        for (path, name) in list(self.state):
            net = elab.netof(self.scopes[path], name)
            init = elab.inits.get((path, name), {})

            def val(a):
                if a in init and not free_init:
                    sc, e = init[a]
                    return self.assign_value(sc, e, net.width)
                return oracle(("init", path, name, 0 if a is None else a), net.width)

            self.state[(path, name)] = val(None) if net.depth is None else [val(a) for a in range(net.depth)]
        self.t = 0
        self.settle()

    # expression value as (unsigned int) at W bits in context sign S
    def e(self, sc, x, W, S):
        el = self.el
        k = x[0]

        def sized(v, w):
            v &= M(w)
            return (sx(v, w) if S else v) & M(W)

        if k == "num":
            w = el.width(sc, x)
            v = x[3] & M(w)
            xm = (x[4] | x[5]) & M(w)
            if xm:
                v = (v & ~xm) | (self.oracle(("lit", sc.path, x[6], self.t), w) & xm)
            return sized(v, w)
        if k == "id":
            if x[1] in sc.module.consts:
                cw, ce = sc.module.consts[x[1]]
                w = cw or el.width(sc, ce)
                return sized(self.assign_value(sc, ce, w), w)
            r, n = sc.root(x[1])
            net = el.netof(r, n)
            return sized(self.v.get((r.path, n), 0), net.width)
        if k == "concat":
            v = 0
            tot = 0
            for y in x[1]:
                w = el.width(sc, y)
                v = v << w | self.self_(sc, y)
                tot += w
            return sized(v, tot)
        if k == "rep":
            n = el.constint(sc, x[1])
            w = el.width(sc, x[2])
            y = self.self_(sc, x[2])
            v = 0
            for _ in range(n):
                v = v << w | y
            return sized(v, n * w)
        if k == "cond":
            return self.e(sc, x[2] if self.self_(sc, x[1]) else x[3], W, S)
        if k == "call":
            return sized(self.self_(sc, x[2][0]), el.width(sc, x[2][0]))
        if k == "un":
            op = x[1]
            if op in "~-+":
                a = self.e(sc, x[2], W, S)
                return {"~": ~a, "-": -a, "+": a}[op] & M(W)
            a = self.self_(sc, x[2])
            w = el.width(sc, x[2])
            return {
                "!": a == 0, "&": a == M(w), "~&": a != M(w), "|": a != 0, "~|": a == 0,
                "^": bin(a).count("1") % 2 == 1, "~^": bin(a).count("1") % 2 == 0,
            }[op] and 1 or 0
        if k == "bin":
            op = x[1]
            if op == "&&":
                return int(bool(self.self_(sc, x[2])) and bool(self.self_(sc, x[3])))
            if op == "||":
                return int(bool(self.self_(sc, x[2])) or bool(self.self_(sc, x[3])))
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                w = max(el.width(sc, x[2]), el.width(sc, x[3]))
                s = el.signed(sc, x[2]) and el.signed(sc, x[3])
                a, b = self.e(sc, x[2], w, s), self.e(sc, x[3], w, s)
                if s:
                    a, b = sx(a, w), sx(b, w)
                return int({"==": a == b, "===": a == b, "!=": a != b, "!==": a != b,
                            "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
            if op in ("<<", "<<<", ">>", ">>>"):
                a = self.e(sc, x[2], W, S)
                b = self.self_(sc, x[3])
                if op in ("<<", "<<<"):
                    return (a << b) & M(W) if b < W else 0
                if op == ">>>" and S:
                    return (sx(a, W) >> min(b, W)) & M(W)
                return a >> b if b < W else 0
            a, b = self.e(sc, x[2], W, S), self.e(sc, x[3], W, S)
            if op in ("/", "%"):
                if b == 0:
                    return self.oracle(("div0", sc.path, x[-1], self.t), W)
                if S:
                    a, b = sx(a, W), sx(b, W)
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return (q if op == "/" else a - q * b) & M(W)
            return {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b, "~^": ~(a ^ b)}[op] & M(W)
        if k in ("idx", "part", "ppart", "mpart"):
            v, w = self.select(sc, x)
            return v & M(W) if W >= w else v
        raise VError(f"expression {x}")

    def select(self, sc, x):
        el = self.el
        b = x[1]
        if b[1] not in sc.module.consts:
            r, n = sc.root(b[1])
            net = el.netof(r, n)
            if net.depth is not None:
                i = self.self_(sc, x[2])
                mem = self.state[(r.path, n)]
                if i < len(mem):
                    return mem[i], net.width
                return self.oracle(("oor", sc.path, x[-1], self.t), net.width), net.width

        def idx(y):
            v = self.self_(sc, y)
            return sx(v, el.width(sc, y)) if el.signed(sc, y) else v

        bw = el.width(sc, b)
        bits = self.self_(sc, b)
        if x[0] == "idx":
            lo, w = idx(x[2]), 1
        elif x[0] == "part":
            lo = el.constint(sc, x[3])
            w = el.constint(sc, x[2]) - lo + 1
        elif x[0] == "ppart":
            lo, w = idx(x[2]), el.constint(sc, x[3])
        else:
            w = el.constint(sc, x[3])
            lo = idx(x[2]) - w + 1
        r = 0
        for i in range(w):
            p = lo + i
            if 0 <= p < bw:
                r |= (bits >> p & 1) << i
            else:
                r |= (self.oracle(("oor", sc.path, x[-1], self.t), w) >> i & 1) << i
        return r, w

    def self_(self, sc, x):
        w = self.el.width(sc, x)
        return self.e(sc, x, w, self.el.signed(sc, x)) & M(w)

    def assign_value(self, sc, x, W):
        w = max(W, self.el.width(sc, x))
        return self.e(sc, x, w, self.el.signed(sc, x)) & M(W)

    def z_bits(self, sc, x, W):
        if x[0] == "cond":
            return self.z_bits(sc, x[2] if self.self_(sc, x[1]) else x[3], W)
        if x[0] == "num":
            return x[5]
        return 0

    def settle(self):
        el = self.el
        for (p, n), val in self.state.items():
            if not isinstance(val, list):
                self.v[(p, n)] = val
        for _ in range(10000):
            changed = False
            for sc in el.scopes:
                for name, n in sc.module.nets.items():
                    if name in sc.inout_alias or n.depth is not None:
                        continue
                    key = (sc.path, name)
                    if key in self.state:
                        continue
                    cover = 0
                    val = 0
                    tri = n.dir == "inout" and sc is el.top
                    if tri:
                        val = self.inp(name, self.t, n.width)
                        cover = M(n.width)
                    for d in sc.drivers.get(name, []):
                        w = d.hi - d.lo + 1
                        drive = M(w)
                        if d.kind == "input":
                            x = self.inp(name, self.t, n.width)
                        elif d.kind == "expr":
                            e, W, rhi, rlo = d.data
                            x = self.assign_value(d.scope, e, W) >> rlo
                            z = self.z_bits(d.scope, e, W) >> rlo & M(w)
                            if z and not tri:
                                val |= (self.inp(name, self.t, n.width) >> d.lo & z) << d.lo
                                cover |= z << d.lo
                            drive &= ~z
                        elif d.kind == "comb":
                            st, tgt = d.data
                            env = {}
                            self.run(d.scope, st, env)
                            if tgt not in env:
                                raise Illegal("latch")
                            x = env[tgt]
                        else:
                            continue
                        x &= drive
                        val = (val & ~(drive << d.lo)) | x << d.lo
                        cover |= drive << d.lo
                    hole = M(n.width) & ~cover
                    if hole:
                        val |= self.oracle(("undriven", sc.path, name, self.t), n.width) & hole
                    if self.v.get(key) != val:
                        self.v[key] = val
                        changed = True
            if not changed:
                return
        raise VError("the netlist does not settle")

    def run(self, sc, st, env):
        """always_comb"""
        if st is None:
            return
        k = st[0]
        if k == "block":
            for s in st[1]:
                self.run(sc, s, env)
        elif k == "if":
            self.run(sc, st[2] if self.self_(sc, st[1]) else st[3], env)
        elif k == "blk":
            env[st[1][1]] = self.assign_value(sc, st[2], self.el.netof(sc, st[1][1]).width)
        elif k == "case":
            _, kind, subj, arms = st
            w = self.el.width(sc, subj)
            for ls, _ in arms:
                for l in ls or []:
                    w = max(w, self.el.width(sc, l))
            v = self.assign_value(sc, subj, w)
            for ls, body in arms:
                hit = ls is None
                for l in ls or []:
                    if l[0] == "num":
                        care = M(w) & ~l[4]
                        if kind == "casez":
                            care &= ~l[5]
                        hit = hit or (v & care) == (l[3] & care)
                    else:
                        hit = hit or v == self.assign_value(sc, l, w)
                if hit:
                    self.run(sc, body, env)
                    return
        else:
            raise VError(k)

    def clocked(self, sc, st, ups):
        if st is None:
            return
        k = st[0]
        if k == "block":
            for s in st[1]:
                self.clocked(sc, s, ups)
        elif k == "if":
            self.clocked(sc, st[2] if self.self_(sc, st[1]) else st[3], ups)
        elif k == "nb":
            l = st[1]
            if l[0] == "id":
                ups.append((sc, l[1], None, self.assign_value(sc, st[2], self.el.netof(sc, l[1]).width)))
            else:
                n = self.el.netof(sc, l[1][1])
                ups.append((sc, n.name, self.self_(sc, l[2]), self.assign_value(sc, st[2], n.width)))
        else:
            raise VError(k)

    def clock(self):
        ups = []
        for sc, clk, st, ts in self.el.seqs:
            if self.ticks(self.el.clock_root(sc, clk), self.t):
                self.clocked(sc, st, ups)
        for sc, name, i, val in ups:
            r, n = sc.root(name)
            if i is None:
                self.state[(r.path, n)] = val
            elif i < len(self.state[(r.path, n)]):
                self.state[(r.path, n)][i] = val
        self.t += 1
        self.settle()

    def out(self, name):
        return self.v[("", name)]
