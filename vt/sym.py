"""Symbolic execution of an elaborated netlist over z3 bit-vectors.

Every value a 4-state simulator could leave unknown (x literals, reads outside a vector, division
by zero, storage that was never written) is a fresh symbolic variable, so an obligation that is
proved holds whatever the unknown bits turn out to be.
"""
import sys
import z3
from .verilog import VError, Illegal

sys.setrecursionlimit(200000)


class CombLoop(VError):
    pass


def bv(v, w):
    return z3.BitVecVal(v, w)


def ext(x, w, signed):
    c = x.size()
    if c == w:
        return x
    if c > w:
        return z3.Extract(w - 1, 0, x)
    return z3.SignExt(w - c, x) if signed else z3.ZeroExt(w - c, x)


def b2v(b):
    return z3.If(b, bv(1, 1), bv(0, 1))


def nz(x):
    return x != bv(0, x.size())


def cat(parts):
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def extract(x, hi, lo):
    if lo == 0 and hi == x.size() - 1:
        return x
    return z3.Extract(hi, lo, x)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    return z3.If(c, a, b)


def fold(e, limit=200):
    """simplify, unless the expression reaches back too far for that to be worth it"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return e
        todo.extend(x.children())
    return z3.simplify(e)


class Frame:
    def __init__(self, sim, t, state, ticks):
        self.sim, self.t, self.state, self.ticks = sim, t, state, ticks
        self.memo = {}
        self.busy = set()
        self.inputs = {}

    # -- unknown values
    def x(self, kind, sc, key, w):
        return self.sim.unknown((kind, sc.path, key, self.t), w)

    # -- nets
    def net(self, sc, name, hi, lo):
        sc, name = sc.root(name)
        key = (sc.path, name, hi, lo)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.busy:
            raise CombLoop(f"combinational loop through {sc.path}.{name}[{hi}:{lo}]")
        self.busy.add(key)
        try:
            r = self._net(sc, name, hi, lo)
        finally:
            self.busy.discard(key)
        self.memo[key] = r
        return r

    def _net(self, sc, name, hi, lo):
        el = self.sim.elab
        n = el.netof(sc, name)
        if n.depth is not None:
            raise Illegal(f"memory {name} used without an index")
        ds = sc.drivers.get(name, [])
        inout_top = n.dir == "inout" and sc is el.top
        pieces = []
        pos = hi
        while pos >= lo:
            cover = [d for d in ds if d.lo <= pos <= d.hi]
            if inout_top or any(self._has_z(d) for d in cover):
                pieces.append(self._tri(sc, name, cover, pos))
                pos -= 1
                continue
            if not cover:
                # up to the next driver below
                nxt = max([d.hi for d in ds if d.hi < pos] + [lo - 1])
                nxt = max(nxt, lo - 1)
                full = self.x("undriven", sc, name, n.width)
                pieces.append(extract(full, pos, nxt + 1))
                pos = nxt
                continue
            if len(cover) > 1:
                raise Illegal(f"{sc.path}.{name} bit {pos} has {len(cover)} drivers")
            d = cover[0]
            bot = max(d.lo, lo)
            pieces.append(self.driver(sc, name, d, pos - d.lo, bot - d.lo))
            pos = bot - 1
        return cat(pieces)

    def driver(self, sc, name, d, hi, lo):
        """bits [hi:lo] of what driver d contributes (relative to d.lo)"""
        if d.kind == "input":
            return extract(self.input(name, d.hi + 1), hi, lo)
        if d.kind == "expr":
            e, W, rhi, rlo = d.data
            return self.evr_w(d.scope, e, W, rlo + hi, rlo + lo)
        if d.kind == "seq":
            return extract(self.state[(sc.path, name)], hi, lo)
        if d.kind == "comb":
            st, target = d.data
            v = self.comb(d.scope, st, target)
            return extract(v, hi, lo)
        raise VError(d.kind)

    def _has_z(self, d):
        if d.kind != "expr":
            return False
        return _z_in(d.data[0])

    def _tri(self, sc, name, cover, pos):
        """One bit of a net with tri-state drivers: the enabled driver, else the environment."""
        v = extract(self.input(name, self.sim.elab.netof(sc, name).width), pos, pos)
        for d in cover:
            e, W, rhi, rlo = d.data
            en, val = self.tri_expr(d.scope, e, W, rlo + pos - d.lo)
            v = ite(en, val, v)
        return v

    def tri_expr(self, sc, e, W, bit):
        if e[0] == "cond":
            c = nz(self.sd(sc, e[1]))
            e1, v1 = self.tri_expr(sc, e[2], W, bit)
            e2, v2 = self.tri_expr(sc, e[3], W, bit)
            return ite(c, e1, e2) if not (e1 is e2) else e1, ite(c, v1, v2)
        if e[0] == "num" and e[5] >> bit & 1:
            return z3.BoolVal(False), bv(0, 1)
        return z3.BoolVal(True), self.evr_w(sc, e, W, bit, bit)

    def input(self, name, w):
        if name not in self.inputs:
            self.inputs[name] = self.sim.input_var(name, self.t, w)
        return self.inputs[name]

    # -- expressions
    def sd(self, sc, e):
        """self-determined value"""
        w = self.sim.elab.width(sc, e)
        return self.evr(sc, e, w, w - 1, 0)

    def top(self, sc, e, W):
        """value of e in an assignment context of W bits (at least its own width)"""
        el = self.sim.elab
        w = el.width(sc, e)
        if w >= W:
            return self.evr(sc, e, w, w - 1, 0)
        return self.ev(sc, e, W, el.signed(sc, e))

    def evr_w(self, sc, e, W, hi, lo):
        el = self.sim.elab
        w = el.width(sc, e)
        if w >= W:
            return self.evr(sc, e, w, hi, lo)
        return extract(self.ev(sc, e, W, el.signed(sc, e)), hi, lo)

    def evr(self, sc, e, w, hi, lo):
        """bits hi..lo of e evaluated at its own width w; only what is needed is read"""
        el = self.sim.elab
        k = e[0]
        if k == "id":
            if e[1] in sc.module.consts:
                return extract(self.const(sc, e[1]), hi, lo)
            return self.net(sc, e[1], hi, lo)
        if k == "concat":
            out = []
            pos = w
            for x in e[1]:
                xw = el.width(sc, x)
                pos -= xw  # x occupies [pos+xw-1:pos]
                h, l = min(hi, pos + xw - 1), max(lo, pos)
                if h >= l:
                    out.append(self.evr(sc, x, xw, h - pos, l - pos))
            return cat(out)
        if k == "rep":
            xw = el.width(sc, e[2])
            v = self.sd(sc, e[2])
            n = el.constint(sc, e[1])
            if n <= 0:
                raise Illegal("replication count")
            return extract(cat([v] * n), hi, lo)
        if k == "part" or k == "idx" or k == "ppart" or k == "mpart":
            s = self.const_select(sc, e)
            if s is not None:
                base, shi, slo, bw = s
                return self.sel(sc, e, base, bw, slo + hi, slo + lo, slo, shi - slo + 1)
        if k == "cond":
            wa, wb = el.width(sc, e[2]), el.width(sc, e[3])
            if wa == w and wb == w:
                c = nz(self.sd(sc, e[1]))
                return ite(c, self.evr(sc, e[2], w, hi, lo), self.evr(sc, e[3], w, hi, lo))
        if k == "un" and e[1] == "~" and el.width(sc, e[2]) == w:
            return ~self.evr(sc, e[2], w, hi, lo)
        if k == "bin" and e[1] in "&|^" and el.width(sc, e[2]) == w and el.width(sc, e[3]) == w:
            a = self.evr(sc, e[2], w, hi, lo)
            b = self.evr(sc, e[3], w, hi, lo)
            return a & b if e[1] == "&" else a | b if e[1] == "|" else a ^ b
        if k == "call" and e[1] in ("$signed", "$unsigned"):
            return self.evr(sc, e[2][0], w, hi, lo)
        return extract(self.ev(sc, e, w, el.signed(sc, e)), hi, lo)

    def sel(self, sc, e, base, bw, hi, lo, slo, sw):
        """constant select of base bits hi..lo, bits outside [0, bw) are unknown"""
        if lo >= 0 and hi < bw:
            return self.evr(sc, base, bw, hi, lo)
        out = []
        unk = self.x("oor", sc, e[-1], sw)
        p = hi
        while p >= lo:
            if p >= bw or p < 0:
                out.append(extract(unk, p - slo, p - slo))
                p -= 1
            else:
                b = max(lo, 0)
                out.append(self.evr(sc, base, bw, p, b))
                p = b - 1
        return cat(out)

    def const_select(self, sc, e):
        el = self.sim.elab
        base = e[1]
        if base[0] != "id":
            raise VError("nested select")
        if base[1] not in sc.module.consts and el.netof(sc, base[1]).depth is not None:
            return None
        bw = el.width(sc, base)
        try:
            if e[0] == "idx":
                hi = lo = el.constint(sc, e[2])
            elif e[0] == "part":
                hi, lo = el.constint(sc, e[2]), el.constint(sc, e[3])
            elif e[0] == "ppart":
                lo = el.constint(sc, e[2])
                hi = lo + el.constint(sc, e[3]) - 1
            else:
                hi = el.constint(sc, e[2])
                lo = hi - el.constint(sc, e[3]) + 1
        except VError:
            return None
        if hi < lo:
            raise Illegal(f"{sc.path or sc.module.name}: select {base[1]}[{hi}:{lo}]")
        return base, hi, lo, bw

    def const(self, sc, name):
        key = ("const", sc.path, name)
        if key not in self.memo:
            w, e = sc.module.consts[name]
            el = self.sim.elab
            v = self.top(sc, e, w if w is not None else el.width(sc, e))
            self.memo[key] = extract(v, (w or v.size()) - 1, 0) if v.size() >= (w or 0) else v
        return self.memo[key]

    def ev(self, sc, e, W, S):
        el = self.sim.elab
        k = e[0]
        if k == "num":
            w = el.width(sc, e)
            m = (1 << w) - 1
            if not e[4] and not e[5]:
                return ext(bv(e[3] & m, w), W, S)
            xm = (e[4] | e[5]) & m
            u = self.x("lit", sc, e[6], w)
            v = (u & bv(xm, w)) | bv(e[3] & ~xm & m, w)
            if xm == m:
                v = u
            return ext(v, W, S)
        if k == "un":
            op = e[1]
            if op == "~":
                return ~self.ev(sc, e[2], W, S)
            if op == "-":
                return -self.ev(sc, e[2], W, S)
            if op == "+":
                return self.ev(sc, e[2], W, S)
            a = self.sd(sc, e[2])
            n = a.size()
            if op == "!":
                r = ~nzv(a)
            elif op in ("&", "~&"):
                r = b2v(a == bv((1 << n) - 1, n))
            elif op in ("|", "~|"):
                r = nzv(a)
            else:
                r = extract(a, 0, 0)
                for i in range(1, n):
                    r = r ^ extract(a, i, i)
            if op in ("~&", "~|", "~^"):
                r = ~r
            return ext(r, W, False)
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                a, b = nzv(self.sd(sc, e[2])), nzv(self.sd(sc, e[3]))
                return ext(a & b if op == "&&" else a | b, W, False)
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                w = max(el.width(sc, e[2]), el.width(sc, e[3]))
                s = el.signed(sc, e[2]) and el.signed(sc, e[3])
                a, b = self.ev(sc, e[2], w, s), self.ev(sc, e[3], w, s)
                if op in ("==", "==="):
                    r = a == b
                elif op in ("!=", "!=="):
                    r = a != b
                elif op == "<":
                    r = a < b if s else z3.ULT(a, b)
                elif op == "<=":
                    r = a <= b if s else z3.ULE(a, b)
                elif op == ">":
                    r = a > b if s else z3.UGT(a, b)
                else:
                    r = a >= b if s else z3.UGE(a, b)
                return ext(b2v(r), W, False)
            if op in ("<<", ">>", "<<<", ">>>"):
                a = self.ev(sc, e[2], W, S)
                b = self.sd(sc, e[3])
                n = max(W, b.size())
                A, B = ext(a, n, S and op == ">>>"), ext(b, n, False)
                if op in ("<<", "<<<"):
                    r = A << B
                elif op == ">>>" and S:
                    r = A >> B
                else:
                    r = z3.LShR(A, B)
                return extract(r, W - 1, 0)
            a, b = self.ev(sc, e[2], W, S), self.ev(sc, e[3], W, S)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%"):
                u = self.x("div0", sc, e[-1], W)
                if op == "/":
                    r = a / b if S else z3.UDiv(a, b)
                else:
                    r = z3.SRem(a, b) if S else z3.URem(a, b)
                return ite(b == bv(0, W), u, r)
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            if op == "~^":
                return ~(a ^ b)
            raise VError(op)
        if k == "cond":
            c = nz(self.sd(sc, e[1]))
            return ite(c, self.ev(sc, e[2], W, S), self.ev(sc, e[3], W, S))
        if k == "call":
            if e[1] not in ("$signed", "$unsigned"):
                raise VError(f"call {e[1]}")
            return ext(self.sd(sc, e[2][0]), W, S)
        if k in ("idx", "part", "ppart", "mpart"):
            return ext(self.select(sc, e), W, False)
        if k in ("id", "concat", "rep"):
            return ext(self.sd(sc, e), W, S)
        raise VError(f"expression {e}")

    def select(self, sc, e):
        el = self.sim.elab
        s = self.const_select(sc, e)
        if s is not None:
            base, hi, lo, bw = s
            return self.sel(sc, e, base, bw, hi, lo, lo, hi - lo + 1)
        base = e[1]
        if base[1] not in sc.module.consts:
            n = el.netof(sc, base[1])
            if n.depth is not None:
                if e[0] != "idx":
                    raise VError("part select of memory")
                return self.memread(sc, n, self.sd(sc, e[2]), self.x("oor", sc, e[-1], n.width))
        v = self.sd(sc, base)
        i = self.sd(sc, e[2])
        isg = el.signed(sc, e[2])
        w = 1 if e[0] == "idx" else el.constint(sc, e[3])
        bw = v.size()
        # arithmetic on the position in enough bits that nothing wraps
        n = max(i.size(), bw.bit_length(), w.bit_length()) + 2
        I = ext(i, n, isg)
        lo = I - bv(w - 1, n) if e[0] == "mpart" else I
        unk = self.x("oor", sc, e[-1], w)
        ok = z3.And(lo >= 0, lo + bv(w - 1, n) < bv(bw, n))
        N = max(n, bw, w)
        sh = z3.LShR(ext(v, N, False), ext(lo, N, True))
        val = extract(sh, w - 1, 0)
        # bits outside the vector are unknown, one by one
        bits = []
        partial = False
        if w > 1:
            # a select that straddles an edge: decide each bit
            for b in range(w - 1, -1, -1):
                p = lo + bv(b, n)
                inb = z3.And(p >= 0, p < bv(bw, n))
                sb = extract(z3.LShR(ext(v, N, False), ext(p, N, True)), 0, 0)
                bits.append(ite(inb, sb, extract(unk, b, b)))
            straddle = z3.And(z3.Not(ok), lo + bv(w - 1, n) >= 0, lo < bv(bw, n))
            partial = True
        r = ite(ok, val, unk)
        if partial:
            st = z3.simplify(straddle)
            if not z3.is_false(st):
                r = ite(ok, val, ite(straddle, cat(bits), unk))
        return r

    def memread(self, sc, n, idx, unk):
        sc, name = sc.root(n.name)
        mem = self.state.get((sc.path, name))
        if mem is None:
            raise VError(f"memory {name} has no writer or initial value")
        r = unk
        w = idx.size()
        for a in range(len(mem) - 1, -1, -1):
            if a < (1 << w):
                r = ite(idx == bv(a, w), mem[a], r)
        return r

    # -- always_comb
    def comb(self, sc, st, target):
        key = ("comb", sc.path, id(st), target)
        r = self.memo.get(key)
        if r is None:
            n = self.sim.elab.netof(sc, target)
            env = {}
            self._cexec(sc, st, env)
            if target not in env:
                raise VError("comb target not assigned")
            r = env[target]
            if r is None:
                raise Illegal(f"latch: {sc.path}.{target}")
            self.memo[key] = r
        return r

    def _cexec(self, sc, st, env):
        """Assignments in an always_comb; None means 'holds its value' (a latch)."""
        if st is None:
            return
        k = st[0]
        if k == "block":
            for s in st[1]:
                self._cexec(sc, s, env)
        elif k == "if":
            c = nz(self.sd(sc, st[1]))
            a, b = dict(env), dict(env)
            self._cexec(sc, st[2], a)
            self._cexec(sc, st[3], b)
            self._merge(c, a, b, env)
        elif k == "case":
            self._case(sc, st, env, self._cexec)
        elif k == "blk":
            self._store(sc, st, env)
        else:
            raise VError(f"{k} in always_comb")

    def _store(self, sc, st, env):
        l = st[1]
        if l[0] != "id":
            raise VError("select target in always_comb")
        n = self.sim.elab.netof(sc, l[1])
        env[l[1]] = extract(self.top(sc, st[2], n.width), n.width - 1, 0)

    def _merge(self, c, a, b, env):
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            env[k] = None if x is None or y is None else ite(c, x, y)

    def _case(self, sc, st, env, run):
        _, kind, subj, arms = st
        el = self.sim.elab
        w = el.width(sc, subj)
        for labels, _ in arms:
            for l in labels or []:
                w = max(w, el.width(sc, l))
        v = self.top(sc, subj, w) if el.width(sc, subj) < w else self.sd(sc, subj)
        v = fold(v)
        # whether an arm always matches is seen without looking behind the subject
        stand_in = v if z3.is_bv_value(v) else z3.BitVec("case!", w)

        def rest(i, e0):
            if i == len(arms):
                return dict(e0)
            labels, body = arms[i]
            out = dict(e0)
            run(sc, body, out)
            if labels is None:
                return out
            cs = []
            for l in labels:
                if l[0] == "num" and (l[4] or l[5]):
                    # casez: z bits in a label match anything; x bits only match x, which is
                    # not a value here, so an x label bit is a free choice of the matcher
                    full = (1 << w) - 1
                    if kind == "casez":
                        care = full & ~l[5] & ~l[4]
                    else:
                        care = full & ~l[4]
                    cs.append((v & bv(care, w)) == bv(l[3] & care, w))
                else:
                    cs.append(v == self.top(sc, l, w))
            c = z3.Or(*cs) if len(cs) > 1 else cs[0]
            k = fold(c if z3.is_bv_value(v) else z3.substitute(c, (v, stand_in)))
            if z3.is_true(k) or z3.is_false(k):
                c = k
            if z3.is_true(c):
                return out
            nxt = rest(i + 1, e0)
            m = {}
            self._merge(c, out, nxt, m)
            return m

        if len(arms) > 400:
            raise VError("too many arms")
        res = rest(0, env)
        env.clear()
        env.update(res)

    # -- clocked blocks
    def next_state(self):
        new = dict(self.state)
        sim = self.sim
        for i, (sc, clk, st, ts) in enumerate(sim.elab.seqs):
            env = {}
            for t in ts:
                r, n = sc.root(t)
                env[t] = new[(r.path, n)]
            self._sexec(sc, st, env)
            tick = self.ticks[sim.seq_clock[i]]
            for t in ts:
                r, n = sc.root(t)
                key = (r.path, n)
                if isinstance(env[t], list):
                    new[key] = [ite(tick, a, b) for a, b in zip(env[t], new[key])]
                else:
                    new[key] = ite(tick, env[t], new[key])
        return new

    def _sexec(self, sc, st, env):
        if st is None:
            return
        k = st[0]
        if k == "block":
            for s in st[1]:
                self._sexec(sc, s, env)
        elif k == "if":
            c = nz(self.sd(sc, st[1]))
            a = {k: (list(v) if isinstance(v, list) else v) for k, v in env.items()}
            b = {k: (list(v) if isinstance(v, list) else v) for k, v in env.items()}
            self._sexec(sc, st[2], a)
            self._sexec(sc, st[3], b)
            for k in env:
                if isinstance(env[k], list):
                    env[k] = [ite(c, x, y) for x, y in zip(a[k], b[k])]
                else:
                    env[k] = ite(c, a[k], b[k])
        elif k == "nb":
            l = st[1]
            el = self.sim.elab
            if l[0] == "id":
                n = el.netof(sc, l[1])
                env[l[1]] = extract(self.top(sc, st[2], n.width), n.width - 1, 0)
            elif l[0] == "idx" and l[1][0] == "id":
                n = el.netof(sc, l[1][1])
                if n.depth is None:
                    raise VError("bit write in a clocked block")
                i = self.sd(sc, l[2])
                v = extract(self.top(sc, st[2], n.width), n.width - 1, 0)
                w = i.size()
                env[n.name] = [
                    (ite(i == bv(a, w), v, old) if a < (1 << w) else old) for a, old in enumerate(env[n.name])
                ]
            else:
                raise VError("clocked target")
        elif k == "blk":
            raise VError("blocking assignment in a clocked block")
        elif k == "case":
            raise VError("case in a clocked block")
        else:
            raise VError(k)

    # -- results
    def out(self, name):
        return self.of(self.sim.elab.top, name)

    def of(self, sc, name):
        n = self.sim.elab.netof(sc, name)
        return self.net(sc, name, n.width - 1, 0)


def nzv(a):
    return a if a.size() == 1 else b2v(nz(a))


def _z_in(e):
    if e[0] == "num":
        return bool(e[5])
    if e[0] == "cond":
        return _z_in(e[2]) or _z_in(e[3])
    return False


class Sim:
    """Unrolls a netlist cycle by cycle. One frame is the state before a clock edge plus inputs."""

    def __init__(self, elab, tag="", clock_ticks=None, free_init=False):
        self.elab, self.tag = elab, tag
        self.unknowns = {}  # key -> var
        self.invars = {}  # (name, t) -> var
        self.frames = []
        self.clock_ticks = clock_ticks
        self.free_init = free_init
        self.seq_clock = []
        roots = []
        for sc, clk, st, ts in elab.seqs:
            r = elab.clock_root(sc, clk)
            if r is None:
                raise VError(f"clock of {sc.path} is not a plain copy of an input")
            self.seq_clock.append(r)
            if r not in roots:
                roots.append(r)
        self.roots = roots
        self.tickvars = {}

    def unknown(self, key, w):
        v = self.unknowns.get(key)
        if v is None:
            v = z3.BitVec(f"{self.tag}X{len(self.unknowns)}", w)
            self.unknowns[key] = v
        return v

    def input_var(self, name, t, w):
        v = self.invars.get((name, t))
        if v is None:
            v = z3.BitVec(f"{self.tag}{name}@{t}", w)
            self.invars[(name, t)] = v
        return v

    def init_state(self):
        st = {}
        el = self.elab
        f0 = Frame(self, -1, st, {})
        targets = {}
        for sc, clk, stm, ts in el.seqs:
            for t in ts:
                r, n = sc.root(t)
                targets[(r.path, n)] = (r, n)
        for (path, name), v in el.inits.items():
            sc = next(s for s in el.scopes if s.path == path)
            if (path, name) not in targets:
                targets[(path, name)] = (sc, name)
        for sc in el.scopes:  # memories nothing writes
            for name, n in sc.module.nets.items():
                if n.depth is not None and name not in sc.inout_alias:
                    targets.setdefault((sc.path, name), (sc, name))
        for key, (sc, name) in targets.items():
            n = el.netof(sc, name)
            init = el.inits.get(key, {})
            if n.depth is None:
                if None in init and not self.free_init:
                    isc, e = init[None]
                    st[key] = extract(f0.top(isc, e, n.width), n.width - 1, 0)
                else:
                    st[key] = self.unknown(("init", sc.path, name, 0), n.width)
            else:
                mem = []
                for a in range(n.depth):
                    if a in init and not self.free_init:
                        isc, e = init[a]
                        mem.append(extract(f0.top(isc, e, n.width), n.width - 1, 0))
                    else:
                        mem.append(self.unknown(("init", sc.path, name, a), n.width))
                for a in init:
                    if a is not None and a >= n.depth:
                        raise Illegal(f"initial value for {name}[{a}] of {n.depth}")
                st[key] = mem
        return st

    def step(self, inputs=None):
        """Add a frame. inputs: {port: BitVec expr}; the others are free."""
        t = len(self.frames)
        state = self.init_state() if t == 0 else self.frames[-1].next_state()
        ticks = {}
        for r in self.roots:
            if self.clock_ticks is None or len(self.roots) == 1 and self.clock_ticks != "free":
                ticks[r] = z3.BoolVal(True)
            else:
                v = self.tickvars.get((r, t))
                if v is None:
                    v = z3.Bool(f"{self.tag}tick_{r[0]}_{r[1]}@{t}")
                    self.tickvars[(r, t)] = v
                ticks[r] = v
        f = Frame(self, t, state, ticks)
        for n, v in (inputs or {}).items():
            f.inputs[n] = v
        self.frames.append(f)
        return f
