"""Elaboration of the emitted netlist: instance tree, bit-level driver map, structural facts.

Nothing here evaluates anything but constants; `sym.py` (z3) and `conc.py` (integers) do.
"""
from .verilog import Design, Illegal, VError


class Driver:
    __slots__ = ("hi", "lo", "kind", "scope", "data", "uid")

    def __init__(self, hi, lo, kind, scope, data):
        self.hi, self.lo, self.kind, self.scope, self.data = hi, lo, kind, scope, data
        self.uid = None


class Scope:
    def __init__(self, path, module, parent):
        self.path, self.module, self.parent = path, module, parent
        self.drivers = {}
        self.children = {}
        self.inout_alias = {}  # name -> (scope, name)
        self.memwriters = {}
        self.seqregs = {}

    def root(self, name):
        s = self
        while name in s.inout_alias:
            s, name = s.inout_alias[name]
        return s, name


class Elab:
    def __init__(self, design, top):
        self.design = design
        self.scopes = []
        self.blackboxes = []
        self.issues = []  # (kind, path, detail)
        self.seqs = []  # (scope, clk expr, stmt, [targets])
        self.inits = {}  # (path, net) -> {None|idx: (scope, expr)}
        self.asserts = []
        if top not in design:
            raise VError(f"no module {top} in the output")
        self.top = self._inst(top, None, "")
        self.inputs = [(n, w, d) for d, n, w in self.top.module.ports if d in ("input", "inout")]
        self.outputs = [(n, w) for d, n, w in self.top.module.ports if d == "output"]
        for d, n, w in self.top.module.ports:
            if d == "input":
                self._add(self.top, n, Driver(w - 1, 0, "input", self.top, n))
        # what drives an inout of an instance drives the net it is connected to
        for sc in self.scopes:
            for name in sc.inout_alias:
                for d in sc.drivers.pop(name, []):
                    self._add(sc, name, d)
        self._check()

    # -- widths and signs (IEEE 1800 11.6, 11.8)
    def netof(self, sc, name):
        n = sc.module.nets.get(name)
        if n is None:
            raise Illegal(f"{sc.path or sc.module.name}: identifier {name!r} is not declared")
        return n

    def const_width(self, sc, name):
        w, e = sc.module.consts[name]
        return w if w is not None else self.width(sc, e)

    def width(self, sc, e):
        k = e[0]
        if k == "id":
            if e[1] in sc.module.consts:
                return self.const_width(sc, e[1])
            return self.netof(sc, e[1]).width
        if k == "num":
            return e[1] if e[1] is not None else max(32, e[3].bit_length() + 1)
        if k == "str":
            return 8 * (len(e[1]) - 2)
        if k == "un":
            return 1 if e[1] in ("!", "&", "|", "^", "~&", "~|", "~^") else self.width(sc, e[2])
        if k == "bin":
            op = e[1]
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return 1
            if op in ("<<", ">>", "<<<", ">>>"):
                return self.width(sc, e[2])
            return max(self.width(sc, e[2]), self.width(sc, e[3]))
        if k == "cond":
            return max(self.width(sc, e[2]), self.width(sc, e[3]))
        if k == "concat":
            return sum(self.width(sc, x) for x in e[1])
        if k == "rep":
            return self.constint(sc, e[1]) * self.width(sc, e[2])
        if k == "idx":
            b = e[1]
            if b[0] == "id" and b[1] not in sc.module.consts and self.netof(sc, b[1]).depth is not None:
                return self.netof(sc, b[1]).width
            return 1
        if k == "part":
            return self.constint(sc, e[2]) - self.constint(sc, e[3]) + 1
        if k in ("ppart", "mpart"):
            return self.constint(sc, e[3])
        if k == "call":
            return self.width(sc, e[2][0])
        raise VError(f"width of {e}")

    def signed(self, sc, e):
        k = e[0]
        if k == "id":
            c = sc.module.consts.get(e[1])
            if c is not None:
                return c[0] is None and self.signed(sc, c[1])
            return False
        if k == "num":
            return e[2]
        if k == "un":
            return e[1] in ("~", "-", "+") and self.signed(sc, e[2])
        if k == "bin":
            op = e[1]
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return False
            if op in ("<<", ">>", "<<<", ">>>"):
                return self.signed(sc, e[2])
            return self.signed(sc, e[2]) and self.signed(sc, e[3])
        if k == "cond":
            return self.signed(sc, e[2]) and self.signed(sc, e[3])
        if k == "call":
            return e[1] == "$signed"
        return False

    def constint(self, sc, e):
        """Value of a constant expression, or VError."""
        k = e[0]
        if k == "num":
            if e[4] or e[5]:
                raise VError("x in constant expression")
            return e[3]
        if k == "id":
            if e[1] in sc.module.consts:
                w, ex = sc.module.consts[e[1]]
                v = self.constint(sc, ex)
                return v & ((1 << w) - 1) if w else v
            # An alias assigned from a constant is not constant in Verilog
            raise VError(f"{e[1]} is not constant")
        if k == "un" and e[1] == "-":
            return -self.constint(sc, e[2])
        if k == "bin" and e[1] in "+-*":
            a, b = self.constint(sc, e[2]), self.constint(sc, e[3])
            return {"+": a + b, "-": a - b, "*": a * b}[e[1]]
        raise VError(f"not a constant expression: {e}")

    def parameter(self, sc, name, e):
        if e[0] == "str":
            return e[1]
        x = e[2] if e[0] == "un" else e
        if x[0] == "num" and x[1] is None and x[3] >= 1 << 31:
            raise Illegal(f"parameter {name}: {x[3]} does not fit in the 32 bits of a number without a size")
        return self.constint(sc, e)

    # -- instances and drivers
    def _inst(self, modname, parent, path):
        mod = self.design[modname]
        sc = Scope(path, mod, parent)
        self.scopes.append(sc)
        for r in mod.redeclared:
            self.issues.append(("redeclared", path or modname, r))
        for lhs, rhs in mod.assigns:
            w = self.width(sc, lhs)
            self._assign(sc, lhs, sc, rhs, w, w - 1, 0)
        for st in mod.combs:
            for t in self._targets(st):
                n = self.netof(sc, t)
                self._add(sc, t, Driver(n.width - 1, 0, "comb", sc, (st, t)))
        for clk, st in mod.seqs:
            ts = sorted(self._targets(st))
            self.seqs.append((sc, clk, st, ts))
            for t in ts:
                n = self.netof(sc, t)
                if n.depth is None:
                    self._add(sc, t, Driver(n.width - 1, 0, "seq", sc, t))
                else:
                    sc.memwriters.setdefault(t, []).append((clk, st))
        for st in mod.inits:
            self._init(sc, st)
        for a in mod.asserts:
            self.asserts.append((sc,) + a)
        for cm, iname, params, conns in mod.insts:
            cpath = (path + "." if path else "") + iname
            if cm not in self.design and cm in self.design.stubs:
                # a module from outside, as the case describes it for these parameters
                cm = self.design.stub(cm, {n: self.parameter(sc, n, e) for n, e in params.items()})
            elif params:
                raise Illegal(f"parameters for the module {cm}, which has none")
            if cm not in self.design:
                self.blackboxes.append((cpath, cm, sc, params, conns))
                continue
            csc = self._inst(cm, sc, cpath)
            sc.children[iname] = csc
            ports = {n: (d, w) for d, n, w in csc.module.ports}
            for pn, e in conns.items():
                if pn not in ports:
                    self.issues.append(("no such port", cpath, pn))
                    continue
                d, w = ports[pn]
                if e is None:
                    continue
                ew = self.width(sc, e)
                if ew != w:
                    self.issues.append(("port width", cpath, f"{pn}: port {w} connection {ew}"))
                if d == "input":
                    self._add(csc, pn, Driver(w - 1, 0, "expr", sc, (e, max(w, ew), w - 1, 0)))
                elif d == "output":
                    self._assign(sc, e, csc, ("id", pn), max(w, ew), ew - 1, 0)
                else:
                    if e[0] != "id":
                        raise VError("inout connected to an expression")
                    csc.inout_alias[pn] = (sc, e[1])
            for pn, (d, w) in ports.items():
                if pn not in conns:
                    self.issues.append(("unconnected port", cpath, f"{d} {pn}"))
        return sc

    def _targets(self, st, acc=None):
        acc = set() if acc is None else acc
        if st is None:
            return acc
        k = st[0]
        if k == "block":
            for x in st[1]:
                self._targets(x, acc)
        elif k == "if":
            self._targets(st[2], acc)
            self._targets(st[3], acc)
        elif k == "case":
            for _, x in st[3]:
                self._targets(x, acc)
        elif k in ("nb", "blk"):
            l = st[1]
            while l[0] != "id":
                l = l[1]
            acc.add(l[1])
        return acc

    def _init(self, sc, st):
        if st[0] == "block":
            for x in st[1]:
                self._init(sc, x)
        elif st[0] == "blk":
            l = st[1]
            if l[0] == "id":
                self.inits.setdefault((sc.path, l[1]), {})[None] = (sc, st[2])
            elif l[0] == "idx" and l[1][0] == "id":
                self.inits.setdefault((sc.path, l[1][1]), {})[self.constint(sc, l[2])] = (sc, st[2])
            else:
                raise VError("initial target")
        else:
            raise VError("initial statement")

    def _add(self, sc, name, d):
        s, n = sc.root(name)
        l = s.drivers.setdefault(n, [])
        d.uid = (s.path, n, len(l))
        l.append(d)

    def _assign(self, sc, lhs, rsc, rhs, W, rhi, rlo):
        """bits [rhi:rlo] of rhs (evaluated at width W in scope rsc) drive lhs (in scope sc)."""
        k = lhs[0]
        if k == "id":
            n = self.netof(sc, lhs[1])
            if n.depth is not None:
                raise Illegal(f"{sc.path or sc.module.name}: assign to a whole memory {lhs[1]!r}")
            if n.dir == "input":
                raise Illegal(f"{sc.path or sc.module.name}: assign to input port {lhs[1]!r}")
            self._add(sc, lhs[1], Driver(rhi - rlo, 0, "expr", rsc, (rhs, W, rhi, rlo)))
        elif k == "concat":
            pos = rhi
            for x in lhs[1]:
                w = self.width(sc, x)
                self._assign(sc, x, rsc, rhs, W, pos, pos - w + 1)
                pos -= w
        elif k in ("idx", "part", "ppart", "mpart"):
            b = lhs[1]
            if b[0] != "id":
                raise VError("nested select on the left hand side")
            n = self.netof(sc, b[1])
            if not n.ranged:
                raise Illegal(f"{sc.path or sc.module.name}: select on scalar {b[1]!r}")
            if k == "idx":
                hi = lo = self.constint(sc, lhs[2])
            elif k == "part":
                hi, lo = self.constint(sc, lhs[2]), self.constint(sc, lhs[3])
            elif k == "ppart":
                lo = self.constint(sc, lhs[2])
                hi = lo + self.constint(sc, lhs[3]) - 1
            else:
                hi = self.constint(sc, lhs[2])
                lo = hi - self.constint(sc, lhs[3]) + 1
            if hi >= n.width or lo < 0 or hi < lo:
                self.issues.append(("select out of range", sc.path or sc.module.name, f"{b[1]}[{hi}:{lo}] of {n.width} bits, assigned"))
                return
            self._add(sc, b[1], Driver(hi, lo, "expr", rsc, (rhs, W, rhi, rlo)))
        else:
            raise VError(f"assignment target {lhs}")

    # -- structural facts
    def _check(self):
        for sc in self.scopes:
            m = sc.module
            for name, n in m.nets.items():
                if name in sc.inout_alias:
                    continue
                if n.depth is not None:
                    continue
                ds = sc.drivers.get(name, [])
                if n.dir == "inout":
                    continue
                cover = 0
                for d in ds:
                    mask = ((1 << (d.hi + 1)) - 1) & ~((1 << d.lo) - 1)
                    if d.hi >= n.width:
                        self.issues.append(("driver out of range", sc.path or m.name, name))
                    if cover & mask:
                        self.issues.append(("driven twice", sc.path or m.name, f"{name}[{d.hi}:{d.lo}]"))
                    cover |= mask
                if cover != (1 << n.width) - 1:
                    self.issues.append(("undriven", sc.path or m.name, f"{name} mask {((1<<n.width)-1)&~cover:#x}"))

    def check_selects(self, sc, e):
        """Legality of every select in an expression (raises Illegal)."""
        k = e[0]
        if k in ("idx", "part", "ppart", "mpart"):
            b = e[1]
            if b[0] != "id":
                raise VError("nested select")
            if b[1] in sc.module.consts:
                if sc.module.consts[b[1]][0] is None:
                    raise Illegal(f"select on constant {b[1]}")
                w = sc.module.consts[b[1]][0]
            else:
                n = self.netof(sc, b[1])
                if not n.ranged and n.depth is None:
                    self.issues.append(("select on scalar", sc.path or sc.module.name, b[1]))
                w = n.width if n.depth is None else None
            if k == "part" and w is not None:
                hi, lo = self.constint(sc, e[2]), self.constint(sc, e[3])
                if hi < lo:
                    self.issues.append(("reversed select", sc.path or sc.module.name, f"{b[1]}[{hi}:{lo}]"))
                if hi >= w:
                    self.issues.append(("select out of range", sc.path or sc.module.name, f"{b[1]}[{hi}:{lo}] of {w} bits"))
        for x in e[1:]:
            if isinstance(x, tuple):
                self.check_selects(sc, x)
            elif isinstance(x, list):
                for y in x:
                    self.check_selects(sc, y)

    def structure(self):
        """All structural issues, including those in expressions."""
        def stmts(sc, s):
            if s is None:
                return
            k = s[0]
            if k == "block":
                for x in s[1]:
                    stmts(sc, x)
            elif k == "if":
                self.check_selects(sc, s[1])
                stmts(sc, s[2])
                stmts(sc, s[3])
            elif k == "case":
                self.check_selects(sc, s[2])
                for _, x in s[3]:
                    stmts(sc, x)
            elif k in ("nb", "blk"):
                self.check_selects(sc, s[1])
                self.check_selects(sc, s[2])

        for sc in self.scopes:
            for l, r in sc.module.assigns:
                self.check_selects(sc, r)
                self.undeclared(sc, r)
            for st in sc.module.combs:
                stmts(sc, st)
            for c, st in sc.module.seqs:
                self.check_selects(sc, c)
                stmts(sc, st)
        return self.issues

    def undeclared(self, sc, e):
        if e[0] == "id":
            if e[1] not in sc.module.consts:
                self.netof(sc, e[1])
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                self.undeclared(sc, x)
            elif isinstance(x, list):
                for y in x:
                    self.undeclared(sc, y)

    def clock_root(self, sc, e, depth=0):
        """(top input name, bit) that a clock expression is a plain copy of, or None."""
        if depth > 200:
            return None
        bit = 0
        if e[0] == "idx":
            try:
                bit = self.constint(sc, e[2])
            except VError:
                return None
            e = e[1]
        if e[0] != "id":
            return None
        name = e[1]
        return self._bit_root(sc, name, bit, depth)

    def _bit_root(self, sc, name, bit, depth):
        if depth > 400 or name in sc.module.consts:
            return None
        sc, name = sc.root(name)
        for d in sc.drivers.get(name, []):
            if d.lo <= bit <= d.hi:
                if d.kind == "input":
                    return (d.data, bit)
                if d.kind != "expr":
                    return None
                e, W, rhi, rlo = d.data
                return self._expr_bit_root(d.scope, e, rlo + bit - d.lo, depth + 1)
        return None

    def _expr_bit_root(self, sc, e, b, depth):
        k = e[0]
        if k == "id":
            return self._bit_root(sc, e[1], b, depth + 1)
        if k == "concat":
            pos = 0
            for x in reversed(e[1]):
                w = self.width(sc, x)
                if b < pos + w:
                    return self._expr_bit_root(sc, x, b - pos, depth + 1)
                pos += w
            return None
        if k in ("idx", "part", "ppart", "mpart") and e[1][0] == "id":
            try:
                if k == "idx":
                    lo = self.constint(sc, e[2])
                elif k == "part":
                    lo = self.constint(sc, e[3])
                elif k == "ppart":
                    lo = self.constint(sc, e[2])
                else:
                    lo = self.constint(sc, e[2]) - self.constint(sc, e[3]) + 1
            except VError:
                return None
            return self._bit_root(sc, e[1][1], lo + b, depth + 1)
        return None
