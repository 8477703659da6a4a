"""Parser for the SystemVerilog that the Spade compiler emits.

Expressions are tuples:
  ('id', name) ('num', width|None, signed, value, xmask, zmask) ('str', s)
  ('un', op, e) ('bin', op, a, b, serial) ('cond', c, t, f) ('concat', [e]) ('rep', n, e)
  ('idx', base, e, serial) ('part', base, hi, lo, serial) ('ppart', base, start, w, serial)
  ('mpart', base, start, w, serial) ('call', name, [e])
Serials are unique in a module and key the unknown (X) values an expression may produce.
"""
import re


class VError(Exception):
    """The emitted text is outside the subset that is understood or is not legal Verilog."""


class Illegal(VError):
    """The emitted text breaks a rule of the language (not merely outside our subset)."""


TOK = re.compile(
    r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<attr>\(\*\s*[A-Za-z_].*?\*\))
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<esc>\\[^\s]+)
  | (?P<num>\d[\d_]*\s*'[sS]?[bBdDhHoO]\s*[0-9a-fA-FxXzZ_?]+|'[sS]?[bBdDhHoO]\s*[0-9a-fA-FxXzZ_?]+|\d[\d_]*)
  | (?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
  | (?P<macro>`[A-Za-z_]\w*)
  | (?P<op><<<|>>>|===|!==|<<|>>|<=|>=|==|!=|&&|\|\||\+:|-:|~&|~\||~\^|[-+*/%<>=!~&|^?:;,.\#()\[\]{}@])
    """,
    re.X | re.S,
)


def preprocess(text, defines=()):
    """`ifdef/`ifndef/`else/`endif/`define (bodies are dropped), line oriented."""
    out = []
    stack = []  # list of [active_parent, taken]
    defines = set(defines)
    active = True
    lines = text.split("\n")
    i = 0
    macros = {}
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        i += 1
        if s.startswith("`ifdef") or s.startswith("`ifndef"):
            name = s.split()[1]
            c = (name in defines) == s.startswith("`ifdef")
            stack.append((active, c))
            active = active and c
        elif s.startswith("`else"):
            parent, c = stack[-1]
            stack[-1] = (parent, not c)
            active = parent and not c
        elif s.startswith("`endif"):
            parent, _ = stack.pop()
            active = parent
        elif s.startswith("`define"):
            body = s
            while body.endswith("\\") and i < len(lines):
                body = body[:-1] + lines[i]
                i += 1
            if active:
                m = re.match(r"`define\s+(\\?\S+?)(\(|\s|$)", body)
                if m:
                    macros[m.group(1)] = body
        elif s.startswith("`default_nettype") or s.startswith("`timescale"):
            pass
        elif s.startswith("`COCOTB_CODE"):
            pass
        elif active:
            out.append(l)
    if stack:
        raise VError("unterminated `ifdef")
    return "\n".join(out), macros


def tokenize(text):
    toks = []
    pos = 0
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            raise Illegal(f"cannot tokenize at: {text[pos:pos+60]!r}")
        k = m.lastgroup
        v = m.group()
        pos = m.end()
        if k == "ws" or k == "attr":
            continue
        if k == "esc":
            # an escaped identifier ends at white space; \foo and foo are the same name
            k = "id!"
            v = v[1:]
        toks.append((k, v))
    toks.append(("eof", ""))
    return toks


KEYWORDS = set(
    """module endmodule input output inout wire logic reg assign always always_comb always_ff begin end if else
    case casez casex endcase priority unique initial localparam parameter posedge negedge integer genvar generate
    endgenerate for function endfunction task string assert and or not nand nor xor xnor buf default signed unsigned
    bit byte int shortint longint time real void break continue do while return new this super class endclass
    interface endinterface package endpackage program endprogram property sequence struct union enum typedef var
    wait fork join disable force release repeat forever tri tri0 tri1 supply0 supply1 event const static
    automatic ref import export extern virtual alias expect cover final global let local""".split()
)

BINPREC = {
    "||": 1, "&&": 2, "|": 3, "^": 4, "~^": 4, "&": 5,
    "==": 6, "!=": 6, "===": 6, "!==": 6,
    "<": 7, "<=": 7, ">": 7, ">=": 7,
    "<<": 8, ">>": 8, "<<<": 8, ">>>": 8,
    "+": 9, "-": 9, "*": 10, "/": 10, "%": 10,
}


def parse_num(t):
    t = t.replace("_", "").replace(" ", "")
    if "'" not in t:
        return ("num", None, True, int(t), 0, 0)
    w, rest = t.split("'")
    signed = rest[0] in "sS"
    if signed:
        rest = rest[1:]
    base = rest[0].lower()
    digs = rest[1:].lower()
    width = int(w) if w else None
    if width == 0:
        raise Illegal(f"zero width literal {t}")
    bits = {"b": 1, "o": 3, "h": 4}.get(base)
    if base == "d":
        if digs in ("x", "z", "?"):
            ww = width if width is not None else 32
            full = (1 << ww) - 1
            return ("num", width, signed, 0, full if digs == "x" else 0, 0 if digs == "x" else full)
        v = int(digs)
        return ("num", width, signed, v & ((1 << width) - 1) if width else v, 0, 0)
    val = xm = zm = 0
    for c in digs:
        val <<= bits
        xm <<= bits
        zm <<= bits
        f = (1 << bits) - 1
        if c == "x":
            xm |= f
        elif c in "z?":
            zm |= f
        else:
            val |= int(c, 16)
    nb = bits * len(digs)
    eff = width if width is not None else max(32, nb)
    if nb < eff and digs[0] in "xz?":
        ext = ((1 << eff) - 1) & ~((1 << nb) - 1)
        if digs[0] == "x":
            xm |= ext
        else:
            zm |= ext
    m = (1 << eff) - 1
    # A literal without a size is at least 32 bits wide; larger ones keep their own width
    return ("num", width if width is not None else (None if nb <= 32 else nb), signed, val & m, xm & m, zm & m)


class Net:
    __slots__ = ("name", "width", "ranged", "kind", "depth", "dir", "count")

    def __init__(self, name, width, ranged, kind, depth=None, dir=None):
        self.name, self.width, self.ranged, self.kind, self.depth, self.dir = name, width, ranged, kind, depth, dir
        self.count = 1


class Module:
    def __init__(self, name):
        self.name = name
        self.ports = []
        self.nets = {}
        self.consts = {}  # name -> (width, expr)
        self.assigns = []  # (lhs, rhs)
        self.combs = []  # stmts
        self.seqs = []  # (clk expr, stmt)
        self.inits = []  # stmt
        self.asserts = []  # (what it waits for or None, condition, [(system task, arguments)])
        self.insts = []  # (module, inst, params, {port: expr})
        self.redeclared = []
        self.text = ""


class Parser:
    def __init__(self, text, macros=()):
        self.t = tokenize(text)
        self.p = 0
        self.sys = []
        self.serial = 0
        self.macros = macros

    def peek(self, k=0):
        return self.t[self.p + k]

    def next(self):
        t = self.t[self.p]
        self.p += 1
        return t

    def at(self, v):
        k, x = self.t[self.p]
        return x == v and k in ("op", "id")

    def accept(self, v):
        if self.at(v):
            self.p += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            ctx = " ".join(x for _, x in self.t[max(0, self.p - 12) : self.p + 8])
            raise VError(f"expected {v!r}, got {self.peek()} near: {ctx}")

    def ident(self):
        k, v = self.next()
        if k == "id!":
            return v
        if k == "id":
            if v in KEYWORDS:
                raise Illegal(f"keyword {v!r} used as an identifier")
            return v
        raise VError(f"expected identifier, got {v!r}")

    # ---- expressions
    def expr(self):
        c = self.binary(1)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            b = self.expr()
            return ("cond", c, a, b)
        return c

    def binary(self, minp):
        lhs = self.unary()
        while True:
            k, v = self.peek()
            if k != "op" or v not in BINPREC or BINPREC[v] < minp:
                return lhs
            self.next()
            rhs = self.binary(BINPREC[v] + 1)
            self.serial += 1
            lhs = ("bin", v, lhs, rhs, self.serial)

    def unary(self):
        k, v = self.peek()
        if k == "op" and v in ("!", "~", "-", "+", "&", "|", "^", "~&", "~|", "~^"):
            self.next()
            return ("un", v, self.unary())
        return self.primary()

    def primary(self):
        k, v = self.peek()
        if k == "num":
            self.next()
            n = parse_num(v)
            if n[4] or n[5]:
                self.serial += 1
                n = n + (self.serial,)
            return n
        if k == "str":
            self.next()
            return ("str", v)
        if k == "op" and v == "(":
            self.next()
            e = self.expr()
            self.expect(")")
            return e
        if k == "op" and v == "{":
            self.next()
            if self.at("}"):
                raise Illegal("empty concatenation")
            e = self.expr()
            if self.at("{"):
                self.next()
                items = [self.expr()]
                while self.accept(","):
                    items.append(self.expr())
                self.expect("}")
                self.expect("}")
                return ("rep", e, items[0] if len(items) == 1 else ("concat", items))
            items = [e]
            while self.accept(","):
                items.append(self.expr())
            self.expect("}")
            return ("concat", items)
        if k == "id" and v.startswith("$"):
            self.next()
            self.expect("(")
            args = []
            if not self.at(")"):
                args.append(self.expr())
                while self.accept(","):
                    args.append(self.expr())
            self.expect(")")
            return ("call", v, args)
        if k in ("id", "id!"):
            base = ("id", self.ident())
            while self.at("["):
                self.next()
                a = self.expr()
                if self.accept(":"):
                    b = self.expr()
                    self.expect("]")
                    self.serial += 1
                    base = ("part", base, a, b, self.serial)
                elif self.accept("+:"):
                    b = self.expr()
                    self.expect("]")
                    self.serial += 1
                    base = ("ppart", base, a, b, self.serial)
                elif self.accept("-:"):
                    b = self.expr()
                    self.expect("]")
                    self.serial += 1
                    base = ("mpart", base, a, b, self.serial)
                else:
                    self.expect("]")
                    self.serial += 1
                    base = ("idx", base, a, self.serial)
            return base
        raise VError(f"unexpected token {v!r} in expression: " + " ".join(x for _, x in self.t[max(0, self.p - 10) : self.p + 6]))

    def constint(self, e):
        k = e[0]
        if k == "num":
            if e[4] or e[5]:
                raise VError("x in constant expression")
            return e[3]
        if k == "bin":
            a, b = self.constint(e[2]), self.constint(e[3])
            return {"+": a + b, "-": a - b, "*": a * b}[e[1]]
        raise VError(f"not a constant: {e}")

    def range_opt(self):
        """[hi:lo] -> width or None"""
        if self.accept("["):
            hi = self.constint(self.expr())
            self.expect(":")
            lo = self.constint(self.expr())
            self.expect("]")
            if lo != 0 or hi < 0:
                raise Illegal(f"declared range [{hi}:{lo}]")
            return hi + 1
        return None

    # ---- statements
    def stmt(self):
        if self.accept("begin"):
            out = []
            while not self.accept("end"):
                s = self.stmt()
                if s is not None:
                    out.append(s)
            return ("block", out)
        if self.accept("if"):
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.stmt()
            b = None
            if self.accept("else"):
                b = self.stmt()
            return ("if", c, a, b)
        if self.at("priority") or self.at("unique") or self.at("casez") or self.at("case"):
            if self.at("priority") or self.at("unique"):
                self.next()
            kind = self.next()[1]
            self.expect("(")
            subj = self.expr()
            self.expect(")")
            arms = []
            while not self.accept("endcase"):
                if self.accept("default"):
                    self.accept(":")
                    arms.append((None, self.stmt()))
                else:
                    labels = [self.expr()]
                    while self.accept(","):
                        labels.append(self.expr())
                    self.expect(":")
                    arms.append((labels, self.stmt()))
            return ("case", kind, subj, arms)
        if self.accept("#"):
            self.next()
            if self.accept(";"):
                return None
            return self.stmt()
        if self.at("assert"):
            self.next()
            self.expect("(")
            e = self.expr()
            self.expect(")")
            mark = len(self.sys)
            if self.accept("else"):
                self.stmt()
            else:
                self.accept(";")
            return ("assert", e, self.sys[mark:])
        if self.accept(";"):
            return None
        k, v = self.peek()
        if k == "id" and v.startswith("$"):
            self.next()
            args = []
            self.sys.append((v, args))
            if self.accept("("):
                d = 1
                while d:
                    x = self.next()
                    args.append(x)
                    if x[0] == "op" and x[1] == "(":
                        d += 1
                    elif x[0] == "op" and x[1] == ")":
                        d -= 1
                    elif x[0] == "eof":
                        raise VError("eof")
            self.expect(";")
            return None
        lhs = self.primary()
        if self.accept("<="):
            rhs = self.expr()
            self.expect(";")
            return ("nb", lhs, rhs)
        self.expect("=")
        rhs = self.expr()
        self.expect(";")
        return ("blk", lhs, rhs)

    # ---- modules
    def declare(self, m, name, width, ranged, kind, depth=None, dir=None):
        if name in m.nets or name in m.consts:
            m.redeclared.append(name)
            return
        m.nets[name] = Net(name, width, ranged, kind, depth, dir)

    def module(self):
        m = Module(self.ident())
        self.expect("(")
        if not self.at(")"):
            while True:
                k, d = self.next()
                if d not in ("input", "output", "inout"):
                    raise VError(f"port direction expected, got {d!r} in {m.name}")
                if self.at("wire") or self.at("logic"):
                    self.next()
                w = self.range_opt()
                name = self.ident()
                if name in m.nets:
                    m.redeclared.append(name)
                self.declare(m, name, w or 1, w is not None, "port", None, d)
                m.ports.append((d, name, w or 1))
                if not self.accept(","):
                    break
        self.expect(")")
        self.expect(";")
        while not self.accept("endmodule"):
            self.item(m)
        return m

    def item(self, m):
        k, v = self.peek()
        if k == "id" and v in ("logic", "reg", "wire"):
            self.next()
            w = self.range_opt()
            name = self.ident()
            depth = None
            if self.at("["):
                depth = self.range_opt()
            if self.accept("="):
                m.assigns.append((("id", name), self.expr()))
            self.expect(";")
            self.declare(m, name, w or 1, w is not None, v, depth)
        elif k == "id" and v == "localparam":
            self.next()
            w = self.range_opt()
            name = self.ident()
            self.expect("=")
            e = self.expr()
            self.expect(";")
            if name in m.consts or name in m.nets:
                m.redeclared.append(name)
            else:
                m.consts[name] = (w, e)
        elif k == "id" and v == "assign":
            self.next()
            lhs = self.primary()
            self.expect("=")
            rhs = self.expr()
            self.expect(";")
            m.assigns.append((lhs, rhs))
        elif k == "id" and v == "always_comb":
            self.next()
            m.combs.append(self.stmt())
        elif k == "id" and v in ("always", "always_ff"):
            self.next()
            self.expect("@")
            self.expect("(")
            if self.accept("posedge"):
                clk = self.expr()
                self.expect(")")
                m.seqs.append((clk, self.stmt()))
            elif self.at("negedge"):
                raise VError("negedge")
            else:
                sens = self.expr()
                self.expect(")")
                s = self.stmt()
                for e, calls in _asserts(s):
                    m.asserts.append((sens, e, calls))
        elif k == "id" and v == "initial":
            self.next()
            s = self.stmt()
            found = list(_asserts(s))
            for e, calls in found:
                m.asserts.append((None, e, calls))
            if not found:
                m.inits.append(s)
        elif k == "op" and v == ";":
            self.next()
        elif k == "id!" or (k == "id" and v not in KEYWORDS):
            mod = self.ident()
            params = {}
            if self.accept("#"):
                self.expect("(")
                while not self.accept(")"):
                    self.expect(".")
                    n = self.ident()
                    self.expect("(")
                    params[n] = self.expr()
                    self.expect(")")
                    self.accept(",")
            inst = self.ident()
            self.expect("(")
            conns = {}
            if not self.at(")"):
                while True:
                    self.expect(".")
                    n = self.ident()
                    self.expect("(")
                    e = None if self.at(")") else self.expr()
                    self.expect(")")
                    if n in conns:
                        raise Illegal(f"port {n} connected twice on {inst} in {m.name}")
                    conns[n] = e
                    if not self.accept(","):
                        break
            self.expect(")")
            self.expect(";")
            if any(inst == i[1] for i in m.insts) or inst in m.nets or inst in m.consts:
                m.redeclared.append(inst)
            m.insts.append((mod, inst, params, conns))
        else:
            ctx = " ".join(x for _, x in self.t[max(0, self.p - 12) : self.p + 12])
            raise VError(f"unexpected item {v!r} in {m.name} near: {ctx}")

    def design(self, only=None):
        mods = {}
        while self.peek()[0] != "eof":
            self.expect("module")
            m = self.module()
            if m.name in mods:
                raise Illegal(f"module {m.name} defined twice")
            mods[m.name] = m
        return mods


def _asserts(s):
    if s is None:
        return
    if s[0] == "assert":
        yield s[1], s[2]
    elif s[0] == "block":
        for x in s[1]:
            yield from _asserts(x)
    elif s[0] == "if":
        yield from _asserts(s[2])
        yield from _asserts(s[3])


class Design:
    """All modules of one emitted file. Modules are parsed when first needed."""

    def __init__(self, text, defines=()):
        text, self.macros = preprocess(text, defines)
        self.src = {}
        self.mods = {}
        self.stubs = {}  # name -> function from the parameters to the text of a module
        # split at module boundaries (the keyword at the start of a line)
        cur = None
        name = None
        dup = []
        for l in text.split("\n"):
            m = re.match(r"^\s*module\s+(\\?\S+)", l)
            if m and cur is None:
                cur = [l]
                name = m.group(1)
                name = name[1:] if name.startswith("\\") else name.rstrip("(")
            elif cur is not None:
                cur.append(l)
                if re.match(r"^endmodule\b", l.strip()):
                    if name in self.src:
                        dup.append(name)
                    self.src[name] = "\n".join(cur)
                    cur = None
        if dup:
            raise Illegal(f"modules defined twice: {dup}")
        if cur is not None:
            raise VError("unterminated module")

    def __contains__(self, n):
        return n in self.src

    def stub(self, n, params):
        """the name of the module that stands for n with these parameters"""
        name = n + repr(sorted(params.items()))
        if name not in self.src:
            self.src[name] = self.stubs[n](params)
        return name

    def __getitem__(self, n):
        if n not in self.mods:
            p = Parser(self.src[n], self.macros)
            p.expect("module")
            m = p.module()
            m.text = self.src[n]
            self.mods[n] = m
        return self.mods[n]
