"""P29: every assertion of a program, and nothing else, is checked by the emitted hardware."""
import random
import re
import z3
from ..check import Case, Ob, Violation, in_val
from ..verilog import Design, VError
from ..sym import nz
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst, tmap

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LIMIT = 9  # cycles


class Unit:
    """A unit as a template: variables with what they are defined as, in the same or the previous cycle."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.params, self.pv, self.defs, self.asserts = [], [], [], []
        self.ret = self.val = None
        self.delay = 0
        self.depth = 0
        self.size = 0


class Writer:
    def __init__(self, r, uid):
        self.r, self.uid = r, uid
        self.g = Gen(r, uid, Opts(maxw=8, call=0, lam=0))
        self.units, self.text = [], []
        self.tags = 0

    def tag(self):
        self.tags += 1
        return f"@{self.uid}.{self.tags}@"

    def var(self, u, ty, value, delay=0):
        v = fresh(ty)
        u.defs += list(zip(leaves(v), leaves(value), [delay] * len(list(leaves(v)))))
        return v

    def instance(self, u, callee, args):
        """adds a copy of the callee's definitions and assertions, with fresh variables, to u"""
        pairs = []
        for p, a in zip(callee.pv, args):
            pairs += list(zip(leaves(p), leaves(a)))
        for c, d, k in callee.defs:
            n = z3.BitVec(f"{c.decl().name()}'{len(u.defs)}", c.size())
            pairs.append((c, n))
        sub = dict((c.get_id(), n) for c, n in pairs)
        for c, d, k in callee.defs:
            u.defs.append((sub[c.get_id()], z3.substitute(d, *pairs), k))
        for t, a in callee.asserts:
            u.asserts.append((t, z3.substitute(a, *pairs)))
        u.delay += callee.delay
        u.size += callee.size
        return subst(callee.val, pairs)

    # -- statements
    def assertion(self, u, sc, pad):
        r, g = self.r, self.g
        e = g.expr(Bool, r.choice([0, 1, 1, 2, 2, 3]), sc)
        t = self.tag()
        tail = r.choice(["", "", "", ' "quoted"', " 100% %d %", " back\\slash \\n \\", " `tick` $display", " {brace} é", " \"%s\\\""])
        u.asserts.append((t, e.v))
        return f"{pad}assert {e.s}; // {t}{tail}\n"

    def statements(self, u, sc, n, pad):
        """text; extends sc"""
        r, g = self.r, self.g
        out = ""
        for _ in range(n):
            k = r.random()
            if k < 0.4:
                out += self.assertion(u, sc, pad)
            elif k < 0.6:
                T = g.small_type(2)
                e = g.expr(T, 2, sc)
                nm = r.choice("klmnopq")
                out += f"{pad}let {nm}: {T.src} = {e.s};\n"
                sc.append((nm, Ex(T, nm, self.var(u, T, e.v))))
            elif k < 0.68:
                # a block with statements of its own
                T = g.small_type(1)
                inner = list(sc)
                txt = self.statements(u, inner, r.randint(1, 2), pad + "    ")
                e = g.expr(T, 1, inner)
                nm = r.choice("klmnopq")
                out += f"{pad}let {nm}: {T.src} = {{\n{txt}{pad}    {e.s}\n{pad}}};\n"
                sc.append((nm, Ex(T, nm, self.var(u, T, e.v))))
            elif k < 0.76 and u.kind == "fn" or k < 0.72:
                out += self.lam(u, sc, pad)
            elif k < 0.8 and u.kind == "entity" and u.delay < 2:
                T = g.small_type(2)
                e = g.expr(T, 2, sc)
                nm = g.name("s")  # a register is visible in its own definition
                rst, nv = "", e.v
                if r.random() < 0.4:
                    c, i = g.expr(Bool, 1, sc), g.expr(T, 0, [])
                    rst = f" reset ({c.s}: {i.s})"
                    nv = T.ite(is1(c.v), i.v, e.v)
                out += f"{pad}reg(clk) {nm}: {T.src}{rst} = {e.s};\n"
                sc.append((nm, Ex(T, nm, self.var(u, T, nv, 1))))
                u.delay += 1
            else:
                cs = [c for c in self.units if (u.kind != "fn" or c.kind == "fn") and (u.kind != "pipeline" or c.kind != "pipeline") and u.delay + c.delay < LIMIT - 2 and u.size + c.size < 60]
                if not cs:
                    continue
                c = r.choice(cs)
                args = [g.expr(T, 1, sc) for _, T in c.params]
                v = self.instance(u, c, [a.v for a in args])
                nm = r.choice("klmnopq")
                call = c.call(r, args)
                if c.ret.w and r.random() < 0.3 and c.kind == "fn":
                    call = f"({call})"
                out += f"{pad}let {nm}: {c.ret.src} = {call};\n"
                sc.append((nm, Ex(c.ret, nm, self.var(u, c.ret, v))))
        return out

    def lam(self, u, sc, pad):
        """a lambda with assertions, called once or twice"""
        r, g = self.r, self.g
        f = Unit("", "fn")
        T = g.small_type(1)
        p = fresh(T)
        f.params, f.pv = [("p", T)], [p]
        inner = [x for x in sc] + [("p", Ex(T, "p", p))]
        n = self.r.randint(1, 2)
        body = "".join(self.assertion(f, inner, pad + "    ") for _ in range(n))
        R = g.small_type(1)
        e = g.expr(R, 1, inner)
        f.val, f.ret = e.v, R
        nm = g.name("lam")
        out = f"{pad}let {nm} = fn |p| {{\n{pad}    let p: {T.src} = p;\n{body}{pad}    let q: {R.src} = {e.s}; q\n{pad}}};\n"
        for _ in range(r.choice([1, 1, 2])):
            a = g.expr(T, 1, sc)
            v = self.instance(u, f, [a.v])
            k = r.choice("klmnopq")
            out += f"{pad}let {k}: {R.src} = {nm}.call(({a.s},));\n"
            sc.append((k, Ex(R, k, self.var(u, R, v))))
        return out

    # -- units
    def unit(self, kind, name=None):
        r, g = self.r, self.g
        u = Unit(name or g.name("u"), kind)
        g.entity = kind != "fn"
        u.params = [(n, g.small_type(2)) for n in "abcd"[: r.randint(1, 3)]]
        u.pv = [fresh(T) for _, T in u.params]
        sc = [(n, Ex(T, n, v)) for (n, T), v in zip(u.params, u.pv)]
        u.ret = g.small_type(2)
        body = ""
        if kind == "pipeline":
            u.depth = r.randint(1, 3)
            for s in range(u.depth + 1):
                body += self.statements(u, sc, r.randint(0, 3), "    ")
                if s < u.depth:
                    body += "    reg;\n"
                    u.delay += 1
                    sc[:] = [(n, Ex(e.ty, n, self.var(u, e.ty, e.v, 1))) for n, e in g.visible(sc)]
        else:
            body += self.statements(u, sc, r.randint(2, 5), "    ")
        e = g.expr(u.ret, 2, sc)
        u.val = e.v
        u.size += len(u.asserts)
        deco = "#[inline]\n" if r.random() < 0.3 and not name and kind != "pipeline" else ""
        u.generic = 0 if name or r.random() < 0.7 else 1
        u.method = None
        ps = [f"{n}: {T.src}" for n, T in u.params]
        if u.generic:
            # a parameter which has no influence: several copies of the unit are made
            ps.append("extra: T")
        if kind != "fn":
            ps.insert(0, "clk: clock")
        if kind == "fn" and not u.generic and not name and r.random() < 0.3 and u.params[0][1].__class__.__name__ in ("Struct", "Enum") and not u.params[0][1].src.startswith("Option"):
            u.method = u.params[0][1]
            ps[0] = "self"
            body = f"    let a = self;\n" + body
        kw = f"pipeline({u.depth})" if kind == "pipeline" else kind
        gs = "<T>" if u.generic else ""
        txt = f"{deco}{kw} {u.name}{gs}({', '.join(ps)}) -> {u.ret.src} {{\n{body}    {e.s}\n}}\n"
        if u.method is not None:
            txt = f"impl {u.method.src} {{\n{txt}}}\n"
        self.text.append(txt)

        def call(r, args):
            a = [x.s for x in args]
            if u.method is not None:
                return f"({a[0]}).{u.name}({', '.join(a[1:])})"
            if u.generic:
                a.append(r.choice(["true", "1u4", "(2i3, false)", "[1u8, 2]", "Some(1u2)"]))
            if kind != "fn":
                a.insert(0, "clk")
            return {"fn": "", "entity": "inst ", "pipeline": f"inst({u.depth}) "}[kind] + f"{u.name}({', '.join(a)})"

        u.call = call
        return u


class AssertCase(Case):
    def __init__(self, name, src, top, u, **kw):
        super().__init__(name, src, top, **kw)
        self.u = u

    def obligations(self, ctx):
        u = self.u
        text = ctx.resp["verilog"]
        s = ctx.sim()
        frames, T = [], u.delay
        for _ in range(T + 1):
            frames.append(s.step())
        memo, ok = {}, []
        for t in range(T + 1):
            for (n, ty), p in zip(u.params, u.pv):
                v, o = in_val(frames[t], n, ty)
                ok.append(o)
                for a, b in zip(leaves(p), leaves(v)):
                    memo[(a.get_id(), t)] = b
        order = []
        for c, d, k in u.defs:
            order.append((c, d, k, variables(d)))
        for t in range(T + 1):
            for c, d, k, vs in order:
                if t - k >= 0 and all((x.get_id(), t - k) in memo for x in vs):
                    memo[(c.get_id(), t)] = z3.substitute(d, *[(x, memo[(x.get_id(), t - k)]) for x in vs]) if vs else d
        want = {}
        for tag, e in u.asserts:
            vs = variables(e)
            v = z3.substitute(e, *[(x, memo[(x.get_id(), T)]) for x in vs]) if vs else e
            want.setdefault(tag, []).append(v)

        # what is emitted
        got = {}
        probes = []
        lines = text_lines(self.src)
        for sc, sens, e, calls in s.elab.asserts:
            where = f"{sc.module.name}: assert ({show(e)})"
            if sens is not None and not reads(e) <= reads(sens):
                raise Violation("not checked again", f"{where} waits for changes of {show(sens)} only")
            if sens is not None and all(n in sc.module.consts for n in reads(e)):
                raise Violation("never checked", f"{where} waits for changes of a constant")
            if not any(n in ("$error", "$fatal") for n, _ in calls):
                raise Violation("no effect", f"{where} reports nothing when it fails")
            msg = []
            for n, a in calls:
                if n == "$display":
                    if len(a) != 2 or a[0][0] != "str":
                        raise Violation("message", f"{where}: $display arguments {a}")
                    x = a[0][1][1:-1]
                    if "%" in x.replace("%%", ""):
                        raise Violation("message", f"{where}: the message {x!r} refers to values that are not there")
                    msg.append(ANSI.sub("", re.sub(r"\\(.)", r"\1", x.replace("%%", "%"))))
            m = [i for l in msg for i in re.findall(r"t\.spade:(\d+):(\d+)", l)]
            if len(m) != 1:
                raise Violation("message", f"{where} does not tell where: {msg}")
            ln = int(m[0][0])
            l = lines.get(ln, "")
            k = re.search(r"// (@\S+@)", l)
            if not k or not any(l.strip() in x for x in msg):
                raise Violation("message", f"{where}: line {ln} is {l.strip()!r}, message {msg}")
            col = int(m[0][1])
            if l[:col - 1].strip() != "assert" and not l[: col - 1].strip().endswith("assert"):
                raise Violation("message", f"{where}: column {col} of {l!r}")
            got.setdefault(k.group(1), []).append((sc, e))
        for tag in sorted(set(want) | set(got)):
            w, g = want.get(tag, []), got.get(tag, [])
            if len(w) != len(g):
                raise Violation("assertions", f"{tag}: {len(w)} assertions in the program, {len(g)} in the hardware")
        # none of them is there for synthesis; all are with the short messages
        for defs, n in (({"SYNTHESIS"}, 0), ({"NO_PRETTY_ASSERT"}, sum(map(len, got.values())))):
            k = len(count(Design(text, defs), self.top))
            if k != n:
                raise Violation("assertions", f"{k} assertions instead of {n} with {defs} defined")
        fr = frames[T]
        for tag in sorted(want):
            bits = []
            probes = []
            for sc, e in got[tag]:
                v = fr.sd(sc, e)
                bits.append(nz(v))
                if e[0] == "id" and e[1] not in sc.module.consts:
                    probes.append((T, sc.path, e[1], v))
            n = len(bits).bit_length() + 1

            def total(bs):
                return sum((z3.If(b, z3.BitVecVal(1, n), z3.BitVecVal(0, n)) for b in bs), z3.BitVecVal(0, n))

            ws = [is1(x) for x in want[tag]]
            yield Ob(f"assert {tag}", [total(bits) != total(ws)], probes, ok, [("holds", Bool, z3.If(w, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))) for w in ws])
        if not want:
            yield Ob("none", [z3.BoolVal(False)])


def count(design, top):
    from ..elab import Elab

    return Elab(design, top).asserts


def text_lines(src):
    return {i + 1: l for i, l in enumerate(src.split("\n"))}


def variables(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def reads(e):
    if e[0] == "id":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple):
            out |= reads(x)
        elif isinstance(x, list):
            for y in x:
                out |= reads(y)
    return out


def show(e):
    return " ".join(sorted(reads(e)))


def make(r, uid, name):
    w = Writer(r, uid)
    w.g.declare_types(r.randint(1, 3))
    for _ in range(r.randint(0, 4)):
        w.units.append(w.unit(r.choice(["fn", "fn", "entity", "pipeline"])))
    top = f"at{uid}"
    kind = r.choice(["entity", "entity", "fn", "pipeline"])
    u = w.unit(kind, top)
    src = "\n".join(w.g.items) + "\n" + "\n".join(w.text)
    ps = r.choice([[], [], ["enum_clock_gating"], ["split_compound_regs"], ["split_compound_regs", "enum_clock_gating"]])
    return AssertCase(name, src, top, u, solo=True, opts=dict(opt=ps) if ps else {})


def p29(tier, rng):
    n = 400 if tier == "quick" else 6000
    return [make(random.Random(rng.getrandbits(64)), f"{i}", f"assert{i}") for i in range(n)]
