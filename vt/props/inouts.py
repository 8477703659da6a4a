"""P30: inout ports are driven when, and only when, the program writes to them."""
import random
import z3
from ..check import Case, Ob, Violation, Verdict, in_val, out_val, OUT
from ..spec import *
from ..gen import Gen, Opts, fresh, leaves, subst
from .asserts import Writer, Unit, variables


class Pin:
    """val: the value on the wires; drivers: what is written, per element for element wise access"""

    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.val = fresh(ty)
        self.drivers = []  # (element or None, value of the option type)


class G(Gen):
    def expr(self, t, d, sc):
        # a match or if of zero size is not supported by the language
        return self.construct(t, 0, sc) if t.w == 0 else super().expr(t, d, sc)


class IO(Writer):
    def __init__(self, r, uid):
        super().__init__(r, uid)
        self.g = G(r, uid, Opts(maxw=8, call=0, lam=0))

    def pin_type(self):
        r = self.r
        k = r.random()
        if k < 0.08:
            return r.choice([Tuple(), Array(Tuple(), 2), Array(Tuple(), 1), Tuple(Tuple(), Tuple()), Array(Tuple(Tuple()), 3)])
        if k < 0.2:
            return r.choice([Bool, UInt(1), Int(1), Tuple(Bool), Array(Bool, 1), Array(UInt(1), 2)])
        t = self.g.small_type(2)
        if k < 0.5:
            return Array(t, r.choice([1, 2, 2, 3, 4]))
        return t

    def driver_expr(self, sc, T):
        r, g = self.r, self.g
        O = option(T)
        k = r.random()
        if k < 0.2:
            c, e = g.expr(Bool, 1, sc), g.expr(T, 1, sc)
            return Ex(O, f"if {c.s} {{ Some({e.s}) }} else {{ None }}", O.ite(is1(c.v), O.make(1, [e.v]), O.make(0, [])))
        if k < 0.27:
            e = g.expr(T, 1, sc)
            return Ex(O, f"Some({e.s})", O.make(1, [e.v]))
        if k < 0.31:
            return Ex(O, "None", O.make(0, []))
        return g.expr(O, 2, sc)

    def read(self, u, T, val, drv):
        O = option(T)
        return self.var(u, O, O.ite(O.is_(drv, 1), O.make(0, []), O.make(1, [val])))

    def access(self, u, pin, sc):
        """text of one use of the pin"""
        r, g = self.r, self.g
        n = len(u.text)
        T = pin.ty
        form = r.random()
        cs = [c for c in self.units if len(c.pins) == 1 and c.fits(T) and (u.kind != "fn" or c.kind == "fn") and u.delay + c.delay < 6]
        if form < 0.45 and cs:
            c = r.choice(cs)
            args = [g.expr(t, 1, sc) for t in c.ptypes(T)]
            nm = f"x{u.n}"
            u.n += 1
            v = self.enter(u, c, [pin], args, T)
            R = c.ret_of(T)
            u.text.append(f"let {nm}: {R.src} = {c.call(r, [pin.name], args)};")
            sc.append((nm, Ex(R, nm, self.var(u, R, v))))
        elif isinstance(T, Array) and r.random() < 0.7:
            n = T.n
            names = []
            if r.random() < 0.7:
                names = [(f"r{u.n}_{i}", f"w{u.n}_{i}") for i in range(n)]
                u.text.append(f"let [{', '.join(f'({a}, {b})' for a, b in names)}] = {pin.name}.read_write_items();")
            else:
                for i in range(n):
                    names.append((f"r{u.n}_{i}", f"w{u.n}_{i}"))
                u.text.append(f"let m{u.n} = {pin.name}.read_write_items();")
                for i in range(n):
                    u.text.append(f"let ({names[i][0]}, {names[i][1]}) = m{u.n}[{i}];")
            u.n += 1
            order = list(range(n))
            r.shuffle(order)
            for i in order:
                e = self.driver_expr(sc, T.inner)
                drv = self.var(u, option(T.inner), e.v)
                pin.drivers.append((i, drv))
                u.text.append(f"set {names[i][1]} = {e.s};")
                v = self.read(u, T.inner, pin.val[i], drv)
                sc.append((names[i][0], Ex(option(T.inner), names[i][0], v)))
        else:
            e = self.driver_expr(sc, T)
            drv = self.var(u, option(T), e.v)
            pin.drivers.append((None, drv))
            a, b = f"r{u.n}", f"w{u.n}"
            u.n += 1
            src = r.choice([f"{pin.name}.read_write()"] * 3 + [f"std::ports::read_write_inout({pin.name})", f"{{ {pin.name} }}.read_write()"])
            u.text.append(f"let ({a}, {b}) = {src};")
            if r.random() < 0.5:
                u.text.append(f"set {b} = {e.s};")
            else:
                u.text.append(f"let d{a} = {e.s}; set {b} = d{a};")
            sc.append((a, Ex(option(T), a, self.read(u, T, pin.val, drv))))

    def enter(self, u, c, pins, args, T):
        """an instance of c, whose pins are those given"""
        if isinstance(c, Generic):
            # (pin: inout<T>, a: Option<T>) -> Option<T>
            drv = self.var(u, option(T), args[0].v)
            pins[0].drivers.append((None, drv))
            v = self.read(u, T, pins[0].val, drv)
            if c.delay:
                u.delay += 1
                v = self.var(u, option(T), v, 1)
            return v
        pairs = []
        for p, q in zip(c.pins, pins):
            pairs += list(zip(leaves(p.val), leaves(q.val)))
        for p, a in zip(c.pv, args):
            pairs += list(zip(leaves(p), leaves(a.v)))
        for x, d, k in c.defs:
            pairs.append((x, z3.BitVec(f"{x.decl().name()}'{len(u.defs)}", x.size())))
        sub = {x.get_id(): n for x, n in pairs}
        for x, d, k in c.defs:
            u.defs.append((sub[x.get_id()], z3.substitute(d, *pairs), k))
        for p, q in zip(c.pins, pins):
            q.drivers += [(i, subst(d, pairs)) for i, d in p.drivers]
        u.delay += c.delay
        return subst(c.val, pairs)

    def build(self, name=None):
        r, g = self.r, self.g
        kind = r.choice(["fn", "entity"]) if not name else "entity"
        u = Unit(name or g.name("u"), kind)
        u.text, u.n = [], 0
        g.entity = kind != "fn"
        npins = 1 if not name and r.random() < 0.8 else r.randint(1, 3)
        u.pins = [Pin(f"io{i}" if name else r.choice(["pin", "io0", "p", "bus"]) + (f"_{i}" if i else ""), self.pin_type()) for i in range(npins)]
        u.params = [(n, g.small_type(2)) for n in "abcd"[: r.randint(1, 3)]]
        u.params.append(("o", option(u.pins[0].ty)))
        u.pv = [fresh(T) for _, T in u.params]
        sc = [(n, Ex(T, n, v)) for (n, T), v in zip(u.params, u.pv)]
        for p in u.pins:
            if kind == "entity" and r.random() < 0.3:
                T = g.small_type(2) if r.random() < 0.5 else option(p.ty)
                e = g.expr(T, 1, sc)
                nm = f"s{u.n}"
                u.n += 1
                u.text.append(f"reg(clk) {nm}: {T.src} = {e.s};")
                sc.append((nm, Ex(T, nm, self.var(u, T, e.v, 1))))
                u.delay += 1
            self.access(u, p, sc)
        # the result shows everything that was read
        reads = [e for n, e in sc[len(u.params):]]
        r.shuffle(reads)
        reads = reads[:5] or [sc[0][1]]
        if r.random() < 0.3 and not name:
            e = g.expr(g.small_type(2), 2, sc)
        else:
            e = reads[0] if len(reads) == 1 else Ex(Tuple(*[x.ty for x in reads]), f"({', '.join(x.s for x in reads)})", [x.v for x in reads])
        u.ret, u.val = e.ty, e.v
        ps = [f"#[no_mangle] {p.name}: inout<{p.ty.src}>" for p in u.pins] + [f"{n}: {T.src}" for n, T in u.params]
        if kind == "entity":
            ps.insert(0, "clk: clock")
        deco = "#[inline]\n" if r.random() < 0.3 and not name else ""
        self.text.append(f"{deco}{kind} {u.name}({', '.join(ps)}) -> {u.ret.src} {{\n" + "".join(f"    {t}\n" for t in u.text) + f"    {e.s}\n}}\n")
        T0 = u.pins[0].ty
        u.fits = lambda T: T == T0
        u.ptypes = lambda T: [t for _, t in u.params]
        u.ret_of = lambda T: u.ret

        def call(r, pins, args):
            named = r.random() < 0.3
            l = [(p.name, x) for p, x in zip(u.pins, pins)] + [(n, a.s) for (n, _), a in zip(u.params, args)]
            if kind == "entity":
                l.insert(0, ("clk", "clk"))
            if named:
                r.shuffle(l)
                body = "$(" + ", ".join(n if n == x else f"{n}: {x}" for n, x in l) + ")"
            else:
                body = "(" + ", ".join(x for _, x in l) + ")"
            return ("inst " if kind == "entity" else "") + u.name + body

        u.call = call
        return u


class Generic:
    """written by hand: generic in the type of the pin"""

    def __init__(self, name, text, call, delay=0, kind="fn", fits=lambda T: True):
        self.name, self.text, self.call, self.delay, self.kind, self.fits = name, text, call, delay, kind, fits
        self.pins = [None]

    def ptypes(self, T):
        return [option(T)]

    def ret_of(self, T):
        return option(T)


def generics(uid):
    n = f"gio{uid}"
    return [
        Generic(
            f"{n}a", f"fn {n}a<T>(#[no_mangle] bidi: inout<T>, v: Option<T>) -> Option<T> {{ let (r, w) = bidi.read_write(); set w = v; r }}",
            lambda r, p, a: f"{n}a({p[0]}, {a[0].s})",
        ),
        Generic(
            f"{n}b", f"#[inline] fn {n}b<T>(#[no_mangle] bidi: inout<T>, v: Option<T>) -> Option<T> {{ let (r, w) = bidi.read_write(); set w = v; r }}",
            lambda r, p, a: f"{n}b({p[0]}, {a[0].s})",
        ),
        Generic(
            f"{n}c", f"entity {n}c<T>(clk: clock, #[no_mangle] bidi: inout<T>, v: Option<T>) -> Option<T> where T: Data {{ let (r, w) = bidi.read_write(); set w = v; reg(clk) s = r; s }}",
            lambda r, p, a: f"inst {n}c({'clk, ' + p[0] + ', ' + a[0].s})", 1, "entity",
        ),
        Generic(
            f"{n}d", f"entity {n}d<T>(#[no_mangle] deep: inout<T>, v: Option<T>) -> Option<T> {{ {n}a$(v, bidi: deep) }}",
            lambda r, p, a: f"inst {n}d$(v: {a[0].s}, deep: {p[0]})", 0, "entity",
        ),
    ]


class IoCase(Case):
    def __init__(self, name, src, top, u, **kw):
        super().__init__(name, src, top, **kw)
        self.u = u

    def obligations(self, ctx):
        u = self.u
        s = ctx.sim()
        T = u.delay
        frames = [s.step() for _ in range(T + 1)]
        base, ok = {}, []
        ports = {n: (d, w) for d, n, w in s.elab.top.module.ports}
        for p in u.pins:
            have = ports.get(p.name)
            if p.ty.w == 0:
                if have:
                    raise Violation("port", f"{p.name} of size zero has a port")
            elif have is None or have[0] != "inout" or have[1] != p.ty.w:
                raise Violation("port", f"{p.name}: {p.ty.src} has the port {have}")
            seen = 0
            for d in s.elab.top.drivers.get(p.name, []):
                m = (1 << d.hi + 1) - (1 << d.lo)
                if seen & m:
                    raise Violation("port", f"{p.name}: bits {d.hi} to {d.lo} are driven twice")
                seen |= m
        for t in range(T + 1):
            for (n, ty), c in zip(u.params, u.pv):
                v, o = in_val(frames[t], n, ty)
                ok.append(o)
                for a, b in zip(leaves(c), leaves(v)):
                    base[(a.get_id(), t)] = b
        defs = {c.get_id(): (d, k, variables(d)) for c, d, k in u.defs}
        # the wires: what is written, or what the surroundings put there
        for p in u.pins:
            ext = []
            for t in range(T + 1):
                bits = frames[t].input(p.name, p.ty.w) if p.ty.w else None
                ok.append(p.ty.ok(bits))
                v = p.ty.decode(bits)
                ext.append(v)
            e0 = fresh(p.ty)
            for t in range(T + 1):
                for a, b in zip(leaves(e0), leaves(ext[t])):
                    base[(a.get_id(), t)] = b
            v = e0
            for i, d in p.drivers:
                if i is None:
                    O = option(p.ty)
                    v = p.ty.ite(O.is_(d, 1), d[1][1][0], v)
                else:
                    O = option(p.ty.inner)
                    v = list(v)
                    v[i] = p.ty.inner.ite(O.is_(d, 1), d[1][1][0], v[i])
            for a, b in zip(leaves(p.val), leaves(v)):
                defs[a.get_id()] = (b, 0, variables(b))
        memo = {}

        def at(x, t):
            """value of variable x in cycle t"""
            key = (x.get_id(), t)
            if key in base:
                return base[key]
            if key not in memo:
                d, k, vs = defs[x.get_id()]
                if t - k < 0:
                    # from before the first cycle; nothing that is compared depends on it
                    memo[key] = z3.BitVec(f"before{x.decl().name()}@{t}", x.size())
                else:
                    memo[key] = z3.substitute(d, *[(y, at(y, t - k)) for y in vs]) if vs else d
            return memo[key]

        def value(v):
            from ..gen import tmap

            return tmap(lambda e: z3.substitute(e, *[(y, at(y, T)) for y in variables(e)]) if variables(e) else e, v)

        fr = frames[T]
        if u.ret.w:
            want = value(u.val)
            got, bits = out_val(fr, u.ret)
            yield Ob("result", [z3.Not(u.ret.same(got, want))], [(T, "", OUT, bits)], ok, [("expected", u.ret, want), ("actual", u.ret, got)])
        for p in u.pins:
            if not p.ty.w:
                continue
            bits = fr.of(s.elab.top, p.name)
            got, want = p.ty.decode(bits), value(p.val)
            yield Ob(f"wires {p.name}", [z3.Not(p.ty.same(got, want))], [(T, "", p.name, bits)], ok, [("expected", p.ty, want), ("actual", p.ty, got)])


def make(r, uid):
    w = IO(r, uid)
    w.g.declare_types(r.randint(0, 3))
    top = f"io{uid}"
    gs = [x for x in generics(uid) if r.random() < 0.6]
    if any(x.name.endswith("d") for x in gs) and not any(x.name.endswith("a") for x in gs):
        gs.insert(0, generics(uid)[0])
    w.units += gs
    for _ in range(r.randint(0, 3)):
        w.units.append(w.build())
    u = w.build(top)
    src = "\n".join(w.g.items) + "\n" + "\n".join(x.text for x in gs) + "\n" + "\n".join(w.text)
    return IoCase(top, src, top, u)


VERDICTS = [
    # (text, accepted, why)
    ("let (r, w) = io.read_write(); set w = a; r", True, "one access"),
    ("let (r, w) = io.read_write(); r", False, "what is written is not set"),
    ("let (r, w) = io.read_write(); set w = a; set w = a; r", False, "written twice"),
    ("let (r, w) = io.read_write(); set w = a; let (p, q) = io.read_write(); set q = a; r", False, "two accesses"),
    ("let r = inst sub(io, a); let p = inst sub(io, a); r", False, "passed on twice"),
    ("let r = inst sub(io, a); let (p, q) = io.read_write(); set q = a; r", False, "passed on and accessed"),
    ("a", False, "not used"),
    ("let x = io; let (r, w) = x.read_write(); set w = a; r", False, "bound to a name"),
    ("let x = (io, true); let (r, w) = x#0.read_write(); set w = a; r", False, "in a tuple"),
    ("let (r, w) = (io, true)#0.read_write(); set w = a; r", False, "in an anonymous tuple"),
    ("let (r, w) = [io][0].read_write(); set w = a; r", False, "in an array"),
    ("let (r, w) = id(io).read_write(); set w = a; r", False, "returned"),
    ("let (r, w) = (if c { io } else { io }).read_write(); set w = a; r", False, "selected"),
    ("reg(clk) x = io; a", False, "in a register"),
    ("inst nomangle(io, a)", False, "mangled parameter"),
    ("inst intuple((io, true), a)", False, "parameter in a tuple"),
    ("let f = fn |x| { inst sub(io, x) }; f.call((a,))", False, "captured"),
    ("{ inst sub({ io }, a) }", True, "in a block"),
    ("inst sub$(v: a, bidi: io)", True, "named"),
    ("fsub(io, a)", True, "to a function"),
]
PRE = {
    "id": "fn id<T>(#[no_mangle] x: T) -> T { x }\n",
    "nomangle": "entity nomangle(x: inout<T0>, v: Option<T0>) -> Option<T0> { let (r, w) = x.read_write(); set w = v; r }\n",
    "intuple": "entity intuple(#[no_mangle] x: (inout<T0>, bool), v: Option<T0>) -> Option<T0> { let (r, w) = x#0.read_write(); set w = v; r }\n",
}


def p30(tier, rng):
    n = 400 if tier == "quick" else 6000
    out = [make(random.Random(rng.getrandbits(64)), f"{i}") for i in range(n)]
    for j, ty in enumerate(["uint<3>", "bool", "(bool, int<4>)", "[uint<2>; 3]", "Option<bool>"] if tier == "quick" else ["uint<3>", "bool", "(bool, int<4>)", "[uint<2>; 3]", "Option<bool>", "()", "[bool; 1]", "int<65>"]):
        for i, (body, want, why) in enumerate(VERDICTS):
            pre = "entity sub(#[no_mangle] bidi: inout<T0>, v: Option<T0>) -> Option<T0> { let (r, w) = bidi.read_write(); set w = v; r }\n"
            pre += pre.replace("entity sub", "fn fsub")
            for k, t in PRE.items():
                if k + "(" in body:
                    pre += t
            src = pre + f"entity top(clk: clock, #[no_mangle] io: inout<T0>, a: Option<T0>, c: bool) -> Option<T0> {{ {body} }}\n"
            out.append(Verdict(f"use{i}_{j}", src.replace("T0", ty), want, why))
    return out
