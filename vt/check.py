"""Check framework: cases -> obligations -> solver verdicts -> replay -> evidence and exit code."""
import re
import collections
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

import z3

from . import driver, sym, conc, spec
from .verilog import Design, VError, Illegal
from .elab import Elab

ROOT = driver.ROOT
OUT = "output__"


class Ob:
    """A claim: `neg` (a list of z3 Bools) is unsatisfiable. Probes are the netlist values the claim
    talks about: (frame index, scope path, net name, z3 bits)."""

    def __init__(self, name, neg, probes=(), assume=(), show=()):
        self.name, self.neg, self.probes, self.assume, self.show = name, list(neg), list(probes), list(assume), list(show)


class Violation(Exception):
    """Raised by a case whose program itself breaks the property (rejected, illegal output...)."""

    def __init__(self, name, detail):
        super().__init__(detail)
        self.name, self.detail = name, detail


class Case:
    """One program. `src` is a set of top level items; `top` the unit that is examined."""

    opts = {}
    expect_accept = True
    solo = False  # compile on its own

    def __init__(self, name, src, top, fn=None, opts=None, solo=False, group=None):
        self.name, self.src, self.top, self.fn = name, src, top, fn
        self.opts = opts or {}
        self.solo = solo
        # cases of a group have the same source text, which is compiled once for all of them
        self.group = group

    def obligations(self, ctx):
        return self.fn(ctx)

    def judge(self, resp):
        """For cases that are about the compiler's verdict: called instead of obligations()."""
        return None


class Ctx:
    """What a case sees: the emitted design, and simulators made from it."""

    def __init__(self, case, design, resp, srv):
        self.case, self.design, self.resp, self.srv = case, design, resp, srv
        self.sims = []
        self.modules = 0

    def elab(self, top=None):
        e = Elab(self.design, top or self.case.top)
        if e.issues:
            k, p, d = e.issues[0]
            raise Violation(f"structure:{k}", f"{k}: {p}: {d} (module {top or self.case.top})")
        if e.blackboxes:
            raise VError(f"instance of unknown module {e.blackboxes[0][1]}")
        self.modules += len(e.scopes)
        return e

    def sim(self, top=None, tag="", **kw):
        e = top if isinstance(top, Elab) else self.elab(top)
        s = sym.Sim(e, tag=tag, **kw)
        self.sims.append(s)
        return s


class X:
    """Fresh don't-care bits for encoding specification values."""

    n = 0

    def __call__(self, w):
        X.n += 1
        return z3.BitVec(f"dc{X.n}", w)


fresh_x = X()


def in_val(frame, name, ty):
    """(value, validity) of input port `name` of Spade type ty at a frame"""
    if ty.w == 0:
        return ty.decode(None), z3.BoolVal(True)
    pn = name + "_i"
    el = frame.sim.elab
    w = {n: w for n, w, d in el.inputs}.get(pn)
    if w is None:
        raise Violation("port missing", f"{el.top.module.name} has no input {pn}")
    if w != ty.w:
        raise Violation("port width", f"{el.top.module.name}: input {pn} has {w} bits, {ty.src} needs {ty.w}")
    bits = frame.input(pn, ty.w)
    return ty.decode(bits), ty.ok(bits)


def out_val(frame, ty, name=OUT):
    el = frame.sim.elab
    w = dict(el.outputs).get(name)
    if w is None:
        raise Violation("port missing", f"{el.top.module.name} has no output {name}")
    if w != ty.w:
        raise Violation("port width", f"{el.top.module.name}: output {name} has {w} bits, {ty.src} needs {ty.w}")
    bits = frame.out(name)
    return ty.decode(bits), bits


class Comb(Case):
    """f(inputs) -> value, no state."""

    def __init__(self, name, src, top, inputs, out, f, pre=None, **kw):
        super().__init__(name, src, top, **kw)
        self.inputs, self.out, self.f, self.pre = inputs, out, f, pre

    def obligations(self, ctx):
        s = ctx.sim()
        fr = s.step()
        vals, ok = {}, []
        for n, t in self.inputs:
            if isinstance(t, spec.ClockT):
                continue
            vals[n], o = in_val(fr, n, t)
            ok.append(o)
        want = self.f(**vals)
        if isinstance(want, spec.Ex):
            ok += list(want.pre)
            want = want.v
        if self.pre is not None:
            ok += self.pre(**vals)
        if self.out.w == 0:
            if dict(s.elab.outputs):
                raise Violation("port width", f"{self.top}: zero size output has a port")
            yield Ob("shape", [z3.BoolVal(False)])
            return
        got, bits = out_val(fr, self.out)
        yield Ob(
            "value", [z3.Not(self.out.same(got, want))], [(0, "", OUT, bits)], ok, [("expected", self.out, want), ("actual", self.out, got)]
        )


class Seq(Case):
    """spec(inputs: list over cycles of {name: value}) -> list of (cycle, condition, expected value)."""

    def __init__(self, name, src, top, inputs, out, f, frames, pre=None, sim_kw=None, **kw):
        super().__init__(name, src, top, **kw)
        self.inputs, self.out, self.f, self.frames, self.pre, self.sim_kw = inputs, out, f, frames, pre, sim_kw or {}

    def obligations(self, ctx):
        s = ctx.sim(**self.sim_kw)
        ins, ok = [], []
        for t in range(self.frames):
            fr = s.step()
            vals = {}
            for n, ty in self.inputs:
                if isinstance(ty, spec.ClockT):
                    continue
                vals[n], o = in_val(fr, n, ty)
                ok.append(o)
            ins.append(vals)
        if self.pre is not None:
            ok += self.pre(ins)
        for t, cond, want in self.f(ins):
            if isinstance(want, spec.Ex):
                cond = z3.And(cond, *want.pre)
                want = want.v
            got, bits = out_val(s.frames[t], self.out)
            yield Ob(
                f"cycle{t}", [cond, z3.Not(self.out.same(got, want))], [(t, "", OUT, bits)], ok,
                [("expected", self.out, want), ("actual", self.out, got)],
            )


def first_error(resp):
    """the diagnostics, without the warnings before the first error"""
    d = re.sub(r"\x1b\[[0-9;]*m", "", resp.get("diag") or "")
    m = re.search(r"^error", d, re.M)
    return d[m.start():] if m else d


class Verdict(Case):
    """The compiler has to accept (want=True) or reject (want=False) the program; never panic."""

    solo = True

    def __init__(self, name, src, want, why="", opts=None, formula=None):
        super().__init__(name, src, None, opts=opts, solo=True)
        self.want, self.why, self.formula = want, why, formula

    def judge(self, resp):
        if resp.get("panic") is not None:
            return "panic", f"the compiler panicked: {resp['panic'][:300]}"
        if resp["ok"] != self.want:
            return ("accepted" if resp["ok"] else "rejected"), (
                f"{'accepted' if resp['ok'] else 'rejected'} although it should be "
                f"{'accepted' if self.want else 'rejected'} ({self.why})\n{first_error(resp)[:1500]}"
            )
        return None


# ------------------------------------------------------------------ solving
class Stats:
    def __init__(self):
        self.c = collections.Counter()
        self.time = 0.0
        self.samples = []
        self.slow = (0.0, "")


def solve(fs, timeout):
    """'sat' + model, 'unsat' or 'unknown'"""
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*fs)
    r = s.check()
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    return "unknown", s


def solve_hard(fs, timeout):
    """z3's default, then its bit-blasting tactic, then cvc5"""
    r, m = solve(fs, timeout)
    if r != "unknown":
        return r, m
    t = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv", "bit-blast", "sat")
    s = t.solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*fs)
    r = s.check()
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    r = cvc5_check(fs, timeout)
    if r == "unsat":
        return "unsat", None
    return "unknown", None


def cvc5_check(fs, timeout):
    s = z3.Solver()
    s.add(*fs)
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        r = subprocess.run(["cvc5", "-q", f"--tlimit={int(timeout*1000)}", f.name], capture_output=True, text=True, timeout=timeout + 20)
        out = r.stdout.strip().split("\n")
        if "(error" in r.stdout:
            return "unknown"
        return out[-1] if out and out[-1] in ("sat", "unsat") else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


def model_int(m, e):
    v = m.eval(e, model_completion=True)
    return v.as_long()


def show_value(ty, v, m):
    if isinstance(ty, (spec.Int,)):
        x = m.eval(v, model_completion=True)
        return str(x.as_signed_long())
    if isinstance(ty, spec.Scalar):
        return str(model_int(m, v))
    if isinstance(ty, spec.Enum):
        tag = model_int(m, v[0]) if ty.tagw else 0
        if tag >= len(ty.variants):
            return f"<invalid tag {tag}>"
        n, fs = ty.variants[tag]
        return n + ("(" + ", ".join(show_value(t, x, m) for (_, t), x in zip(fs, v[1][tag])) + ")" if fs else "")
    return "[" + ", ".join(show_value(t, x, m) for t, x in zip(ty.members, v)) + "]"


def replay(sims, ob, m):
    """Run the concrete simulator on the model's inputs; every probe must agree with the encoding."""
    for s in sims:
        mine = [p for p in ob.probes if (p[4] if len(p) > 4 else sims[0]) is s]
        if not mine:
            continue
        wid = {n: w for n, w, d in s.elab.inputs}

        def oracle(key, w, s=s):
            v = s.unknowns.get(key)
            return model_int(m, v) if v is not None else 0

        def inputs(n, t, w, s=s):
            if t < len(s.frames) and n in s.frames[t].inputs:
                return model_int(m, s.frames[t].inputs[n])
            return 0

        def ticks(root, t, s=s):
            return z3.is_true(m.eval(s.frames[t].ticks[root], model_completion=True))

        c = conc.Conc(s.elab, oracle, inputs, ticks, s.free_init)
        want = collections.defaultdict(list)
        for p in mine:
            want[p[0]].append(p)
        for t in range(max(want) + 1):
            for p in want.get(t, []):
                sc = next(x for x in s.elab.scopes if x.path == p[1])
                r, n = sc.root(p[2])
                a, b = c.v[(r.path, n)], model_int(m, p[3])
                if a != b:
                    return f"replay disagrees with the encoding on {p[1]}.{p[2]} at cycle {t}: {a:#x} vs {b:#x}"
            if t < max(want):
                c.clock()
    return None


def describe(ctx, ob, m):
    out = {"inputs": {}, "values": {}}
    for s in ctx.sims:
        for t, f in enumerate(s.frames):
            for n, v in f.inputs.items():
                out["inputs"][f"{s.tag}{n}@{t}"] = hex(model_int(m, v))
    for n, ty, v in ob.show:
        try:
            out["values"][n] = show_value(ty, v, m)
        except Exception as e:
            out["values"][n] = f"? {e}"
    for p in ob.probes:
        out["values"][f"{p[1]}{'.' if p[1] else ''}{p[2]}@{p[0]}"] = hex(model_int(m, p[3]))
    return out


# ------------------------------------------------------------------ running
class Result:
    def __init__(self):
        self.violations = []  # dict(case, ob, detail, src, cex)
        self.errors = []
        self.stats = collections.Counter()
        self.solver_s = 0.0
        self.samples = []
        self.slow = (0.0, "")
        self.wall = 0.0


CFG = dict(timeout=25, prop="", xcheck=0)


def run_case(case, design, resp, srv, res):
    ctx = Ctx(case, design, resp, srv)
    res.stats["programs"] += 1
    try:
        first = True
        for ob in case.obligations(ctx):
            res.stats["obligations"] += 1
            t0 = time.time()
            r, m = solve_hard(ob.assume + ob.neg, CFG["timeout"])
            dt = time.time() - t0
            res.solver_s += dt
            res.stats["queries"] += 1
            if dt > res.slow[0]:
                res.slow = (round(dt, 2), f"{case.name}/{ob.name}")
            if r == "unknown":
                r, m = concretised(ctx, ob, res)
            if r == "sat":
                bad = replay(ctx.sims, ob, m)
                if bad:
                    res.errors.append(f"{case.name}/{ob.name}: {bad}")
                else:
                    d = describe(ctx, ob, m)
                    res.violations.append(dict(case=case.name, ob=ob.name, detail="the emitted hardware differs from the specification", src=case.src, opts=case.opts, cex=d))
                return
            if r != "unsat":
                res.errors.append(f"{case.name}/{ob.name}: solver gave no verdict")
                return
            res.stats["discharged"] += 1
            if first:
                first = False
                # the assumptions can be met, and the encoding agrees with the concrete simulator there
                t0 = time.time()
                r, m = solve(ob.assume, CFG["timeout"])
                res.solver_s += time.time() - t0
                if r == "unsat":
                    res.errors.append(f"{case.name}/{ob.name}: vacuous (assumptions unsatisfiable)")
                elif r == "sat":
                    res.stats["witnesses"] += 1
                    bad = replay(ctx.sims, ob, m)
                    if bad:
                        res.errors.append(f"{case.name}/{ob.name}: {bad}")
                    if len(res.samples) < 1:
                        res.samples.append(dict(program=str(case.src).strip()[:600], obligation=ob.name, witness=describe(ctx, ob, m)))
                if CFG["xcheck"] and random.Random(case.name).random() < CFG["xcheck"]:
                    x = cvc5_check(ob.assume + ob.neg, CFG["timeout"])
                    res.stats["cvc5_" + x] += 1
                    if x == "sat":
                        res.errors.append(f"{case.name}/{ob.name}: cvc5 disagrees with z3")
    except Violation as v:
        res.violations.append(dict(case=case.name, ob=v.name, detail=v.detail, src=case.src, opts=case.opts, cex=None))
    except Illegal as v:
        res.violations.append(dict(case=case.name, ob="illegal", detail=f"illegal output: {v}", src=case.src, opts=case.opts, cex=None))
    except sym.CombLoop as v:
        res.violations.append(dict(case=case.name, ob="combinational loop", detail=str(v), src=case.src, opts=case.opts, cex=None))
    except VError as v:
        res.errors.append(f"{case.name}: {v}")
    finally:
        res.stats["modules"] += ctx.modules


def concretised(ctx, ob, res):
    """No verdict over all inputs: fix some inputs to corner values; a model is still a counterexample."""
    rng = random.Random(7)
    ins = [v for s in ctx.sims for f in s.frames for v in f.inputs.values()]
    for k in range(24):
        fix = []
        for v in ins:
            if rng.random() < 0.6:
                w = v.size()
                c = rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, rng.getrandbits(w)])
                fix.append(v == z3.BitVecVal(c, w))
        r, m = solve(ob.assume + ob.neg + fix, 3)
        res.stats["queries"] += 1
        if r == "sat":
            return r, m
    return "unknown", None


def compile_cases(cases, srv):
    """Compile a batch as one program, falling back to one program per case."""
    units = collections.OrderedDict()
    for c in cases:
        units.setdefault(c.name if c.group is None else ("group", c.group), []).append(c)
    return compile_units(list(units.values()), srv)


def compile_units(units, srv):
    opts = units[0][0].opts
    if len(units) > 1:
        r = srv.compile("\n".join(u[0].src for u in units), **opts)
        if r["ok"]:
            return [(c, r) for u in units for c in u]
        mid = len(units) // 2
        return compile_units(units[:mid], srv) + compile_units(units[mid:], srv)
    r = srv.compile(units[0][0].src, **opts)
    return [(c, r) for c in units[0]]


_CASES = None


def run_batch(idx):
    cases = [_CASES[i] for i in idx]
    res = Result()
    t0 = time.time()
    try:
        srv = driver.server()
        designs = {}
        for c, r in compile_cases(cases, srv):
            res.stats["compiles"] += 0
            v = c.judge(r)
            if type(c).judge is not Case.judge:
                res.stats["programs"] += 1
                res.stats["verdicts"] += 1
                if isinstance(c, Verdict) and c.formula is not None:
                    t1 = time.time()
                    q, m = solve(c.formula[0], CFG["timeout"])
                    res.solver_s += time.time() - t1
                    res.stats["queries"] += 1
                    if q == "unknown":
                        res.errors.append(f"{c.name}: no solver verdict")
                    elif (q == "unsat") != c.formula[1]:
                        res.errors.append(f"{c.name}: solver disagrees with the recorded expectation")
                if v:
                    # confirm on a fresh process
                    srv.close()
                    driver._server = None
                    srv = driver.server()
                    r2 = srv.compile(c.src, **c.opts)
                    if c.judge(r2):
                        res.violations.append(dict(case=c.name, ob=v[0], detail=v[1], src=c.src, opts=c.opts, cex=None))
                    else:
                        res.errors.append(f"{c.name}: verdict not reproducible")
                elif not res.samples:
                    res.samples.append(dict(program=str(c.src)[:400], verdict="accepted" if r["ok"] else "rejected"))
                continue
            if not r["ok"]:
                why = r.get("panic") or first_error(r)
                if r.get("timeout"):
                    res.errors.append(f"{c.name}: the compiler did not finish")
                    continue
                res.violations.append(
                    dict(case=c.name, ob="panic" if r.get("panic") else "rejected", detail="a valid program does not compile: " + why[:1500], src=c.src, opts=c.opts, cex=None)
                )
                continue
            key = id(r)
            if key not in designs:
                try:
                    designs[key] = Design(r["verilog"])
                    res.stats["compiles"] += 1
                except Illegal as e:
                    designs[key] = e
                except VError as e:
                    designs[key] = e
            d = designs[key]
            if isinstance(d, Illegal):
                res.violations.append(dict(case=c.name, ob="illegal", detail=str(d), src=c.src, opts=c.opts, cex=None))
                continue
            if isinstance(d, VError):
                res.errors.append(f"{c.name}: {d}")
                continue
            try:
                run_case(c, d, r, srv, res)
            except Exception:
                res.errors.append(f"{c.name}: " + traceback.format_exc()[-1500:])
    except Exception:
        res.errors.append(f"batch {cases[0].name}: " + traceback.format_exc()[-1500:])
    res.wall = time.time() - t0
    return res


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known" and k["property"] == prop]


def main(prop, cases, level="translation_validation", notes=None, extra=None, batch=10, jobs=8, timeout=25):
    """Run the cases of a property and exit."""
    global _CASES
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    CFG.update(timeout=timeout, prop=prop, xcheck=0.05 if tier == "quick" else 0.3)
    names = [c.name for c in cases]
    dup = [n for n, k in collections.Counter(names).items() if k > 1]
    if dup:
        print("duplicate case names", dup[:5])
        sys.exit(3)
    only = os.environ.get("VT_ONLY")
    if only:
        cases = [c for c in cases if only in c.name]
    driver.build()
    _CASES = cases
    batches = []
    groups = collections.OrderedDict()
    for i, c in enumerate(cases):
        if c.solo:
            batches.append([i])
        else:
            groups.setdefault(json.dumps(c.opts, sort_keys=True), []).append(i)
    solo = batches
    batches = list(solo)
    for g in groups.values():
        cur, last = [], None
        for i in g:
            gr = cases[i].group
            if len(cur) >= batch and (gr is None or gr != last):
                batches.append(cur)
                cur = []
            cur.append(i)
            last = gr
        if cur:
            batches.append(cur)
    total = Result()
    jobs = min(jobs, max(1, len(batches)))
    deadline = float(os.environ.get("VT_DEADLINE", "800" if tier == "quick" else "100000"))
    with mp.get_context("fork").Pool(jobs) as pool:
        it = pool.imap_unordered(run_batch, batches)
        done = 0
        for _ in batches:
            left = deadline - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                total.errors.append(f"out of time after {done} of {len(batches)} batches")
                pool.terminate()
                break
            done += 1
            total.violations += r.violations
            total.errors += r.errors
            total.stats.update(r.stats)
            total.solver_s += r.solver_s
            total.samples += r.samples
            total.slow = max(total.slow, r.slow)
    finish(prop, total, level, tier, seed, t0, notes, extra)


def finish(prop, total, level, tier, seed, t0, notes=None, extra=None):
    known = known_findings(prop)
    new, seen = [], []
    for v in total.violations:
        k = next((k for k in known if k["case"] == v["case"] and k.get("ob", v["ob"]) == v["ob"]), None)
        if k:
            seen.append(k)
        else:
            new.append(v)
    for k in known:
        if k in seen:
            print(f"KNOWN-FINDING: property={prop} {k['case']}: {k['what']}")
    cov = dict(
        programs=total.stats["programs"],
        disagreements_checked=total.stats["queries"],
        samples=sorted(total.samples, key=lambda s: s["program"])[:3],
        obligations=total.stats["obligations"],
        discharged=total.stats["discharged"],
        verdict_programs=total.stats["verdicts"],
        modules_encoded=total.stats["modules"],
        nonvacuity_witnesses_replayed=total.stats["witnesses"],
        cvc5_agreements=total.stats["cvc5_unsat"],
        cvc5_no_verdict=total.stats["cvc5_unknown"],
        solver_s=round(total.solver_s, 2),
        slowest_query=list(total.slow),
        known_findings_seen=len(seen),
    )
    cov.update(extra or {})
    for k in list(total.stats):
        if k.startswith("n_"):
            cov[k[2:]] = total.stats[k]
    if notes:
        cov["bounds"] = notes
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=[
            "IEEE 1800 width and sign rules as implemented in vt/elab.py; unknown bits are arbitrary 0/1 values",
            "the reference semantics in vt/spec.py and the check's own specification functions",
            "z3 (a sample of the verdicts is repeated with cvc5)",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("VT_VERBOSE"):
        print(json.dumps({k: v for k, v in cov.items() if k != "samples"}, indent=1, default=str))
    rdir = os.path.join(ROOT, ".build", "replay")
    os.makedirs(rdir, exist_ok=True)
    json.dump(new, open(os.path.join(rdir, "last.json"), "w"), default=str)
    for i, v in enumerate(new[:20]):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        json.dump(dict(property=prop, **v), open(path, "w"), indent=1, default=str)
        if i < 6:
            print(f"--- {v['case']} / {v['ob']}: {v['detail'][:600]}")
            if v["cex"]:
                print("    " + json.dumps(v["cex"])[:900])
        print(f"VIOLATION property={prop} replay={path}")
    for e in total.errors[:10]:
        print("ERROR:", e)
    print(
        f"{prop}: {total.stats['programs']} programs, {total.stats['obligations']} obligations, {total.stats['queries']} queries, "
        f"{len(new)} violations, {len(seen)} known, {len(total.errors)} errors, solver {total.solver_s:.1f}s, wall {time.time()-t0:.1f}s"
    )
    if new:
        sys.exit(1)
    if total.errors:
        sys.exit(3)
    sys.exit(0)
