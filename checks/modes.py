"""C12: the language modes compute the same function (engine B by induction over the call graph; engine A where the operations differ)."""
import threading
import bitsym as B, sf, acc, accuracy as AC, accx
from accx import E, M, fr, hexq, rndto, argtext
from ctx import Wr, TY
from irgen import FPT
from generic import ONE, TWO, THREE, nan, walk
UF = ("fmul", "fdiv", "fadd", "fcast")

def shallow(ex, n):
    """hash of a function's own body, callees by name"""
    f = ex.m.funcs[n]
    names = {p[1]: "p%d" % i for i, p in enumerate(f.params)}; j = 0; h = []
    from irgen import Const, Reg
    for b in f.order:
        names["L" + b] = "b%d" % j; j += 1
        for i in f.blocks[b]:
            if i.dest is not None: names[i.dest] = "v%d" % j; j += 1
    def o(a):
        if isinstance(a, Reg): return names.get(a.name, "?")
        if isinstance(a, Const): return "%s:%s" % (a.ty, a.v)
        return "@%s" % (ex.m.globals.get(a.name),)
    for b in f.order:
        h.append(names["L" + b])
        for i in f.blocks[b]:
            x = [names["L" + q] for q in i.x] if i.op in ("br", "cbr", "phi") else i.x
            h.append("%s %s %s %s" % (i.op, i.ty, [o(a) for a in i.args], x))
    return "\n".join(h)

def equal_set(c, a, b):
    """largest set of common functions that are equal as long as their callees in the set are: equal by induction on execution depth"""
    ma, mb = c.mods[a], c.mods[b]
    S = set(ma.funcs) & set(mb.funcs)
    S = {n for n in S if [p[0] for p in ma.funcs[n].params] == [p[0] for p in mb.funcs[n].params] and ma.funcs[n].rty == mb.funcs[n].rty}
    ea, eb = B.Exec(ma), B.Exec(mb)
    todo = [n for n in S if shallow(ea, n) != shallow(eb, n)]
    changed = set(todo); reason = {}
    callers = {}
    for m in (ma, mb):
        for n, f in m.funcs.items():
            for bl in f.blocks.values():
                for i in bl:
                    if i.op == "call" and i.x in m.funcs: callers.setdefault(i.x, set()).add(n)
    def body(mod, std, n, args):
        ex = B.Exec(mod, maxdepth=300, budget=3000, tag=std); ex.eqset = set(S)
        r = ex.call(n, args, force=True)
        c.functions |= ex.funcs_seen; c.transitions += ex.steps
        return r
    def one(n):
        args = [B.var("p%d" % i, "bool" if p[0] == "i1" else p[0]) for i, p in enumerate(ma.funcs[n].params)]
        with c.enclock:
            try: r1, r2 = body(ma, a, n, args), body(mb, b, n, args)
            except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError) as e: return n, "%s %s" % (type(e).__name__, e)
            if r1 is r2:
                with c.lock: c.qlog.append(dict(query="%s: bodies of the two modes" % n, result="unsat", solver="identical terms", seconds=0.0)); c.solver.n += 1
                return n, None
            if B.size_arith([r1, r2]) > 400: return n, "different operations"
            bad = B.Not(B.same(r1, r2))
        v, _ = c.query("%s: bodies of the two modes" % n, [bad], (), UF, 2 if c.tier == "quick" else 10, ("z3-new",))
        return n, None if v == "unsat" else v
    while todo:
        todo = sorted(set(todo) & S); nxt = set()
        for n, why in c.parallel([lambda n=n: one(n) for n in todo]):
            if why is None: continue
            S.discard(n); reason[n] = why
            nxt |= {k for k in callers.get(n, ()) if k in S}; changed |= set(callers.get(n, ()))
        todo = nxt
    return S, changed, reason

def entries(tier):
    """the accuracy obligations of every function (domain boxes, tolerances)"""
    got = []
    class Fake:
        bounds = []
        def __init__(s): s.tier = tier
    keep = AC.accuracy
    try:
        AC.accuracy = lambda c, es, **k: got.extend(es)
        for f in AC.CH.values(): f(Fake())
    finally: AC.accuracy = keep
    return got

def c12(c):
    wrs = []
    for f in ONE: wrs += [Wr(f, t) for t in "fdli"]     # integral arguments: equal to the call with double in both modes (C11) where the operations differ
    wrs += [Wr("factorial", t) for t in "fdl"] + [Wr("sgn", t) for t in "fdl"] + [Wr("signbit", t) for t in "fdl"]
    wrs += [Wr(f, p) for f in TWO for p in ("ff", "dd", "ll")] + [Wr("pow", p) for p in ("fi", "di", "li", "id")] + [Wr(f, p) for f in THREE for p in ("fff", "ddd", "lll")]
    wrs += [Wr("lmgamma", p) for p in ("fi", "di", "li")] + [Wr(f, p) for f in ("gcd", "lcm", "binomial_coef") for p in ("ii", "qq")] + [Wr(f, p) for f in ("copysign", "max", "min") for p in ("ff", "dd", "ll")]
    modes = ["c++14", "c++11", "c++20"]
    c.build(wrs, ("c++17",) + tuple(modes))
    fn2 = []
    for b in modes:
        if b not in c.mods: c.ob("mode %s" % b, False, "does not compile with clang"); continue
        S, changed, reason = equal_set(c, "c++17", b)
        for w in wrs:
            nm = "%s<%s> c++17 = %s" % (w.fn, w.tys, b)
            if w.name in S: c.ob(nm, True)
            elif w.tys != "i": fn2.append((w, b, nm))
        c.note("%s against c++17: %d functions with different bodies or callees, %d proved equal, not proved: %s" % (b, len(changed), len(changed & S), ", ".join(sorted(reason))[:1500]))
    c.bounds.append("functions found equal: no bound (induction over the execution depth, callees uninterpreted); the others: the boxes of their accuracy property, difference at most twice that property's tolerance")
    if fn2: differ(c, fn2)
    c.sample(dict(obligation="exp<d> c++17 = c++11", quantifies="every argument", method="bodies of every function reachable from exp, with callees proved equal kept uninterpreted"))

SPECIAL = ("inf", "-inf", "nan", "zero", "-zero", "min", "-min", "one", "-one", "max", "-max")
def special(ty, k):
    s = k.startswith("-"); k = k.lstrip("-")
    v = {"inf": sf.inf(ty), "nan": sf.nan(ty), "zero": 0, "one": sf.from_int(ty, 1)}.get(k)
    if k == "min": v = sf.from_frac(ty, accx.Fraction(1, 2 ** {"float": 126, "double": 1022, "x86_fp80": 16382}[ty]))
    if k == "max": v = sf.inf(ty) - 1 if ty != "x86_fp80" else (0x7ffe << 64) | ((1 << 64) - 1)
    return sf.neg(ty, v) if s else v

def differ(c, fn2):
    """modes whose operations differ: the special values exactly, the rest up to rounding (engine A, both functions over the same box)"""
    want = {}
    for e in entries(c.tier): want.setdefault((e.fn, e.tys), []).append(e)
    mods = [(std + ":", c.mods[std]) for std in c.mods]
    names = sorted({w.name for w, b, nm in fn2})
    prog = c.dir + "/prog_modes"
    c.functions |= set(acc.serialize(mods, {std + ":": [n for n in names if n in c.mods[std].funcs] for std in c.mods}, prog))
    jobs, meta = [], {}
    for w, b, nm in fn2:
        # special arguments
        if len(w.tys) <= 2 and all(t in "fdl" for t in w.tys):
            combos = [[special(TY[w.tys[0]], k)] for k in SPECIAL] if len(w.tys) == 1 else [[special(TY[w.tys[0]], k), special(TY[w.tys[1]], l)] for k in SPECIAL for l in SPECIAL]
            calls = [(w.name, x) for x in combos]
            r1, r2 = c.real("c++17", calls), c.real(b, calls)
            for (n, x), p, q in zip(calls, r1, r2):
                if p is None or q is None: continue
                rt = c.mods["c++17"].funcs[n].rty
                if sf.is_nan(rt, p) != sf.is_nan(rt, q) or sf.is_inf(rt, p) != sf.is_inf(rt, q):
                    # the same arguments as constants through engine B: the verdict; the compiled runs above are the replay
                    ts = [B.fpc(TY[t], v) for t, v in zip(w.tys, x)]
                    try: s1, s2 = (B.Exec(c.mods[s], budget=300000).call(n, ts) for s in ("c++17", b))
                    except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError): continue
                    if s1 is not s2: report(c, w, b, nm, x, p, q); break
        es = want.get((w.fn, w.tys), [])
        if c.tier == "quick" and w.fn == "atan2": es = [e for e in es if "1" in e.args or "-2.5" in e.args]
        if not es: c.ob(nm, False, "operations differ and no box is stated for this argument type"); continue
        for e in es:
            args = ["x" if a == "x" else argtext(t, fr(a)) for a, t in zip(e.args, e.tys)]
            for lo, hi in e.dom:
                jid = ("%s[%s]%s..%s@%s" % (nm.replace(" ", ""), ",".join(map(str, e.args)), lo, hi, b)).replace(" ", "")
                if jid in meta: continue
                opt = dict(tlimit=15 if c.tier == "quick" else 200); opt.update(e.opt)
                al, ah = sorted((abs(fr(lo)), abs(fr(hi))))
                if al > 0 and ah <= accx.Fraction(1, 1000) and ah / al > 2 ** 40 and "maxratio" not in opt: opt["maxratio"] = 1e12
                j = acc.Job(jid, w.name, e.t, "fn2", [], hexq(fr(lo)), hexq(fr(hi)), tw(e.tol[0]), tw(e.tol[1]), tolkind=e.kind, args=args, sym=e.sym, pre="c++17:", fn2=b + ":" + w.name, **opt)
                jobs.append(j); meta[jid] = (e, w, b, nm)
    res, cands, uns = acc.run_jobs(prog, jobs, deadline=c.deadline)
    unsd = dict(uns); hit = set(); A = c.engineA
    for j, xs, g, F in cands:
        if j.id in hit: continue
        e, w, b, nm = meta[j.id]
        xb = sf.parse_c(TY[e.t], xs); bits = [xb if a == "x" else rndto(t, fr(a)) for a, t in zip(e.args, e.tys)]
        p = c.real("c++17", [(w.name, bits)])[0]; q = c.real(b, [(w.name, bits)])[0]
        if p is None or q is None: continue
        rt = c.mods["c++17"].funcs[w.name].rty
        if sf.is_nan(rt, p) or sf.is_nan(rt, q) or sf.is_inf(rt, p) or sf.is_inf(rt, q):
            if sf.is_nan(rt, p) == sf.is_nan(rt, q) and (sf.is_nan(rt, p) or p == q): continue
        else:
            x, P, Q = (M(sf.to_frac(s, v)) for s, v in ((TY[e.t], xb), (rt, p), (rt, q)))
            if abs(P - Q) <= 2 * accx.tolat(e, x, max(abs(P), abs(Q))): continue
        hit.add(j.id); report(c, w, b, j.id, bits, p, q)
    for j in jobs:
        d = res.get(j.id); A["jobs"] += 1
        if d and "boxes" in d:
            for k in ("boxes", "queries", "forks", "discharged", "undischarged"): A[k] += int(d[k])
            A["solver_s"] += float(d["ztime"]); A["ops"] = A.get("ops", 0) + int(d["ops"])
        if j.id in hit: c.ob(j.id, True)
        elif d is None or "boxes" not in d: c.ob(j.id, False, unsd.get(j.id, "no result"))
        else: c.ob(j.id, int(d["undischarged"]) == 0, "%s boxes undischarged: %s" % (d["undischarged"], d.get("why")))
def tw(a): return hexq(2 * fr(a))
def report(c, w, b, nm, bits, p, q):
    rt = c.mods["c++17"].funcs[w.name].rty
    c.violation("%s(%s) = %s in C++17 and %s in %s" % (c.label(w.name), ", ".join(sf.fmtval(TY[t], v) for t, v in zip(w.tys, bits)), sf.fmtval(rt, p), sf.fmtval(rt, q), b),
        dict(obligation=nm, fn=w.fn, tys=w.tys, std=b, args=["%x" % v for v in bits], got=["%x" % p, "%x" % q], wrapper=w.src()))
CH = dict(C12=c12)
