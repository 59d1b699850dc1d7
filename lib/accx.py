"""Accuracy obligations decided by engine A, with replay of every candidate on the compiled code
against a 220-bit mpmath reference."""
import os, math, time
from fractions import Fraction
import mpmath as mp
import sf, acc, irgen
from ctx import Wr, TY
mp.mp.prec = 220

def fr(s):
    """decimal / fraction / power text -> Fraction"""
    if isinstance(s, Fraction): return s
    if isinstance(s, int): return Fraction(s)
    s = str(s)
    if "^" in s:
        b, e = s.split("^"); sg = -1 if b.startswith("-") else 1
        return sg * Fraction(b.lstrip("-")) ** int(e)
    return Fraction(s)
def M(q): return mp.mpf(q.numerator) / q.denominator if isinstance(q, Fraction) else mp.mpf(q)

def _gp(a, x): return mp.gammainc(a, 0, x, regularized=True)
def _bi(a, b, x):
    if x <= 0: return mp.mpf(0)
    if x >= 1: return mp.mpf(1)
    if x > mp.mpf(1) / 2: return 1 - mp.betainc(b, a, 0, 1 - x, regularized=True)
    return mp.betainc(a, b, 0, x, regularized=True)
def _solve(f, lo, hi, p):
    for _ in range(400):
        m = (lo + hi) / 2
        if f(m) < p: lo = m
        else: hi = m
        if hi - lo <= mp.mpf(2) ** -150 * abs(hi): break
    return (lo + hi) / 2
def _gpinv(a, p):
    hi = mp.mpf(1)
    while _gp(a, hi) < p: hi *= 2
    lo = hi / 2
    while lo > mp.mpf(10) ** -400 and _gp(a, lo) > p: lo /= 1024
    return _solve(lambda x: _gp(a, x), lo if _gp(a, lo) <= p else mp.mpf(0), hi, p)
def _erfinv(p):
    s = -1 if p < 0 else 1; p = abs(p)
    if p == 0: return mp.mpf(0)
    return s * _solve(lambda y: -mp.erfc(y), mp.mpf(0), mp.mpf(60), p - 1) if p > 0.5 else s * _solve(mp.erf, mp.mpf(0), mp.mpf(1), p)
def _lg(x): return mp.re(mp.loggamma(x))
REF = {
 "exp": mp.exp, "expm1": mp.expm1, "log": mp.log, "log1p": lambda x: mp.log1p(x), "log2": lambda x: mp.log(x, 2), "log10": mp.log10,
 "sqrt": mp.sqrt, "inv_sqrt": lambda x: 1 / mp.sqrt(x), "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": mp.asin, "acos": mp.acos, "atan": mp.atan,
 "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh, "erf": mp.erf, "erf_inv": _erfinv,
 "lgamma": _lg, "tgamma": mp.gamma, "factorial": mp.factorial,
 "powi": lambda x, n: x ** int(n), "powx": lambda x, y: mp.power(x, y), "powy": lambda y, b: mp.power(b, y), "hypot": lambda x, y: mp.sqrt(x * x + y * y),
 "atan2y": lambda y, x: mp.atan2(y, x), "atan2x": lambda x, y: mp.atan2(y, x),
 "lbeta": lambda x, b: _lg(x) + _lg(b) - _lg(x + b), "beta": lambda x, b: mp.beta(x, b),
 "lmgamma": lambda x, n: n * (n - 1) / 4 * mp.log(mp.pi) + sum((_lg(x - mp.mpf(j) / 2) for j in range(int(n))), mp.mpf(0)),
 "lbinn": lambda n, k: _lg(n + 1) - _lg(k + 1) - _lg(n - k + 1), "lbink": lambda k, n: _lg(n + 1) - _lg(k + 1) - _lg(n - k + 1),
 "gammp": lambda x, a: _gp(a, x), "gammpinv": lambda p, a: _gpinv(a, p), "betai": lambda x, a, b: _bi(a, b, x),
 "betaiinv": lambda p, a, b: _solve(lambda y: _bi(a, b, y), mp.mpf(0), mp.mpf(1), p),
 "fmod": lambda x, y: x - y * (mp.floor(x / y) if x / y >= 0 else mp.ceil(x / y)),
 "fmody": lambda y, x: x - y * (mp.floor(x / y) if x / y >= 0 else mp.ceil(x / y)),
}

class E:
    """one accuracy entry: fn called with argument letters tys; args: texts, 'x' = the symbolic one.
    tol: {'f': (A,B), 'd':.., 'l':..} with |got-ref| <= A + B|ref| (kind 0), A(1+|x|) (kind 1), A(1+|x|)(1+ref^2) (kind 2)"""
    def __init__(self, fn, tys, ref, dom, tol, args=None, rp=(), kind=0, **opt):
        self.fn, self.tys, self.ref, self.dom, self.args, self.rp, self.kind, self.opt = fn, tys, ref, dom, args or ["x"], rp, kind, opt
        self.sym = self.args.index("x"); self.t = tys[self.sym]
        self.tol = tol[self.t] if isinstance(tol, dict) else tol
        self.w = opt.pop("w", None) or Wr(fn, tys)

def rndto(t, q): # value of letter type t nearest to q, as bits
    return sf.from_frac(TY[t], q) if t in "fdl" else int(q)
def argtext(t, q):
    return sf.fmtval(TY[t], rndto(t, q)) if t in "fdl" else "i%d:%d" % (int(TY[t][1:]), int(q))
def exact(t, q):
    return sf.to_frac(TY[t], rndto(t, q)) if t in "fdl" else q

def pick(lo, hi, t):
    """a few points of a box (validation of the encoding only)"""
    lo, hi = fr(lo), fr(hi)
    ps = [lo, hi, (lo + hi) / 2, lo + (hi - lo) / 7]
    if lo > 0 and hi / lo > 16:
        n = lo
        while n * n * 16 < lo * hi: n *= 16
        ps.append(n)
    return [p for p in ps if lo <= p <= hi]

def tolat(e, x, F):
    A, Bb = M(fr(e.tol[0])), M(fr(e.tol[1]))
    if e.kind == 1: return A * (1 + abs(x))
    if e.kind == 2: return A * (1 + abs(x)) * (1 + F * F)
    return A + Bb * abs(F)

def accuracy(c, entries, tlimit=25, stds=("c++17", "c++11"), validate=True, title="accuracy"):
    wrs = {e.w.name: e.w for e in entries}
    c.build(list(wrs.values()), stds)
    mods = [(std + ":", c.mods[std]) for std in c.mods]
    roots = {std + ":": [n for n in wrs if n in c.mods[std].funcs] for std in c.mods}
    prog = os.path.join(c.dir, "prog_%d" % id(entries))
    names = acc.serialize(mods, roots, prog)
    c.functions |= set(names)
    jobs, meta, val = [], {}, []
    for k, e in enumerate(entries):
        for std in c.stds_for(e.w.name):
            if std == "c++11" and e.t == "l" and c.tier == "quick" and "c++17" in c.mods:
                c.note("long double in C++11 mode: thorough tier only (C12 compares the modes)"); continue
            args = ["x" if a == "x" else argtext(t, fr(a)) for a, t in zip(e.args, e.tys)]
            rp = []
            for r in e.rp:
                if isinstance(r, tuple): rp.append(exact(e.tys[r[0]], fr(e.args[r[0]])))   # (index,) = the concrete argument itself
                else: rp.append(fr(r))
            for d, (lo, hi) in enumerate(e.dom):
                jid = "%s<%s>[%s]%s..%s@%s" % (e.fn, e.tys, ",".join(map(str, e.args)), lo, hi, std)
                jid = jid.replace(" ", "")
                opt = dict(tlimit=tlimit); opt.update(e.opt)
                al, ah = sorted((abs(fr(lo)), abs(fr(hi))))
                if al > 0 and ah <= Fraction(1, 1000) and ah / al > 2 ** 40 and "maxratio" not in opt: opt["maxratio"] = 1e12
                j = acc.Job(jid, e.w.name, e.t, e.ref, [hexq(q) for q in rp], hexq(fr(lo)), hexq(fr(hi)), e.tol[0], e.tol[1], tolkind=e.kind, args=args, sym=e.sym, pre=std + ":", **opt)
                jobs.append(j); meta[jid] = (e, std, rp)
                if validate:
                    pts = [rndto(e.t, p) for p in pick(lo, hi, e.t)]
                    val.append((acc.Job("V" + jid, e.w.name, e.t, "eval", [sf.fmtval(TY[e.t], b) for b in pts], "0", "1", args=args, sym=e.sym, pre=std + ":", tlimit=20), e, std, pts, args))
    # translator validation: engine A run concretely vs the compiled code
    mism = set()
    if val:
        evs = []; acc.run_jobs(prog, [v[0] for v in val], deadline=c.deadline, evs=evs)
        got = {(j.id, k): s for j, k, s in evs}
        for std in c.mods:
            calls, want = [], []
            for j, e, s, pts, args in val:
                if s != std: continue
                for k, b in enumerate(pts):
                    g = got.get((j.id, k))
                    if g in (None, "-"): continue
                    calls.append((e.w.name, [b if a == "x" else rndto(t, fr(a)) for a, t in zip(e.args, e.tys)])); want.append((j.id[1:], g, e))
            rt = {n: c.mods[std].funcs[n].rty for n in wrs if n in c.mods[std].funcs}
            for (n, a), r, (jid, g, e) in zip(calls, c.real(std, calls), want):
                if r is None: continue
                if rt[n] not in irgen.FPT: continue
                if sf.is_nan(rt[n], r): r = sf.nan(rt[n])
                w = sf.parse_c(rt[n], g)
                if sf.eq(rt[n], w, r) or (sf.is_nan(rt[n], w) and sf.is_nan(rt[n], r)): c.validated += 1
                else: mism.add(jid); c.note("engine A and compiled code disagree: %s %s -> %s / %s" % (jid, a, g, sf.fmtval(rt[n], r)))
    res, cands, uns = acc.run_jobs(prog, jobs, deadline=c.deadline)
    unsd = {}
    for i, w in uns: unsd.setdefault(i, w)
    A = c.engineA
    confirmed = {}
    for j, xs, g, F in cands:
        if len(confirmed.get(j.id, ())) >= 1: continue
        r = confirm(c, j, meta[j.id], xs)
        if r: confirmed.setdefault(j.id, []).append(r)
    per = []
    for j in jobs:
        d = res.get(j.id); A["jobs"] += 1
        if d and "boxes" in d:
            A["boxes"] += int(d["boxes"]); A["queries"] += int(d["queries"]); A["solver_s"] += float(d["ztime"]); A["forks"] += int(d["forks"])
            A["discharged"] += int(d["discharged"]); A["undischarged"] += int(d["undischarged"]); A["ops"] = A.get("ops", 0) + int(d["ops"])
            per.append(dict(job=j.id, boxes=int(d["boxes"]), queries=int(d["queries"]), undischarged=int(d["undischarged"]), seconds=float(d["time"])))
        if j.id in confirmed:
            c.ob(j.id, True)
            for msg, rep in confirmed[j.id]: c.violation(msg, rep)
        elif j.id in mism: c.ob(j.id, False, "encoding not validated against the compiled code")
        elif d is None or "boxes" not in d: c.ob(j.id, False, unsd.get(j.id, "no result"))
        else: c.ob(j.id, int(d["undischarged"]) == 0, "%s boxes undischarged (fraction %s): %s %s" % (d["undischarged"], d["undfrac"], d.get("why"), d.get("und")))
    c.joblog = getattr(c, "joblog", []) + per
    if os.environ.get("JOBLOG"): import json; json.dump(c.joblog, open(os.environ["JOBLOG"], "w"))
    for j in jobs[:: max(1, len(jobs) // 6)]: c.sample(dict(obligation=j.id, tolerance=[str(j.A), str(j.B), j.tolkind], box=[str(j.lo), str(j.hi)]))
    return res

def hexq(q):
    q = fr(q)
    if q == 0: return "0"
    n, d = abs(q.numerator), q.denominator
    # scaled to 120 significant bits
    k = n.bit_length() - d.bit_length(); sh = 120 - k
    m = (n << sh) // d if sh >= 0 else n // (d << -sh)
    return "%s0x%xp%d" % ("-" if q < 0 else "", m, -sh)

def confirm(c, j, meta, xs):
    e, std, rp = meta
    b = sf.parse_c(TY[e.t], xs); x = sf.to_frac(TY[e.t], b)
    bits = [b if a == "x" else rndto(t, fr(a)) for a, t in zip(e.args, e.tys)]
    got = c.real(std, [(e.w.name, bits)])[0]
    try: F = REF[e.ref](M(x), *[M(q) for q in rp])
    except Exception as ex: return None
    if mp.isnan(F) or isinstance(F, mp.mpc): return None
    shown = "gcem::%s(%s)" % (e.fn, ", ".join(("%s" % (sf.fmtval(TY[t], v) + (" ~ %.17g" % float(sf.to_frac(TY[t], v)) if abs(sf.to_frac(TY[t], v)) < 10 ** 300 else "")) if t in "fdl" else str(v)) for t, v in zip(e.tys, bits)))
    rt = c.mods[std].funcs[e.w.name].rty
    tol = tolat(e, M(x), F)
    if got is None: msg = "%s does not return" % shown; g = None
    else:
        g = sf.fmtval(rt, got)
        if not sf.is_nan(rt, got) and not sf.is_inf(rt, got):
            err = abs(M(sf.to_frac(rt, got)) - F)
            if err <= tol: return None
            msg = "%s = %s, true value %s, error %s exceeds tolerance %s" % (shown, mp.nstr(M(sf.to_frac(rt, got)), 21), mp.nstr(F, 25), mp.nstr(err, 5), mp.nstr(tol, 5))
        else:
            big = {"float": 2 ** 127, "double": 2 ** 1023, "x86_fp80": mp.mpf(2) ** 16383}[rt]
            if sf.is_inf(rt, got) and abs(F) > 1.99 * big: return None
            msg = "%s = %s, true value %s" % (shown, g, mp.nstr(F, 25))
    fx = float(x) if abs(x) < 10 ** 300 else None
    return msg + " [%s]" % std, dict(fn=e.fn, tys=e.tys, std=std, args=["%x" % (v & (2 ** 80 - 1)) for v in bits], got=g, want=mp.nstr(F, 30), tol=mp.nstr(tol, 8), x=fx, call=shown, wrapper=e.w.src(), obligation=j.id, slice=",".join(map(str, e.args)))
