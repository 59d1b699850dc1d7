"""C10: no undefined operation for any argument (engine B), bounded recursion (engine A)."""
import os, time, threading
from fractions import Fraction
import bitsym as B, sf, acc, irgen
import accuracy as AC
from accx import E, fr, hexq, rndto, argtext, exact
from ctx import Wr, TY, V
from irgen import FPT
from generic import ONE, TWO, THREE
from modes import entries

LIMIT = 512          # default evaluation depth of g++ (-fconstexpr-depth) and clang++

def depth_entries(tier):
    return list(entries(tier))

def depth(c, es, tlimit=20, bound=500):
    """every path of every call over the boxes needs at most `bound` nested calls"""
    wrs = {e.w.name: e.w for e in es}
    c.build(list(wrs.values()))
    mods = [(std + ":", c.mods[std]) for std in c.mods]
    prog = os.path.join(c.dir, "prog_depth")
    c.functions |= set(acc.serialize(mods, {std + ":": [n for n in wrs if n in c.mods[std].funcs] for std in c.mods}, prog))
    jobs, meta = [], {}
    for e in es:
        for std in c.stds_for(e.w.name):
            args = ["x" if a == "x" else argtext(t, fr(a)) for a, t in zip(e.args, e.tys)]
            for lo, hi in e.dom:
                jid = ("depth:%s<%s>[%s]%s..%s@%s" % (e.fn, e.tys, ",".join(map(str, e.args)), lo, hi, std)).replace(" ", "")
                if jid in meta: continue
                opt = dict(tlimit=tlimit); opt.update(e.opt)
                al, ah = sorted((abs(fr(lo)), abs(fr(hi))))
                if al > 0 and ah <= Fraction(1, 1000) and ah / al > 2 ** 40 and "maxratio" not in opt: opt["maxratio"] = 1e12
                opt["deg"] = min(opt.get("deg", 99), int(os.environ.get("DDEG", "5"))); opt["prec"] = "L" if e.t != "l" else "Q"
                j = acc.Job(jid, e.w.name, e.t, "depth", [], hexq(fr(lo)), hexq(fr(hi)), str(bound), "0", args=args, sym=e.sym, pre=std + ":", **opt)
                jobs.append(j); meta[jid] = (e, std)
    res, cands, uns = acc.run_jobs(prog, jobs, deadline=c.deadline)
    unsd = dict(uns); A = c.engineA; hit = {}
    for j, xs, g, F in cands:
        if j.id in hit: continue
        e, std = meta[j.id]; b = sf.parse_c(TY[e.t], xs)
        bits = [b if a == "x" else rndto(t, fr(a)) for a, t in zip(e.args, e.tys)]
        if g.startswith("undefined"): msg = ubconfirm(c, std, e.w, bits)
        else: msg = cxconfirm(c, std, e.w, bits)
        if msg: hit[j.id] = (msg, dict(obligation=j.id, fn=e.fn, tys=e.tys, std=std, args=["%x" % v for v in bits], wrapper=e.w.src()))
    mx = 0
    for j in jobs:
        d = res.get(j.id); A["jobs"] += 1
        if d and "boxes" in d:
            for k in ("boxes", "queries", "forks", "discharged", "undischarged"): A[k] += int(d[k])
            A["solver_s"] += float(d["ztime"]); A["ops"] = A.get("ops", 0) + int(d["ops"])
            c.joblog = getattr(c, "joblog", []) + [dict(job=j.id, boxes=int(d["boxes"]), queries=int(d["queries"]), undischarged=int(d["undischarged"]), seconds=float(d["time"]), depth=int(d["depth"]))]
            mx = max(mx, int(d["depth"]))
        if j.id in hit: c.ob(j.id, True); c.violation(*hit[j.id])
        elif d is None or "boxes" not in d: c.ob(j.id, False, unsd.get(j.id, "no result"))
        else: c.ob(j.id, int(d["undischarged"]) == 0, "%s boxes undischarged: %s %s" % (d["undischarged"], d.get("why"), d.get("und")))
    c.note("deepest recursion on the boxes: %d nested calls" % mx)

def lit(t, b):
    """a C++ constant expression with exactly these bits"""
    ty = TY[t]; T = irgen.CT[t]
    if t not in "fdl": return "%dULL" % b if t == "Q" else "(%s)(%d)" % (T, b if t == "u" else B.sgn(b, int(ty[1:]))) if t != "q" else "(-%dLL - 1)" % (2 ** 63 - 1) if b == 2 ** 63 else "%dLL" % B.sgn(b, 64)
    L = "std::numeric_limits<%s>::" % T
    if sf.is_nan(ty, b): return L + "quiet_NaN()"
    if sf.is_inf(ty, b): return ("-" if sf.sign(ty, b) else "") + L + "infinity()"
    q = sf.to_frac(ty, b)
    if q == 0: return "-(%s)0" % T if sf.sign(ty, b) else "(%s)0" % T
    import decimal
    with decimal.localcontext() as cx:
        cx.prec = 30; d = decimal.Decimal(q.numerator) / decimal.Decimal(q.denominator)
    return "%s%s" % (("%e" % d if False else format(d, ".28e")), {"f": "f", "d": "", "l": "L"}[t])
def cxconfirm(c, std, w, bits):
    """does a constant evaluation of the call fit the default limits of both compilers?"""
    call = "gcem::%s(%s)" % (w.fn, ", ".join(lit(t, b) for t, b in zip(w.tys, bits)))
    src = '#include "gcem.hpp"\n#include <limits>\nconstexpr auto v = %s;\nint main() { return v != v; }\n' % call
    for cc in ("g++", "clang++"):
        ok, err = irgen.compile_obj(src, std, c.dir, cc)
        low = err.lower()
        if not ok and ("depth" in low or "step limit" in low or "operation count" in low or "segmentation" in low):
            return "constexpr auto v = %s exceeds the default limits of %s -std=%s: %s" % (call, cc, std, [l for l in err.split("\n") if "error" in l or "note" in l][:1])
    return None

# ------------------------------------------------------------------------------------------ undefined operations (engine B)
UF = ("fmul", "fdiv", "fadd", "fcast")
SMALL = 120          # callees up to this size keep their value when they are known to be safe
LVL = LIMIT          # recursion levels over which an integer counter may drift
def rng(a, lo, hi):
    """lo <= a <= hi, signed"""
    return B.And(B.Not(B.Icmp("slt", a, B.intc(a.sort, lo))), B.Not(B.Icmp("slt", B.intc(a.sort, hi), a)))
def isint(ty): return ty[0] == "i" and ty != "i1"

class Ub:
    cache = {}
    def __init__(self, c, std, tlimit):
        self.c, self.std, self.m = c, std, c.mods[std]; self.tl = tlimit
        self.x0 = B.Exec(self.m); self.rec = self.x0.recset()
        self.status = {}      # name -> (contract name, opaque)
        self.posts = {}       # opaque recursive function -> [post(args, result)]
        self.sites = 0
        self.order()
    def order(self):
        g = self.x0._g; seen, out = set(), []
        idx, low, st, on, comps, n = {}, {}, [], set(), [], [0]
        def visit(v):
            idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
            for w in sorted(g[v]):
                if w not in idx: visit(w); low[v] = min(low[v], low[w])
                elif w in on: low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v: break
                comps.append(comp)
        for v in sorted(g):
            if v not in idx: visit(v)
        self.sccs = comps
        self.level = {}
        for comp in comps: # callees first
            l = 1 + max([self.level[w] for v in comp for w in g[v] if w not in comp], default=-1)
            for v in comp: self.level[v] = l
    def params(self, n): return [p[0] for p in self.m.funcs[n].params]
    def vars(self, n): return [B.var("p%d" % i, "bool" if t == "i1" else t) for i, t in enumerate(self.params(n))]
    # contracts: what a caller has to guarantee, what the body may assume, what a recursive call has to guarantee.
    # ("any",) | ("nonneg",) | ("in", lo, hi) | ("near", lo, bound): integer parameters in [lo, bound], a recursive call may
    # move a counter by bound/1024 per level, callers start within bound/2 (recursion up to 512 levels)
    def candidates(self, comp):
        ts = self.params(comp[0]); rec = len(comp) > 1 or comp[0] in self.rec
        out = [("any",)]
        if not comp[0].startswith("w_") and any(isint(t) for t in ts) and all(t != "ptr" for t in ts):
            if all(isint(t) for t in ts): out += [("nonneg",)] if rec else []
            elif any(t in FPT for t in ts):
                ks = set()
                for n in comp:
                    for b in self.m.funcs[n].blocks.values():
                        for i in b:
                            if i.op == "icmp":
                                for x in i.args:
                                    if isinstance(x, irgen.Const) and isinstance(x.v, int) and 2 <= x.v <= 1000: ks.add(x.v)
                if rec: out += [("near", lo, b) for lo in (0, -1) for b in (1 << 20, 1 << 14)]
                else: out += [("in", lo, b) for b in (1 << 24, 1 << 20, 1 << 14) for lo in (-b, 0, 1)]
                out += [("in", 0, k) for k in sorted(ks)[-4:]]
        return out
    def assume(self, k, args):
        ia = [a for a in args if isinstance(a, B.T) and a.sort[0] == "i"]
        if k[0] == "any": return B.TRUE
        if k[0] == "nonneg": return B.Ands([B.Not(B.Icmp("slt", a, B.intc(a.sort, 0))) for a in ia])
        return B.Ands([rng(a, -k[2] if k[1] == -1 and k[0] == "near" else k[1], k[2]) for a in ia])
    def need(self, k, args, div=2):
        """violated (boolean term)"""
        if k[0] == "near": k = ("in", -k[2] // div if k[1] == -1 else k[1], k[2] // div)
        return B.Not(self.assume(k, args))
    def selfneed(self, k, own, args):
        if k[0] != "near": return self.need(k, args)
        oi = [a for a in own if a.sort[0] == "i"]; ok = []
        for a in args:
            if not (isinstance(a, B.T) and a.sort[0] == "i"): continue
            alts = rng(a, -k[2] // 4 if k[1] == -1 else k[1], k[2] // 4)
            for o in oi:
                if o.sort != a.sort: continue
                d = rng(B.Ibin("sub", a, o), -k[2] // 1024, k[2] // 1024)
                if k[1] != -1: d = B.And(d, B.Not(B.Icmp("slt", a, B.intc(a.sort, k[1]))))
                alts = B.Or(alts, d)
            ok.append(alts)
        return B.Not(B.Ands(ok))
    def contracts(self, comp, k, own):
        C = {}
        for n, (kk, opq) in self.status.items():
            C[n] = (opq, lambda a, kk=kk: self.need(kk, a))
        if comp:
            for n in comp: C[n] = (True, lambda a: self.selfneed(k, own, a))
        return C
    def body(self, n, args, C, unwind=70):
        ex = B.Exec(self.m, maxdepth=400, budget=20000); ex.track_ub = True; ex.contract = C; ex.unwind = unwind
        r = ex.call(n, args, force=True)
        self.c.functions |= ex.funcs_seen; self.c.transitions += ex.steps
        return r, ex.u, ex
    def axioms(self, ts):
        """postconditions of the recursive calls that occur in the terms"""
        ax, seen, st = [], set(), list(ts)
        while st:
            t = st.pop()
            if t.id in seen: continue
            seen.add(t.id); st.extend(t.args)
            if t.op == "call":
                for p in self.posts.get(t.val[1], ()): ax.append(p(t.args, t))
            elif t.op in ("fmul", "fdiv", "fadd"): # a finite non-zero constant operand keeps NaN-ness
                a, b = t.args
                for x, k in ((a, b), (b, a)):
                    if B.isc(k) and not B.isc(x) and not sf.is_nan(k.sort, k.val) and not sf.is_inf(k.sort, k.val) and not sf.is_zero(k.sort, k.val) and (t.op != "fdiv" or k is b):
                        ax.append(B.Iff(B.Fisnan(t), B.Fisnan(x)))
        return ax
    def ask(self, name, pre, u, args):
        """is pre and u unsatisfiable?"""
        if B.isc(u) and not u.val: return "unsat", None
        ts = [pre, u]; ts = ts + self.axioms(ts)
        if self.c.query(name + " (arithmetic abstracted)", ts, (), UF, self.tl, ("z3-new",))[0] == "unsat": return "unsat", None
        if B.size_arith([u]) <= 60: return self.c.query(name, ts, args, (), self.tl * 3, ("z3-new", "cvc5"))
        return "unknown", None
    def component(self, comp):
        """decide one strongly connected component: the first contract under which no body can reach an undefined operation"""
        recursive = len(comp) > 1 or comp[0] in self.rec
        why = None
        if self.c.left() < 60: return comp, None, "time"
        h = tuple(sorted(self.c.canon(self.std, n) for n in comp)) if len(comp) == 1 else None
        if h in self.cache and h: return comp, self.cache[h], recursive
        for k in self.candidates(comp):
            bad = None
            for n in comp:
                with self.c.enclock:
                    args = self.vars(n)
                    if any(a.sort == "ptr" for a in args): bad = "pointer"; break
                    try: r, u, ex = self.body(n, args, self.contracts(comp if recursive else (), k, args))
                    except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError) as e: bad = "%s %s" % (type(e).__name__, e); break
                    if ex.unwound: bad = "unwinding"; break
                    pre = self.assume(k, args)
                    self.sites += len(ex.ubdesc)
                v, _ = self.ask("%s, %s" % (n, " ".join(map(str, k))), pre, u, args)
                if v != "unsat": bad = "%s: %s" % (v, sorted(set(ex.ubdesc.values()))); break
            if bad is None:
                if h: self.cache[h] = k
                return comp, k, recursive
            why = bad
            if bad in ("pointer", "unwinding"): break
        return comp, None, why
    def post(self, n):
        """postconditions of a recursive function, by induction on the depth"""
        f = self.m.funcs[n]; ts = self.params(n); k = self.status[n][0]
        if f.rty in FPT and ts and ts[0] == f.rty:
            c10, c1 = B.fpc(f.rty, sf.from_int(f.rty, 10)), B.fpc(f.rty, sf.from_int(f.rty, 1))
            cands = [lambda a, r: B.Or(B.Fisnan(r), B.And(B.Fle(c1, r), B.Fle(r, c10))), lambda a, r: B.Or(B.Not(B.Fisnan(r)), B.Fisnan(a[0]))]
        elif isint(f.rty) and ts and all(t == f.rty for t in ts):
            z = B.intc(f.rty, 0)
            cands = [lambda a, r: B.Or(B.Not(B.Icmp("eq", r, z)), B.Ands([B.Icmp("eq", x, z) for x in a])), lambda a, r: B.Not(B.Icmp("slt", r, z))]
        else: return
        args = self.vars(n)
        with self.c.enclock:
            try: r, u, ex = self.body(n, args, self.contracts([n], k, args))
            except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError): return
        if ex.unwound or B.size_arith([r]) > 40: return
        pre = self.assume(k, args)
        for p in cands:
            self.posts[n] = self.posts.get(n, []) + [p]
            qs = [pre, B.Not(p(args, r))]; qs += self.axioms(qs)
            if self.c.query("%s: postcondition" % n, qs, (), UF, 2, ("z3-new",))[0] != "unsat": self.posts[n].pop()
    def run(self):
        levels = {}
        for comp in self.sccs: levels.setdefault(self.level[comp[0]], []).append(comp)
        unsafe = {}
        for l in sorted(levels):
            res = self.c.parallel([lambda comp=comp: self.component(comp) for comp in levels[l]])
            for r in res:
                if r is None: continue
                comp, k, x = r
                if k is None: unsafe[comp[0]] = x; continue
                for n in comp: self.status[n] = (k, x is True or self.x0.size(n) > SMALL)
            self.c.parallel([lambda n=comp[0]: self.post(n) for comp in levels[l] if len(comp) == 1 and comp[0] in self.status and self.status[comp[0]][1] and (comp[0] in self.rec or isint(self.m.funcs[comp[0]].rty))])
        self.unsafe = unsafe
        return unsafe

def ubconfirm(c, std, w, bits):
    """the call under UndefinedBehaviorSanitizer"""
    c.wr.setdefault(w.name, w)
    c.real(std, [(w.name, bits)], UBSAN, "ub", 20)
    err = c.last_stderr or ""
    if "runtime error" in err: return "%s(%s): %s [%s]" % (c.label(w.name), ", ".join(sf.fmtval(TY[t], v) if t in "fdl" else str(B.sgn(v, int(TY[t][1:]))) for t, v in zip(w.tys, bits)), err.split("runtime error:")[1].split("\n")[0].strip(), std)
    return None
UBSAN = ("-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all")

THOROUGH = [False]

def iroot(v, n):
    lo, hi = 0, 1 << 63
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** n <= v: lo = m
        else: hi = m - 1
    return lo

def int_cases(w, args):
    """[(label, argument terms, assumption)]: the documented argument ranges of the integer functions"""
    a = args; W = int(a[0].sort[1:]); sg = w.tys[0] in "iq"
    k = lambda v: B.intc(a[0].sort, v)
    mn = lambda x: B.Not(B.Icmp("eq", x, B.intc(x.sort, 1 << (int(x.sort[1:]) - 1))))
    if w.fn == "abs" and sg: return [("x != min", a, mn(a[0]))]
    if w.fn == "gcd" and sg: return [("a, b != min", a, B.And(mn(a[0]), mn(a[1])))]
    if w.fn == "lcm" and sg: return [("|a|, |b| < 2^%d" % (W // 2 - 1), a, B.Ands([rng(x, 1 - (1 << W // 2 - 1), (1 << W // 2 - 1) - 1) for x in a]))]
    if w.fn == "factorial": return [("n = %d" % n, [k(n)], B.TRUE) for n in range(13 if W == 32 else 21)]
    if w.fn == "binomial_coef": return [("n = %d, k = %d" % (n, q), [k(n), k(q)], B.TRUE) for n in (range(34 if W == 32 else 62) if THOROUGH[0] else (0, 1, 2, 3, 7, 20, 33) if W == 32 else (34, 61)) for q in range(n + 1)]
    if w.fn == "pow":
        out = []
        for n in (2, 3, 4, 5, 8, 16, 31):
            r = iroot((1 << W - 1) - 1, n)
            out.append(("n = %d, |b| <= %d" % (n, r), [a[0], k(n)], rng(a[0], -r, r)))
        out += [("b = %d, n = %d" % (b, n), [k(b), k(n)], B.TRUE) for b in (0, 1, -1) for n in (0, 1, 2, 3, 62, 1 << W - 2, (1 << W - 1) - 1)]
        out += [("b = %d, n = %d" % (b, n), [k(b), k(n)], B.TRUE) for b in (1, -1) for n in (-1, -2, -3, -62, -(1 << W - 2), -(1 << W - 1) + 1)]
        return out
    return None
INTS = ("factorial", "gcd", "lcm", "binomial_coef")
def ub_wrappers():
    ws = [Wr(f, t) for f in ONE + ["factorial", "sgn"] for t in "fdli"] + [Wr("signbit", t) for t in "fdl"] + [Wr("abs", "q"), Wr("sgn", "q"), Wr("factorial", "q"), Wr("exp", "Q"), Wr("tan", "q"), Wr("round", "q")]
    ws += [Wr(f, p) for f in TWO for p in ("ff", "dd", "ll")] + [Wr(f, p) for f in THREE for p in ("fff", "ddd", "lll")] + [Wr("pow", p) for p in ("di", "dq", "fi", "li", "ii")] + [Wr("atan2", "ii"), Wr("fmod", "ii"), Wr("hypot", "ii")]
    return ws + [Wr(f, p) for f in ("gcd", "lcm", "max", "min") for p in ("ii", "qq", "uu", "QQ")] + [Wr("binomial_coef", p) for p in ("ii", "qq")] + [Wr(f, p) for f in ("copysign", "max", "min") for p in ("ff", "dd", "ll")] + [Wr("lmgamma", p) for p in ("fi", "di", "li", "dq")]

def undefined(c, stds=("c++17", "c++11")):
    ws = ub_wrappers(); c.build(ws, stds)
    Ub.cache = {}; done, same = set(), []
    for std in c.mods:
        t0 = time.time(); u = Ub(c, std, 3); unsafe = u.run(); t1 = time.time()
        c.states += u.sites
        todo = []
        for w in ws:
            if w.name not in c.mods[std].funcs: continue
            nm = "%s<%s> without undefined operation@%s" % (w.fn, w.tys, std)
            cases = int_cases(w, c.argvars(w.name)) if all(t in "iq" for t in w.tys) else None
            if cases is None and w.name in u.status and u.status[w.name][0] == ("any",): c.ob(nm, True); continue
            h = c.canon(std, w.name)
            if h in done: same.append((nm, h)); continue
            done.add(h); todo.append((w, nm, cases))
        def one(w, nm, cases, std=std, u=u):
            res = []
            for lab, args, pre in cases or [("every argument", c.argvars(w.name), B.TRUE)]:
                with c.enclock:
                    try: r, ub, ex = u.body(w.name, args, u.contracts((), None, args))
                    except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError) as e: c.ob(nm + " " + lab, False, "not encoded: %s %s" % (type(e).__name__, e)); continue
                    if ex.unwound: c.ob(nm + " " + lab, False, "recursion not bounded by 70 levels"); continue
                    ts = [pre, ub]; ts += u.axioms(ts); vs = [v for v in args if not B.isc(v)]
                ok = (B.isc(ub) and not ub.val) or c.query(nm + " " + lab + " (arithmetic abstracted)", ts, (), UF, 4, ("z3-new",))[0] == "unsat"
                if ok: c.ob(nm + " " + lab, True); continue
                hit = False; v = "unknown"
                for uf in ((), UF):
                    if uf == () and B.size_arith([ub]) > 200: continue
                    v, vals = c.query(nm + " " + lab, ts, vs, uf, 15 if uf == () else 5, ("z3-new", "cvc5") if uf == () else ("z3-new",))
                    if v == "unsat": break
                    if v != "sat" or vals is None: continue
                    it = iter(vals); bits = [int(a.val) if B.isc(a) else next(it) for a in args]
                    msg = ubconfirm(c, std, w, bits)
                    if msg:
                        c.ob(nm + " " + lab, True); hit = True
                        c.violation("undefined operation: " + msg, dict(obligation=nm, fn=w.fn, tys=w.tys, std=std, args=["%x" % b for b in bits], wrapper=w.src())); break
                if hit: return
                c.ob(nm + " " + lab, v == "unsat", "%s, not confirmed by the sanitizer: %s" % (v, sorted(set(ex.ubdesc.values())) or unsafe.get(w.name)))
        c.parallel([lambda a=a: one(*a) for a in todo])
        if os.environ.get("VTIME"): print(std, t1 - t0, time.time() - t1)
        c.note("%s: %d functions, %d sites of possibly undefined operations, %d functions free of them under their contract, %d inlined into their callers" % (std, len(c.mods[std].funcs), u.sites, len(u.status), len(unsafe)))

FAR = [("1", "1e3"), ("1e3", "1e6"), ("1e6", "1e10"), ("1e10", "1e20"), ("1e20", "1e100"), ("1e100", "1e300")]
def extra():
    """boxes beyond the accuracy domains: results saturate or overflow there, the recursion must still end"""
    neg = lambda bs: [("-" + b, "-" + a) for a, b in bs]
    es = []
    for f in ("atan", "tanh", "erf"): es.append(E(f, "d", "depth", FAR + neg(FAR), (0, 0)))
    for f in ("exp", "expm1"): es.append(E(f, "d", "depth", neg(FAR[1:]), (0, 0)))
    for f in ("asinh", "acosh", "log1p", "lgamma", "tgamma"): es.append(E(f, "d", "depth", FAR[2:5], (0, 0)))
    return es
SLOW = {"incomplete_beta_inv": "dl", "incomplete_gamma_inv": "dl", "erf_inv": "dl", "asinh": "l", "incomplete_beta": "l", "incomplete_gamma": "l", "atan2": "l", "pow": "l", "acos": "l", "tgamma": "l", "lmgamma": "l"}
LOGS = ("log", "log2", "log10", "log1p", "asinh", "acosh")
def clip(e, quick):
    """long double sqrt and inv_sqrt recurse once per factor of four-ish and leave the limit beyond 1e+-1000, long double logarithms beyond 1e500"""
    out = []
    for lo, hi in e.dom:
        m, n = abs(fr(lo)), abs(fr(hi))
        if e.t == "l" and e.fn in ("sqrt", "inv_sqrt", "hypot") and max(m, n) > 10 ** 1001: continue
        if e.t == "l" and e.fn in ("sqrt", "inv_sqrt", "hypot") and 0 < min(m, n) < Fraction(1, 10 ** 1001): continue
        if e.t == "l" and e.fn in LOGS and max(m, n) > 10 ** 200: continue
        if quick and e.t == "d" and e.fn in LOGS and max(m, n) > 10 ** 200: continue
        out.append((lo, hi))
    e.dom = out; return e
def c10(c):
    q = c.tier == "quick"; THOROUGH[0] = not q
    undefined(c)
    c.bounds.append("undefined operations: every argument (integral: abs and gcd without the smallest value, lcm of |a|, |b| < 2^(w/2-1), factorial and binomial_coef up to the largest representable row%s, pow of integers at exponents 2, 3, 4, 5, 8, 16, 31 with every base whose power is representable and bases 0, 1, -1); recursions with an integer counter: the first 512 levels" % (" (quick: rows 0-3, 7, 20, 33, 34, 61)" if q else ""))
    es = [e for e in entries(c.tier) if not (q and e.t in SLOW.get(e.fn, ""))] + extra()
    depth(c, [clip(e, q) for e in es], 12 if q else 120)
    c.bounds.append("recursion: at most 500 nested calls on the boxes of the accuracy checks and, for atan, tanh, erf, exp, expm1, asinh, acosh, log1p, lgamma, tgamma of double, beyond them; long double roots within 1e+-1000, logarithms up to 1e200 (thorough: every double)" + ("; quick leaves the inverse functions of double and long double and several long double functions to thorough" if q else ""))
CH = dict(C10=c10)
