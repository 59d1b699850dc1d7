"""C07 NaN propagation, C08 special values, C09 symmetry, C11 promotion (engine B, recursive callees as uninterpreted functions)."""
import bitsym as B, sf
from fractions import Fraction
from ctx import Wr, TY, WID
from irgen import FPT
import mpmath as mp
mp.mp.prec = 220
SRC = ("z3-new", "cvc5")
ONE = "sqrt inv_sqrt exp expm1 log log1p log2 log10 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh erf erf_inv lgamma tgamma floor ceil trunc round abs".split()
TWO = "pow atan2 hypot fmod beta lbeta log_binomial_coef incomplete_gamma incomplete_gamma_inv".split()
THREE = "incomplete_beta incomplete_beta_inv".split()
isfp = lambda t: t in "fdl"
UNS = "uQ"

def cv(ty, v):
    """constant of format ty nearest to the number v"""
    if isinstance(v, str):
        if v in ("inf", "+inf"): return B.fpc(ty, sf.inf(ty))
        if v == "-inf": return B.fpc(ty, sf.inf(ty, 1))
        if v == "nan": return B.fpc(ty, sf.nan(ty))
        if v == "-0": return B.fpc(ty, sf.neg(ty, 0))
        m = {"pi": mp.pi, "pi/2": mp.pi / 2, "-pi": -mp.pi, "-pi/2": -mp.pi / 2, "pi/4": mp.pi / 4, "3pi/4": 3 * mp.pi / 4, "-pi/4": -mp.pi / 4, "-3pi/4": -3 * mp.pi / 4}.get(v)
        if m is not None:
            s, man, ex, bc = (+m)._mpf_
            v = Fraction(-int(man) if s else int(man)) * Fraction(2) ** ex
        else: v = Fraction(v)
    return B.fpc(ty, sf.from_frac(ty, Fraction(v)))
nan = B.Fisnan
def isval(r, v):
    """r equals the special value v ('nan', number, infinity); angles up to 4 ulp"""
    if v == "nan": return nan(r)
    if isinstance(v, str) and "pi" in v:
        c = cv(r.sort, v).val
        s = sf.sign(r.sort, c); m = (1 << (sf.FMT[r.sort][2] - 1)) - 1
        if r.sort == "x86_fp80": lo, hi = c - 3, c + 3
        else: lo, hi = c - 3, c + 3
        a, b = (B.fpc(r.sort, hi), B.fpc(r.sort, lo)) if s else (B.fpc(r.sort, lo), B.fpc(r.sort, hi))
        return B.And(B.Fle(a, r), B.Fle(r, b))
    return B.Feq(r, cv(r.sort, v))
def args_of(c, n): return c.argvars(n)

# ------------------------------------------------------------------------------------------ C07
def c07(c):
    wrs = [Wr(f, t) for f in ONE + ["factorial"] for t in "fdl"]
    mixed = ["fd", "df", "ld", "dl", "di", "id", "fi", "if", "dq", "ud", "fQ", "li"]
    wrs += [Wr(f, p) for f in TWO for p in ["ff", "dd", "ll"] + mixed]
    wrs += [Wr("lmgamma", p) for p in ("fi", "di", "li", "du", "dq", "fd", "dd", "ll")]
    wrs += [Wr("copysign", p) for p in ("ff", "dd", "ll", "df", "fd")]
    wrs += [Wr(f, p) for f in THREE for p in ("fff", "ddd", "lll", "fdd", "ddf", "dfd", "iid", "idi", "dii", "ldf")]
    c.build(wrs)
    ts = []
    for w in wrs:
        for std in c.stds_for(w.name):
            vs = c.argvars(w.name)
            for i, t in enumerate(w.tys):
                if not isfp(t) or w.fn == "copysign" and i == 1: continue
                a = list(vs); a[i] = B.fpc(TY[t], sf.nan(TY[t]))
                if c.mods[std].funcs[w.name].rty not in FPT:
                    ts.append(c.forall("%s<%s> type %s" % (w.fn, w.tys, std), std, [(w.name, vs)], lambda rs: B.boolc(True), mode="lazy", what="result type is not floating")); continue
                def bad(rs): return B.Not(nan(rs[0]))
                pre = B.Not(B.Icmp("eq", vs[1], B.intc(vs[1].sort, 0))) if w.fn == "pow" and i == 0 and not isfp(w.tys[1]) else None
                rungs = (("rec", 66, False),) if pre is not None else RUNGS
                ts.append(ladder(c, "%s<%s> argument %d NaN %s" % (w.fn, w.tys, i + 1, std), std, [(w.name, a)], bad, pre=pre, rungs=rungs, what="a NaN argument gives a number"))
    c.bounds.append("none for the other arguments (every bit pattern / integer); calls of recursive functions are uninterpreted and expanded up to 3 levels; excluded: max, min, sgn, signbit, copysign's second argument, gcd, lcm, binomial_coef (no NaN result or integral by definition), pow with exponent of integral type zero")
    c.sample(dict(obligation="hypot<dd> argument 2 NaN", quantifies="all 2^64 values of the first argument"))
    c.parallel(ts)

RUNGS = (("lazy", 0, False), ("rec", 1, False), ("rec", 1, True), ("rec", 2, True))
def ladder(c, name, std, calls, bad, pre=None, what="", rungs=RUNGS, judge=None, timeout=20, uf=("fmul", "fdiv", "fadd", "fcast")):
    """big callees (then: their recursion) kept as uninterpreted calls; arithmetic uninterpreted first, then bit-precise;
    a model is replayed on the compiled code. A model that the compiled code does not confirm comes from the abstraction: the next rung decides."""
    def go():
        why = ""; seen = set()
        for mode, rd, prune in rungs:
            if c.left() < 20: why = "out of time"; break
            try: terms, vs = align(c, std, calls, bad) if mode == "align" else encode(c, std, calls, bad, pre, mode, rd, prune)
            except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError) as e: why = "%s %s" % (type(e).__name__, e); continue
            k = tuple(t.id for t in terms)
            if k in seen: continue
            seen.add(k)
            ints = all(v.sort not in FPT for v in vs); tries = 0
            for u in (uf, ()) if mode == "rec" and prune else (uf,):
                if not u and B.size_arith(terms) > 60: continue
                while True:
                    r, vals = c.query("%s [%s %d%s%s]" % (name, mode, rd, ", pruned" if prune else "", ", abstract arithmetic" if u else ""), terms, vs, u, (timeout if u else 10) if prune else 4, SRC)
                    if r == "unsat": c.ob(name, True); return True
                    why = r
                    if r != "sat" or vals is None: break
                    env = {v.id: (B.fpc(v.sort, x) if v.sort in FPT else B.boolc(x) if v.sort == "bool" else B.intc(v.sort, x)) for v, x in zip(vs, vals)}
                    d = c.try_replay(name, std, calls, bad, pre, env, what, judge)
                    if d is not None: return d
                    tries += 1
                    if not ints or tries > 16: break
                    # the model's integer arguments taken as constants: decided exactly, then excluded
                    cc = [(w, [B.subst(t, env) for t in a]) for w, a in calls]
                    try: ct, _ = encode(c, std, cc, lambda rs: B.subst(bad(rs), env), None, "eager", 0, False)
                    except (B.Unsupported, B.Budget, B.DepthLimit, RecursionError): break
                    if not (B.isc(ct[0]) and not ct[0].val): break
                    terms = terms + [B.Not(B.Ands([B.Iff(v, env[v.id]) if v.sort == "bool" else B.Icmp("eq", v, env[v.id]) for v in vs]))]
        c.ob(name, False, "not decided (%s)" % why)
    go.obname = name
    return go

def align(c, std, calls, bad):
    """two calls: expand the callees that only one side has, until both sides consist of the same callees"""
    keys = lambda t: {u.val[0] for u in walk(t) if u.op == "call"}
    ex = B.Exec(c.mods[std], mode="lazy", big=80, maxdepth=400, budget=20000, canon=c.canons.setdefault(std, {}), tag=std)
    rs = [ex.call(w, a, force=True) for w, a in calls]
    for _ in range(14):
        ks = [keys(r) for r in rs]; n = 0
        for i in (0, 1):
            only = ks[i] - ks[1 - i]
            if only: rs[i], k = B.expand_calls(rs[i], {std: ex}, 400, only=only); n += k
        if not n: break
    with c.lock: c.functions |= ex.funcs_seen; c.transitions += ex.steps
    vs = []
    for w, a in calls:
        for t in a:
            for v in B.varsof(t):
                if v not in vs: vs.append(v)
    return [bad(rs)], vs
def walk(t):
    seen, st = set(), [t]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id); yield u; st.extend(u.args)

def encode(c, std, calls, bad, pre, mode, rd, prune):
    pr = B.Pruner(pre, limit=100, ms=300) if prune else None
    ex = B.Exec(c.mods[std], mode=mode, big=80, flevel=rd if mode == "lazy" else 0, rd=rd, maxdepth=400, budget=200000 if all(B.isc(t) for w, a in calls for t in a) else 60000 if rd > 9 else 6000 if prune else 2500, canon=c.canons.setdefault(std, {}), tag=std, prune=pr)
    rs = [ex.call(w, a, force=mode == "lazy") for w, a in calls]
    b = bad(rs)
    with c.lock:
        c.functions |= ex.funcs_seen; c.transitions += ex.steps
        if pr: c.solver.n += pr.n; c.solver.time += pr.t
    vs = []
    for w, a in calls:
        for t in a:
            for v in B.varsof(t):
                if v not in vs: vs.append(v)
    return ([pre, b] if pre is not None else [b]), vs

# ------------------------------------------------------------------------------------------ C08
def regions(t):
    """(function, argument types, region over the arguments, expected value) for letter t"""
    ty = TY[t]; k = lambda v: cv(ty, v)
    z = k(0); inf, ninf = k("inf"), k("-inf"); one = k(1); mone = k(-1)
    lt, le, eq, And, Or, Not = B.Flt, B.Fle, B.Feq, B.And, B.Or, B.Not
    is_ = lambda v: (lambda x: eq(x, k(v)))
    fin = lambda x: And(lt(ninf, x), lt(x, inf))
    mn = k({"f": "1/85070591730234615865843651857942052864", "d": Fraction(1, 2 ** 1022), "l": Fraction(1, 2 ** 16382)}[t])
    neg = lambda x: lt(x, z); out1 = lambda x: Or(lt(x, mone), lt(one, x)); anyinf = lambda x: Or(eq(x, inf), eq(x, ninf))
    L = []
    def u(f, pre, v): L.append((f, t, pre, v))
    for f in ("sqrt", "inv_sqrt", "log", "log2", "log10"): u(f, neg, "nan")
    u("sqrt", is_("inf"), "inf"); u("sqrt", is_(0), 0); u("sqrt", is_(1), 1); u("inv_sqrt", is_(0), "inf"); u("inv_sqrt", is_("inf"), 0)
    for f in ("log", "log2", "log10"): u(f, is_(0), "-inf"); u(f, is_("inf"), "inf"); u(f, is_(1), 0)
    u("log1p", lambda x: lt(x, mone), "nan"); u("log1p", is_(-1), "-inf"); u("log1p", is_("inf"), "inf"); u("log1p", is_(0), 0)
    u("exp", is_("inf"), "inf"); u("exp", is_("-inf"), 0); u("exp", is_(0), 1); u("expm1", is_("inf"), "inf"); u("expm1", is_("-inf"), -1); u("expm1", is_(0), 0)
    H, Lo = {"f": (200, -200), "d": (1500, -1500), "l": (23000, -23000)}[t]
    u("exp", lambda x: le(k(H), x), "inf"); u("exp", lambda x: le(x, k(Lo)), 0); u("expm1", lambda x: le(k(H), x), "inf"); u("expm1", lambda x: le(x, k(Lo)), -1)
    for f in ("sin", "cos", "tan"): u(f, anyinf, "nan")
    u("sin", is_(0), 0); u("cos", is_(0), 1); u("tan", is_(0), 0)
    for f in ("asin", "acos", "atanh", "erf_inv"): u(f, out1, "nan")
    u("asin", is_(1), "pi/2"); u("asin", is_(-1), "-pi/2"); u("asin", is_(0), 0); u("acos", is_(1), 0); u("acos", is_(-1), "pi"); u("acos", is_(0), "pi/2")
    u("atan", is_("inf"), "pi/2"); u("atan", is_("-inf"), "-pi/2"); u("atan", is_(0), 0)
    u("sinh", is_("inf"), "inf"); u("sinh", is_("-inf"), "-inf"); u("sinh", is_(0), 0); u("cosh", anyinf, "inf"); u("cosh", is_(0), 1)
    u("tanh", is_("inf"), 1); u("tanh", is_("-inf"), -1); u("tanh", is_(0), 0)
    u("asinh", is_("inf"), "inf"); u("asinh", is_("-inf"), "-inf"); u("asinh", is_(0), 0)
    u("acosh", lambda x: lt(x, one), "nan"); u("acosh", is_(1), 0); u("acosh", is_("inf"), "inf")
    u("atanh", is_(1), "inf"); u("atanh", is_(-1), "-inf"); u("atanh", is_(0), 0)
    u("erf", is_("inf"), 1); u("erf", is_("-inf"), -1); u("erf", is_(0), 0); u("erf_inv", is_(1), "inf"); u("erf_inv", is_(-1), "-inf"); u("erf_inv", is_(0), 0)
    u("lgamma", lambda x: le(x, z), "inf"); u("lgamma", is_("inf"), "inf"); u("lgamma", is_(1), 0)
    u("tgamma", is_(0), "inf"); u("tgamma", is_(1), 1); u("tgamma", is_("inf"), "inf"); u("tgamma", is_("-inf"), "nan")
    u("tgamma", lambda x: And(lt(x, z), And(lt(ninf, x), eq(x, B.Rti(x, "RTZ")))), "nan")
    for f in ("floor", "ceil", "trunc", "round"): u(f, is_("inf"), "inf"); u(f, is_("-inf"), "-inf")
    u("abs", anyinf, "inf")
    def b(f, pre, v): L.append((f, t + t, pre, v))
    b("pow", lambda x, y: lt(x, z), "nan")
    b("pow", lambda x, y: And(le(z, x), eq(y, z)), 1); b("pow", lambda x, y: And(eq(x, one), Not(nan(y))), 1)
    b("pow", lambda x, y: And(eq(x, z), lt(z, y)), 0); b("pow", lambda x, y: And(eq(x, z), lt(y, z)), "inf")
    b("pow", lambda x, y: And(eq(x, inf), lt(z, y)), "inf"); b("pow", lambda x, y: And(eq(x, inf), lt(y, z)), 0)
    b("atan2", lambda y, x: And(eq(y, inf), fin(x)), "pi/2"); b("atan2", lambda y, x: And(eq(y, ninf), fin(x)), "-pi/2")
    b("atan2", lambda y, x: And(And(le(z, y), Not(B.Signbit(y))), And(lt(y, inf), eq(x, ninf))), "pi"); b("atan2", lambda y, x: And(And(B.Signbit(y), Not(nan(y))), And(lt(ninf, y), eq(x, ninf))), "-pi")
    b("atan2", lambda y, x: And(fin(y), eq(x, inf)), 0)
    b("atan2", lambda y, x: And(eq(y, inf), eq(x, inf)), "pi/4"); b("atan2", lambda y, x: And(eq(y, inf), eq(x, ninf)), "3pi/4")
    b("atan2", lambda y, x: And(eq(y, ninf), eq(x, inf)), "-pi/4"); b("atan2", lambda y, x: And(eq(y, ninf), eq(x, ninf)), "-3pi/4")
    L.extend(atan2_axes(t))
    b("hypot", lambda x, y: And(anyinf(x), Not(nan(y))), "inf"); b("hypot", lambda x, y: And(anyinf(y), Not(nan(x))), "inf"); b("hypot", lambda x, y: And(eq(x, z), eq(y, z)), 0)
    b("fmod", lambda x, y: And(anyinf(x), Not(nan(y))), "nan"); b("fmod", lambda x, y: And(eq(y, z), fin(x)), "nan")
    b("incomplete_gamma", lambda a, x: And(lt(a, z), Not(nan(x))), "nan"); b("incomplete_gamma", lambda a, x: And(le(z, a), le(x, z)), 0)
    b("incomplete_gamma", lambda a, x: And(And(le(z, a), lt(a, inf)), eq(x, inf)), 1); b("incomplete_gamma", lambda a, x: And(eq(a, z), le(mn, x)), 1)
    b("incomplete_gamma_inv", lambda a, p: And(lt(one, p), Not(nan(a))), "nan"); b("incomplete_gamma_inv", lambda a, p: And(eq(p, z), le(z, a)), 0); b("incomplete_gamma_inv", lambda a, p: And(eq(p, one), le(z, a)), "inf")
    def h(f, pre, v): L.append((f, t + t + t, pre, v))
    pos = lambda *v: B.Ands([B.And(lt(z, q), lt(q, inf)) for q in v])
    h("incomplete_beta", lambda a, b_, x: And(eq(x, z), pos(a, b_)), 0)
    h("incomplete_beta_inv", lambda a, b_, p: And(eq(p, z), pos(a, b_)), 0); h("incomplete_beta_inv", lambda a, b_, p: And(eq(p, one), pos(a, b_)), 1)
    for e in "iuq":
        tp = t + e
        sg = "ult" if e in UNS else "slt"
        L.append(("lmgamma", tp, lambda a, n, sg=sg: B.Icmp(sg, n, B.intc(n.sort, 1)), "nan"))
    return L
def atan2_axes(t):
    ty = TY[t]; k = lambda v: cv(ty, v); z = k(0); inf, ninf = k("inf"), k("-inf")
    lt, le, eq, And, Not = B.Flt, B.Fle, B.Feq, B.And, B.Not
    mn = B.fpc(ty, sf.from_frac(ty, Fraction(1, 2 ** {"f": 126, "d": 1022, "l": 16382}[t])))
    S = B.Signbit; b = []
    def add(pre, v): b.append(("atan2", t + t, pre, v))
    add(lambda y, x: And(eq(y, z), And(Not(S(y)), lt(x, z))), "pi"); add(lambda y, x: And(eq(y, z), And(S(y), lt(x, z))), "-pi")
    add(lambda y, x: And(eq(y, z), lt(z, x)), 0)
    add(lambda y, x: And(eq(y, z), And(Not(S(y)), And(eq(x, z), S(x)))), "pi"); add(lambda y, x: And(eq(y, z), And(S(y), And(eq(x, z), S(x)))), "-pi")
    add(lambda y, x: And(eq(y, z), And(eq(x, z), Not(S(x)))), 0)
    add(lambda y, x: And(le(mn, y), eq(x, z)), "pi/2"); add(lambda y, x: And(le(y, B.Fneg(mn)), eq(x, z)), "-pi/2")
    return b

def run_regions(c, L):
    wrs = {(f, p): Wr(f, p) for f, p, _, _ in L}
    c.build(list(wrs.values()))
    ts = []; cnt = {}
    for f, p, pre, v in L:
        w = wrs[(f, p)]
        cnt[(f, p)] = cnt.get((f, p), 0) + 1
        for std in c.stds_for(w.name):
            vs = c.argvars(w.name)
            def bad(rs, v=v): return B.Not(isval(rs[0], v))
            for j, (av, rest) in enumerate(points(pre(*vs), vs)):
                nm = "%s<%s> region %d.%d = %s %s" % (f, p, cnt[(f, p)], j + 1, v, std)
                ts.append(ladder(c, nm, std, [(w.name, av)], bad, pre=rest, what="special value is not %s" % v))
    c.parallel(ts)

def points(pre, vs):
    """the region as cases in which the arguments it pins to one value are constants: [(arguments, remaining region)]"""
    def conj(t): return conj(t.args[0]) + conj(t.args[1]) if t.op == "and" else [t]
    def pin(t):
        for v, k in ((t.args[0], t.args[1]), (t.args[1], t.args[0])) if t.op == "feq" else ():
            if v.op == "var" and B.isc(k): return (v, [k] if not sf.is_zero(k.sort, k.val) else [B.fpc(k.sort, 0), B.fpc(k.sort, sf.neg(k.sort, 0))])
        return None
    cases = [{}]
    for t in conj(pre):
        alts = [pin(t)] if t.op == "feq" else []
        if t.op == "not" and t.args[0].op == "and":
            alts = [pin(B.Not(x)) if B.Not(x).op == "feq" else None for x in conj(t.args[0])]
        if not alts or any(a is None for a in alts): continue
        cases = [dict(cs, **{str(v.id): k}) for cs in cases for v, ks in alts for k in ks if str(v.id) not in cs] or cases
    out = []
    for cs in cases:
        env = {v.id: cs[str(v.id)] for v in vs if str(v.id) in cs}
        p = B.subst(pre, env)
        if B.isc(p) and not p.val: continue
        out.append(([env.get(v.id, v) for v in vs], None if B.isc(p) else p))
    return out

def c08(c):
    L = [r for t in "fdl" for r in regions(t)]
    c.bounds.append("each region is a set of bit patterns (for example all x < 0, all x >= 1500, all negative integers); no bound on it. Calls of recursive functions are uninterpreted and expanded up to 3 levels")
    c.sample(dict(obligation="log<d> x < 0", quantifies="all negative doubles", expected="nan"))
    run_regions(c, L)

# ------------------------------------------------------------------------------------------ C09
ODD = "sin tan asin atan tanh erf round trunc sinh".split()
C09R = tuple(("lazy", k, True) for k in (3, 4, 5, 6, 7))
EVEN = "abs cos cosh".split()
def c09(c):
    wrs = [Wr(f, t) for f in ODD + EVEN + ["acos"] for t in "fdl"] + [Wr("hypot", p) for p in ("ff", "dd", "ll", "fd")]
    c.build(wrs)
    ts = []
    for w in wrs:
        for std in c.stds_for(w.name):
            vs = c.argvars(w.name); x = vs[0]
            if w.fn == "hypot":
                a, b = vs
                for nm, s, (p, q) in (("-x,y", a, (B.Fneg(a), b)), ("x,-y", b, (a, B.Fneg(b)))):
                    def bad(rs): return B.Not(B.Or(B.Feq(rs[0], rs[1]), B.And(nan(rs[0]), nan(rs[1]))))
                    ts.append(ladder(c, "hypot<%s>(%s) %s" % (w.tys, nm, std), std, [(w.name, [a, b]), (w.name, [p, q])], bad, pre=B.Flt(B.fpc(s.sort, 0), s), what="hypot depends on a sign", rungs=C09R))
                continue
            ng = w.fn in ODD
            z = B.fpc(x.sort, 0); mz = B.Fneg(z)
            pre = B.Flt(z, x)          # the relation between x and -x is symmetric: x > 0 covers x < 0
            if w.fn == "acos":
                pi = cv(x.sort, "pi")
                def bad(rs, pi=pi): return B.Not(B.Or(B.Feq(rs[1], B.Fsub(pi, rs[0])), B.And(nan(rs[0]), nan(rs[1]))))
            else:
                def bad(rs, ng=ng): return B.Not(B.Or(B.Feq(rs[0], B.Fneg(rs[1]) if ng else rs[1]), B.And(nan(rs[0]), nan(rs[1]))))
            nm = "%s<%s> %s %s" % (w.fn, w.tys, "odd" if ng else "even" if w.fn != "acos" else "reflection", std)
            ts.append(ladder(c, nm, std, [(w.name, [x]), (w.name, [B.Fneg(x)])], bad, pre=pre, what="symmetry broken", rungs=C09R))
            if w.fn != "acos":
                for p, q in ((z, mz), (mz, z)): ts.append(ladder(c, nm + " at zero", std, [(w.name, [p]), (w.name, [q])], bad, what="symmetry broken", rungs=C09R))
    c.bounds.append("none: every bit pattern; both sides share their recursive callees as uninterpreted functions, expanded up to 4 levels")
    c.sample(dict(obligation="tanh<d> odd", quantifies="all 2^64 doubles"))
    c.parallel(ts)

# ------------------------------------------------------------------------------------------ C11
RANK = {"f": 0, "d": 1, "l": 2}
def promoted(tys):
    fl = [t for t in tys if isfp(t)]
    return max(fl, key=lambda t: RANK[t]) if fl else "d"
def conv(v, t, to):
    if v.sort in FPT: return B.Fcast(v, TY[to])
    if v.sort == "bool": v = B.Iext("zext", v, "i8")
    return B.I2F(v, TY[to], t not in UNS and t != "b")
def c11(c):
    ints = "iuqQhcb"
    one = [Wr(f, t) for f in ONE if f not in ("abs",) for t in ints]
    prs = ["ii", "id", "di", "if", "fi", "fd", "df", "dl", "ld", "qf", "lu", "fq"] + (["qq", "uu", "iq", "QQ", "hd", "lf", "fl", "li", "cf"])
    two = [Wr(f, p) for f in TWO for p in prs if not (f == "pow" and not isfp(p[1]))]
    three = [Wr(f, p) for f in THREE for p in ["iii", "iid", "fdi", "dfl", "idf", "qqf", "ddf"] + (["iiq", "uuu", "lfd", "fff"])]
    lm = [Wr("lmgamma", p) for p in ("ii", "ui", "qi")]
    tgt = {}
    for w in one + two + three: tgt[w.name] = Wr(w.fn, promoted(w.tys) * len(w.tys))
    for w in lm: tgt[w.name] = Wr("lmgamma", "d" + w.tys[1])
    wrs = one + two + three + lm
    c.build(wrs + list({t.name: t for t in tgt.values()}.values()))
    ts = []
    for w in wrs:
        g = tgt[w.name]
        for std in c.mods:
            if std not in c.stds_for(w.name) and std not in c.stds_for(g.name): continue
            m = c.mods[std]
            if w.fn == "pow" and w.tys[0] in "iuqQhcb" and not isfp(w.tys[1]): continue
            rt, gt = m.funcs[w.name].rty, m.funcs[g.name].rty
            nm = "%s<%s> = %s<%s> %s" % (w.fn, w.tys, g.fn, g.tys, std)
            vs = c.argvars(w.name)
            tn = [conv(v, t, u) if u in "fdl" else v for v, t, u in zip(vs, w.tys, g.tys)]
            if rt != TY[promoted(w.tys)]:
                c.ob(nm, True)
                c.violation("gcem::%s with argument types %s returns %s, the promoted call returns %s [%s]" % (w.fn, w.tys, rt, gt, std), dict(fn=w.fn, tys=w.tys, std=std, wrapper=w.src(), obligation=nm)); continue
            def bad(rs): return B.Not(B.Or(B.Feq(rs[0], rs[1]), B.And(nan(rs[0]), nan(rs[1]))))
            ts.append(ladder(c, nm, std, [(w.name, vs), (g.name, tn)], bad, what="differs from the call with promoted arguments", rungs=(("align", 0, False),) + RUNGS[1:]))
    c.bounds.append("every value of the argument types (%s integral, mixed pairs and triples listed in the obligations)" % ints)
    c.sample(dict(obligation="hypot<id> = hypot<dd>", quantifies="all 2^32 x 2^64 argument pairs"))
    c.parallel(ts)
# ------------------------------------------------------------------------------------------ C06
def c06(c):
    from accx import E, accuracy
    q = c.tier == "quick"
    prs = ["ff", "dd", "ll", "fd", "ld", "di", "ii", "qi", "uu", "if"]
    wrs = [Wr("fmod", p) for p in prs]
    c.build(wrs)
    ts = []
    for w in wrs:
        ty = TY[promoted(w.tys)]
        K = lambda v: cv(ty, v)
        for std in c.stds_for(w.name):
            vs = c.argvars(w.name); x, y = (conv(v, t, promoted(w.tys)) for v, t in zip(vs, w.tys))
            A = lambda v: B.Ite(B.Signbit(v), B.Fneg(v), v)
            fin = lambda v: B.Flt(A(v), K("inf"))
            R = lambda nm, pre, bad, what, **k: ts.append(ladder(c, "fmod<%s> %s %s" % (w.tys, nm, std), std, [(w.name, vs)], bad, pre=pre, what=what, rungs=C06R, **k))
            R("|x|<|y|", B.Flt(A(x), A(y)), lambda rs, x=x: B.Not(B.Feq(rs[0], x)), "not x although |x| < |y|")
            if isfp(w.tys[0]): R("infinite x", B.And(B.Feq(A(x), K("inf")), B.Not(nan(y))), lambda rs: B.Not(nan(rs[0])), "not NaN")
            R("y = 0", B.And(B.Feq(y, K(0)), fin(x)), lambda rs: B.Not(nan(rs[0])), "not NaN")
            # any other pair: the remainder of truncated division up to the rounding of quotient, product and difference
            qb = B.And(B.Fle(A(y), A(x)), B.And(B.Flt(K(0), A(y)), fin(x)))
            def spec(rs, x=x, y=y, ty=ty):
                t = B.Rti(B.Fdiv(x, y), "RTZ")
                return B.Not(B.Feq(rs[0], B.Fadd(x, B.Fneg(B.Fmul(t, y)))))
            def judge(cargs, rcs, w=w, ty=ty):
                xx, yy = (B.subst(conv(B.fpc(v.sort, v.val) if v.sort in FPT else v, t, promoted(w.tys)), {}) for v, t in zip(cargs[0], w.tys))
                return fmodbad(ty, xx.val, yy.val, rcs[0].val)
            big = cv(ty, Fraction(2) ** {"float": 23, "double": 52, "x86_fp80": 63}[ty])
            if isfp(w.tys[0]) and w.tys[0] == w.tys[1] or w.tys == "ii": R("remainder", B.And(qb, B.Flt(A(B.Fdiv(x, y)), big)), spec, "not the remainder of truncated division", judge=judge)
    c.bounds.append("|x| < |y|, infinite x, zero y: every pair of values. Remainder: every pair whose quotient is below 2^23, 2^52, 2^63, computed with one rounding each of quotient, product and difference (arithmetic uninterpreted); numerically on windows of x and y between multiples")
    c.parallel(ts)
    es = []
    for t in "fdl":
        u = {"f": "4e-7", "d": "6e-16", "l": "3e-19"}[t]
        for y in ("1", "3", "0.7", "-2.5", "100", "0.001"):
            Y = abs(float(y)); bs = []
            for k in (0, 1, 2, 5, 17, 100, 4095, 65536) + ((2 ** 31, 2 ** 40) if t != "f" else ()):
                if t == "f" and k > 5000: continue
                g = 1e-3 if k < 10000 else 0.05 if k < 2 ** 35 else 0.1
                bs.append((k * Y + g * Y, (k + 1) * Y - g * Y))
            bs += [(-b, -a) for a, b in bs]
            es.append(E("fmod", t + t, "fmod", [("%.15g" % a, "%.15g" % b) for a, b in bs], (u, "0"), args=["x", y], rp=[(1,)], kind=1))
        for x in ("10", "-10", "1000.5"):
            X = abs(float(x)); bs = []
            for k in (1, 2, 4, 9): bs.append((X / (k + 1) * 1.001, X / k * 0.999))
            bs.append((X * 1.01, X * 50)); bs += [(-b, -a) for a, b in bs]
            es.append(E("fmod", t + t, "fmody", [("%.15g" % a, "%.15g" % b) for a, b in bs], ("%.3g" % (float(u) * (1 + X)), "0"), args=[x, "x"], rp=[(0,)]))
    accuracy(c, es, tlimit=20 if q else 200)
C06R = (("lazy", 8, False), ("lazy", 8, True))
def fmodbad(ty, xb, yb, rb):
    """the true remainder of truncated division against the result: off by more than rounding, beyond |y|, or of the wrong sign"""
    if sf.is_nan(ty, rb) or sf.is_inf(ty, rb): return True
    x, y, r = (sf.to_frac(ty, b) for b in (xb, yb, rb))
    qn = abs(x) // abs(y); true = abs(x) - qn * abs(y)
    if x < 0: true = -true
    eps = Fraction(1, 2 ** (sf.FMT[ty][1] - 1)); tol = 4 * eps * abs(x) + Fraction(1, 2 ** 16440 if ty == "x86_fp80" else 2 ** 1070 if ty == "double" else 2 ** 145)
    d = abs(r - true)
    return min(d, abs(d - abs(y))) > tol or abs(r) > abs(y) + tol
CH = dict(C06=c06, C07=c07, C08=c08, C09=c09, C11=c11)
