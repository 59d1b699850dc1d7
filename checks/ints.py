"""C03 gcd / lcm, C04 factorial / binomial_coef, C05 integral powers of integers (engine B); C05 floating bases (engine A)."""
import bitsym as B, sf, math
from ctx import Wr, TY, WID
from irgen import FPT
from accx import E, accuracy
UNS = "uQ"
SRC = ("z3-new", "cvc5", "z3")

def absterm(x, t):
    if t in UNS: return x
    return B.Ite(B.Icmp("slt", x, B.intc(x.sort, 0)), B.Ibin("sub", B.intc(x.sort, 0), x), x)
def wide(x, t, w):
    if int(x.sort[1:]) >= w: return x
    return B.Iext("zext" if t in UNS else "sext", x, "i%d" % w)
def common(a, b):
    """the common type of two integer letters (usual arithmetic conversions do not promote: std::common_type of equal narrow types is the type)"""
    if a == b: return a
    r = {"c": 0, "h": 1, "i": 2, "u": 3, "q": 4, "Q": 5}
    a2, b2 = (x if r[x] >= 2 else "i" for x in (a, b))
    return a2 if r[a2] >= r[b2] else b2
def euclid(a, b, rem, D):
    """(gcd term, 'finished within D divisions' term), by the textbook algorithm on non-negative values"""
    z = B.intc(a.sort, 0)
    if D == 0: return a, B.Icmp("eq", b, z)
    done = B.Icmp("eq", b, z)
    if B.isc(done) and done.val: return a, B.boolc(True)
    g, f = euclid(b, B.Ibin(rem, a, b), rem, D - 1)
    return B.Ite(done, a, g), B.Or(done, f)

def intcases(t):
    w = WID[t]; m = (1 << w) - 1
    return [0, 1, 2, 6, 9, 12, 28, 35, 97] + ([m & -6, m & -9, m & -1] if t not in UNS else [])

def c03(c):
    q = c.tier == "quick"
    D = 12 if q else 30
    SM = 40 if q else 255
    pairs = ["ii", "qq", "uu", "QQ", "iu", "ui", "iq", "qi", "uq", "qu", "hi", "iQ", "hh", "cc"]
    fps = ["dd", "ff", "id", "ll"]
    wrs = [Wr(f, p) for f in ("gcd", "lcm") for p in pairs if (f, p) not in (("lcm", "cc"), ("lcm", "hh"))] + [Wr("gcd", p) for p in fps]
    c.build(wrs)
    bad = c.validate([(w.name, [a, b]) for w in wrs if w.tys not in fps for a in intcases(w.tys[0]) for b in intcases(w.tys[1]) if not (any(t in UNS for t in w.tys) and w.tys[0] != w.tys[1] and w.fn == "lcm" and 0)])
    ts = []
    for w in wrs:
        for std in c.stds_for(w.name):
            if (std, w.name) in bad: c.ob(w.name, False, "encoding not validated"); continue
            xs = c.argvars(w.name)
            if w.tys in fps:
                # integers held in floating-point arguments, by sign
                rt = c.mods[std].funcs[w.name].rty
                for sa in (0, 1):
                    for sb in (0, 1):
                        iv = [B.var("n%d" % k, "i8") for k in range(2)]
                        def mkarg(v, x, sg):
                            r = B.I2F(v, x.sort, False) if x.sort in FPT else B.Iext("zext", v, x.sort)
                            return r if not sg else (B.Fneg(r) if x.sort in FPT else B.Ibin("sub", B.intc(x.sort, 0), r))
                        args = [mkarg(v, x, sg) for v, x, sg in zip(iv, xs, (sa, sb))]
                        pre = B.Ands([B.Not(B.Icmp("ult", B.intc("i8", SM), v)) for v in iv])
                        def badf(rs, iv=iv, rt=rt):
                            g, fin = euclid(iv[0], iv[1], "urem", 12 if not B.isc(iv[0]) else 100)
                            return B.And(fin, B.Not(B.Feq(rs[0], B.I2F(g, rt, False))))
                        ts.append(c.forall("gcd<%s>(%sn, %sm) n,m<=%d %s" % (w.tys, "-" * sa, "-" * sb, SM, std), std, [(w.name, args)], badf, pre=pre, unwind=15, timeout=30, solvers=SRC, what="not the greatest common divisor", uf2=("urem", "srem")))
                continue
            tc = common(*w.tys); W = WID[tc]; s = "i%d" % W; rem = "urem" if tc in UNS else "srem"; div = "udiv" if tc in UNS else "sdiv"
            rt = c.mods[std].funcs[w.name].rty
            if rt != s: c.violation("%s<%s> returns %s, expected the common type %s" % (w.fn, w.tys, rt, s), dict(fn=w.fn, tys=w.tys, std=std)); continue
            nomin = B.Ands([B.Not(B.Icmp("eq", x, B.intc(x.sort, 1 << (WID[t] - 1)))) for x, t in zip(xs, w.tys) if t not in UNS])
            A = [wide(absterm(x, t), t, W) for x, t in zip(xs, w.tys)]
            if tc not in UNS: A = [wide(absterm(x, t), t, W) for x, t in zip(xs, w.tys)]
            word = "not the %s" % ("greatest common divisor" if w.fn == "gcd" else "least common multiple")
            def spec(A, D, rem=rem, div=div, s=s, tc=tc, fn=w.fn):
                g, fin = euclid(A[0], A[1], rem, D)
                if fn == "gcd": return g, fin
                z = B.intc(s, 0); zero = B.Or(B.Icmp("eq", A[0], z), B.Icmp("eq", A[1], z))
                qd = B.Ibin(div, A[1], B.Ite(zero, B.intc(s, 1), g)); m = B.Ibin("mul", A[0], qd)
                # representable: product / factor gives the factor back and the sign bit is clear
                W2 = 2 * int(s[1:]); big = B.Ibin("mul", B.Iext("zext", A[0], "i%d" % W2), B.Iext("zext", qd, "i%d" % W2))
                lim = B.intc("i%d" % W2, (1 << (int(s[1:]) - (0 if tc in UNS else 1))) - 1)
                ok = B.Not(B.Icmp("ult", lim, big))
                if tc not in UNS: ok = B.And(ok, B.Not(B.Icmp("slt", m, z)))     # implied; needed when the product is abstracted
                return B.Ite(zero, z, m), B.And(fin, B.Or(zero, ok))
            def badf(rs, A=A, xs=xs, W=W, spec=spec, D=D):
                g, ok = spec(A, D)
                return B.And(ok, B.Not(B.Icmp("eq", rs[0], g)))
            # all values up to D division steps, by congruence (the divisions abstracted)
            ts.append(c.forall("%s<%s> all values %s" % (w.fn, w.tys, std), std, [(w.name, xs)], badf, pre=nomin, unwind=D + 3, timeout=8, solvers=SRC, what=word, uf2=("urem", "srem", "udiv", "sdiv", "mul")))
            SMw = min(SM, 11) if tc == "c" else SM          # products up to 121 fit a signed char
            # small magnitudes with every sign, bit-precise (no abstraction)
            for sa in ((0, 1) if w.tys[0] not in UNS else (0,)):
                for sb in ((0, 1) if w.tys[1] not in UNS else (0,)):
                    iv = [B.var("n%d" % k, "i8") for k in range(2)]
                    args = [B.Ibin("sub", B.intc(x.sort, 0), B.Iext("zext", v, x.sort)) if sg else B.Iext("zext", v, x.sort) for v, x, sg in zip(iv, xs, (sa, sb))]
                    pre = B.Ands([B.Not(B.Icmp("ult", B.intc("i8", SMw), v)) for v in iv])
                    def bf(rs, iv=iv, s=s, fn=w.fn):
                        g, fin = euclid(iv[0], iv[1], "urem", 12 if not B.isc(iv[0]) else 100)
                        if fn == "lcm":
                            z = B.intc("i8", 0); zero = B.Or(B.Icmp("eq", iv[0], z), B.Icmp("eq", iv[1], z))
                            qd = B.Ibin("udiv", iv[1], B.Ite(zero, B.intc("i8", 1), g))
                            g = B.Ite(zero, B.intc("i16", 0), B.Ibin("mul", B.Iext("zext", iv[0], "i16"), B.Iext("zext", qd, "i16")))
                        return B.And(fin, B.Not(B.Icmp("eq", rs[0], B.Iext("zext", g, s))))
                    ts.append(c.forall("%s<%s>(%sn, %sm) n,m<=%d %s" % (w.fn, w.tys, "-" * sa, "-" * sb, SMw, std), std, [(w.name, args)], bf, pre=pre, unwind=15, timeout=25, solvers=SRC, what=word))
    # the reference algorithm itself: a common divisor divisible by every common divisor (5-bit values)
    a, b, d = (B.var(n, "i6") for n in "abd"); z = B.intc("i6", 0)
    g, fin = euclid(a, b, "urem", 9)
    div = lambda p, q: B.Icmp("eq", B.Ibin("urem", q, p), z)
    some = B.Or(B.Not(B.Icmp("eq", a, z)), B.Not(B.Icmp("eq", b, z)))
    def lemma():
        r, _ = c.query("reference gcd is the gcd (6-bit)", [some, B.Not(B.Icmp("eq", d, z)), B.Not(B.And(B.And(fin, B.And(div(g, a), div(g, b))), B.Or(B.Not(B.And(div(d, a), div(d, b))), div(d, g))))], (), timeout=60)
        c.ob("reference gcd is the gcd (6-bit)", r == "unsat", r)
    ts.append(lemma)
    c.bounds.append("all values of the types (most negative excluded) that finish within %d division steps; lcm where representable; floating arguments: integers |n| <= 60" % D)
    c.sample(dict(obligation="gcd<ii> all values", property="result = Euclid reference whenever it ends within %d steps" % D))
    c.parallel(ts)

def c04(c):
    q = c.tier == "quick"
    top = {"i": 12, "u": 12, "q": 20, "Q": 20, "h": 7}
    bt = {"i": 33, "u": 34, "q": 66, "Q": 67}
    N = 24 if q else 33
    wrs = [Wr("factorial", t) for t in top] + [Wr("binomial_coef", p) for p in ("ii", "qq", "QQ", "uu", "iq", "hh", "cc", "dd", "ff", "id")]
    c.build(wrs)
    bad = c.validate([(Wr("factorial", t).name, [k]) for t in top for k in range(top[t] + 1)] + [(Wr("binomial_coef", p).name, [n, k]) for p in ("ii", "qq", "QQ") for n in range(0, 9) for k in range(0, 10)])
    ts = []
    for t in top:
        w = Wr("factorial", t)
        for std in c.stds_for(w.name):
            if (std, w.name) in bad: c.ob(w.name, False, "encoding not validated"); continue
            x, = c.argvars(w.name); rt = c.mods[std].funcs[w.name].rty
            def badf(rs, x=x, t=t, rt=rt):
                e = B.intc(rt, 1)
                for k in range(top[t] + 1): e = B.Ite(B.Icmp("eq", x, B.intc(x.sort, k)), B.intc(rt, math.factorial(k)), e)
                return B.Not(B.Icmp("eq", rs[0], e))
            ts.append(c.forall("factorial<%s> %s" % (t, std), std, [(w.name, [x])], badf, pre=B.Not(B.Icmp("ult", B.intc(x.sort, top[t]), x)), unwind=24, timeout=40, what="not n!"))
    for w in wrs:
        if w.fn != "binomial_coef": continue
        for std in c.stds_for(w.name):
            if (std, w.name) in bad: c.ob(w.name, False, "encoding not validated"); continue
            rt = c.mods[std].funcs[w.name].rty
            fp = any(t in "fd" for t in w.tys)
            for n in range(0, N + 1):
                if fp and n > 12 or n > {"h": 17, "c": 9}.get(w.tys[0], 99): break
                kk = B.var("k", "i8") if fp else c.argvars(w.name)[1]
                t0, t1 = w.tys
                nt = c.const(t0, sf.from_int(TY[t0], n) if t0 in "fd" else n)
                ka = B.I2F(kk, TY[t1], False) if t1 in "fd" else (B.Iext("zext", kk, TY[t1]) if fp else kk)
                want = lambda k: math.comb(n, k)
                def badf(rs, kk=kk, n=n, rt=rt):
                    mk = (lambda v: B.fpc(rt, sf.from_int(rt, v))) if rt in FPT else (lambda v: B.intc(rt, v))
                    e = mk(0)
                    for k in range(n + 1): e = B.Ite(B.Icmp("eq", kk, B.intc(kk.sort, k)), mk(math.comb(n, k)), e)
                    return B.Not(B.Feq(rs[0], e) if rt in FPT else B.Icmp("eq", rs[0], e))
                hi = n + 6
                ts.append(c.forall("binomial_coef<%s>(%d, k) %s" % (w.tys, n, std), std, [(w.name, [nt, ka])], badf, pre=B.Not(B.Icmp("ult", B.intc(kk.sort, hi), kk)), timeout=40, unwind=n + 4, what="not n choose k", budget=2000000))
    c.bounds.append("factorial: every representable n of short, int, unsigned, long long, unsigned long long; binomial_coef: every n <= %d (floating arguments 12) with every 0 <= k <= n+6" % N)
    c.sample(dict(obligation="binomial_coef<ii>(20, k)", quantifies="k symbolic"))
    c.parallel(ts)

def iroot(m, n):
    r = int(round(m ** (1.0 / n)))
    while r ** n > m: r -= 1
    while (r + 1) ** n <= m: r += 1
    return r
def powterm(x, n):
    r = B.intc(x.sort, 1); b = x
    first = True
    for bit in bin(n)[2:]:
        r = B.Ibin("mul", r, r) if not first else r
        if bit == "1": r = x if first else B.Ibin("mul", r, x)
        first = False
    return r if n else B.intc(x.sort, 1)
def c05(c):
    q = c.tier == "quick"
    NE = 20 if q else 64
    bases = "iquQhc"; exps = "iuqQhc"
    prs = ["ii", "qi", "iq", "qq", "uu", "ui", "QQ", "Qi", "iu", "hi", "ci", "ih", "hh", "cc"] + ([] if q else [b + e for b in "iquQ" for e in "iuqQ"] + ["qc", "uc"])
    prs = list(dict.fromkeys(prs))
    fprs = ["di", "dq", "du", "dh", "fi", "fu", "li", "lu", "dc", "dQ"]
    wrs = [Wr("pow", p) for p in prs + fprs]
    c.build(wrs)
    bad = c.validate([(Wr("pow", p).name, [b & ((1 << WID[p[0]]) - 1), e]) for p in prs for b in (1, 2, 3, 5, -2, -3) if b > 0 or p[0] not in UNS for e in range(0, 5)])
    ts = []
    for p in prs:
        w = Wr("pow", p); tb, te = p
        tc = common(tb, te)
        for std in c.stds_for(w.name):
            if (std, w.name) in bad: c.ob(w.name, False, "encoding not validated"); continue
            rt = c.mods[std].funcs[w.name].rty
            if rt != TY[tc]: c.violation("pow<%s> returns %s, expected the common type %s" % (p, rt, TY[tc]), dict(fn="pow", tys=p, std=std)); continue
            sg = tc not in UNS; W = WID[tc]; mx = (1 << (W - (1 if sg else 0))) - 1
            mx8 = mx
            x = c.argvars(w.name)[0]
            X = wide(x, tb, W)
            ew = WID[te]
            ns = list(range(0, NE + 1))
            if te not in UNS: ns += [-k for k in range(1, NE + 1)] + [-(1 << (ew - 1)), -(1 << (ew - 1)) + 1, (1 << (ew - 1)) - 1]
            else: ns += [(1 << ew) - 1, 1 << (ew - 1)]
            for n in ns:
                et = c.const(te, n & ((1 << ew) - 1))
                if n >= 0:
                    lim = mx if n <= 1 else (1 if n > 64 else iroot(mx, n))
                    lim = min(lim, (1 << (WID[tb] - (0 if tb in UNS else 1))) - 1)
                    neg = sg and tb not in UNS
                    lo = -lim if neg else 0
                    if tb not in UNS and not sg: lo = 0
                    def ref(x, X, n=n, rt=rt):
                        return powterm(X, n) if n <= 64 else B.Ite(B.Icmp("eq", X, B.intc(X.sort, -1)), B.intc(X.sort, -1 if n & 1 else 1), X)
                else:
                    if not sg: continue      # a reciprocal in an unsigned type
                    lo, lim = -(1 << (WID[tb] - 1)) + 1 if tb not in UNS else 0, (1 << (WID[tb] - 1)) - 1
                    def ref(x, X, n=n, rt=rt):
                        return B.Ite(B.Icmp("eq", X, B.intc(X.sort, 1)), B.intc(X.sort, 1), B.Ite(B.Icmp("eq", X, B.intc(X.sort, -1)), B.intc(X.sort, -1 if n & 1 else 1), B.intc(X.sort, 0)))
                if tb in UNS: pre = B.Not(B.Icmp("ult", B.intc(x.sort, min(lim, (1 << WID[tb]) - 1)), x))
                else: pre = B.And(B.Not(B.Icmp("slt", x, B.intc(x.sort, lo))), B.Not(B.Icmp("slt", B.intc(x.sort, lim), x)))
                if n < 0: pre = B.And(pre, B.Not(B.Icmp("eq", x, B.intc(x.sort, 0))))
                def badf(rs, x=x, X=X, ref=ref): return B.Not(B.Icmp("eq", rs[0], ref(x, X)))
                wh = "not the n-fold product"
                if abs(n) > 64 or n < 0:
                    # bases -1, 0, 1 one by one; for a negative exponent every larger base with the products abstracted
                    for b in (-1, 0, 1):
                        if b < 0 and tb in UNS or b == 0 and n < 0 or b < 0 and not sg: continue
                        bt = B.intc(x.sort, b); wb = B.intc(rt, b if n & 1 or b >= 0 else 1)
                        ts.append(c.forall("pow<%s>(%d, %d) %s" % (p, b, n, std), std, [(w.name, [bt, et])], (lambda rs, wb=wb: B.Not(B.Icmp("eq", rs[0], wb))), timeout=10, unwind=90, what=wh))
                    if n > 0: continue
                    one = B.intc(x.sort, 1)
                    big = B.Or(B.Icmp("slt", one, x) if tb not in UNS else B.Icmp("ult", one, x), B.Icmp("slt", x, B.intc(x.sort, -1)) if tb not in UNS else B.boolc(False))
                    ts.append(c.forall("pow<%s>(|x|>1, %d) %s" % (p, n, std), std, [(w.name, [x, et])], badf, pre=B.And(pre, big), timeout=10, unwind=70, what=wh, uf2=("mul", "sdiv", "udiv")))
                    continue
                ts.append(c.forall("pow<%s>(x, %d) %s" % (p, n, std), std, [(w.name, [x, et])], badf, pre=pre, timeout=10, unwind=70, solvers=("z3-new", "cvc5"), what=wh, uf2=("mul",)))
    c.bounds.append("integer bases: every base whose power is representable, every exponent in [-%d,%d] and the extreme exponents of the type" % (NE, NE))
    c.parallel(ts)
    es = []
    for p in fprs:
        t = p[0]; tol = {"f": "1e-5", "d": "1e-13", "l": "1e-16"}[t]
        ns = ([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 21, 31, 40] if q else list(range(0, 65)) + [100]) if p in ("di", "fi", "li") else [4, 7, 13]
        if p[1] not in UNS: ns += [-k for k in (ns if p in ("di", "fi", "li") else [1, 4, 5]) if k]
        for n in ns:
            if t == "f" and abs(n) > 30: continue
            iv = [("0.1", "1"), ("1", "10")] if abs(n) > 8 else [("1e-3", "0.1"), ("0.1", "10"), ("10", "1e3")]
            dom = iv + [("-" + b, "-" + a) for a, b in iv]
            es.append(E("pow", p, "powi", dom, ("0", tol), args=["x", str(n)], rp=[(1,)], maxratio=1e9 if abs(n) <= 3 else 64.0))
    accuracy(c, es, tlimit=20 if q else 200)
    # zero and infinite bases, by sign and parity
    ts = []
    for p in ("di", "fi", "li", "dq", "fu"):
        w = Wr("pow", p); t = p[0]; ty = TY[t]
        for std in c.stds_for(w.name):
            for n in (1, 2, 3, 4, 5, 6, 7, 10, 33, -1, -2, -3, -4, -5):
                if p[1] in UNS and n < 0: continue
                for s in (0, 1):
                    for b, z in (("zero", True), ("infinity", False)):
                        xb = sf.neg(ty, 0) if s else 0
                        if not z: xb = sf.inf(ty, s)
                        rs = s if n % 2 else 0
                        small = z == (n > 0)
                        wb = (sf.neg(ty, 0) if rs else 0) if small else sf.inf(ty, rs)
                        def badf(rs_, ty=ty, wb=wb, n=n): return B.Not(B.Feq(rs_[0], B.fpc(rs_[0].sort, wb)) if n > 0 or True else B.boolc(True))
                        ts.append(c.forall("pow<%s>(%s%s, %d) %s" % (p, "-" if s else "", b, n, std), std, [(w.name, [B.fpc(ty, xb), c.const(p[1], n & ((1 << WID[p[1]]) - 1))])], badf, timeout=10, unwind=70, what="wrong limit"))
    c.parallel(ts)
CH = dict(C03=c03, C04=c04, C05=c05)
