"""C01 rounding, C02 sign / magnitude / ordering: bit-precise floating-point queries over all bit patterns."""
import bitsym as B, sf
from ctx import Wr, TY
from irgen import FPT

def edge_bits(t):
    """bit patterns used only to validate the encoding against the compiled code"""
    ty = TY[t]
    F = sf.Fraction
    vs = [F(0), F(1), F(-1), F(1, 2), F(-1, 2), F(3, 2), F(-5, 2), F(7, 3), F(-10 ** 6 - 1, 4), F(2) ** 23 - F(1, 2), F(2) ** 52 + F(1, 2), F(2) ** 63 - 1, F(2) ** 64, F(1, 10 ** 30), F(-2) ** 31]
    return [sf.from_frac(ty, v) for v in vs] + [sf.inf(ty), sf.inf(ty, 1), sf.nan(ty), sf.neg(ty, 0), 1 if ty != "x86_fp80" else 1]

def c01(c):
    fns = (("floor", "RTN"), ("ceil", "RTP"), ("trunc", "RTZ"), ("round", "RNA"))
    wrs = [Wr(f, t) for t in "fdl" for f, _ in fns] + [Wr(f, t) for t in "iqu" for f, _ in fns]
    c.build(wrs)
    bad = c.validate([(Wr(f, t).name, [x]) for t in "fdl" for f, _ in fns for x in edge_bits(t)])
    ts = []
    for t in "fdl":
        for f, mode in fns:
            n = Wr(f, t).name
            for std in c.stds_for(n):
                if (std, n) in bad: c.ob(n, False, "encoding not validated"); continue
                x = c.argvars(n)[0]; spec = B.Rti(x, mode)
                # equal value; zeros must come back with their own sign; NaN -> NaN
                def mkbad(x=x, spec=spec):
                    def badf(rs):
                        r = rs[0]
                        ok = B.Or(B.And(B.Fisnan(x), B.Fisnan(r)), B.And(B.Feq(r, spec), B.Or(B.Not(B.Feq(x, B.fpc(x.sort, 0))), B.Iff(B.Signbit(r), B.Signbit(x)))))
                        return B.Not(ok)
                    return badf
                ts.append(c.forall("%s %s %s" % (f, t, std), std, [(n, [x])], mkbad(), timeout=150, solvers=("z3-new", "cvc5", "z3"), what="wrong integer"))
    # integral arguments come back as the same number in double
    for t in "iqu":
        for f, mode in fns:
            n = Wr(f, t).name
            for std in c.stds_for(n):
                x = c.argvars(n)[0]; d = B.I2F(x, "double", t != "u")
                ts.append(c.forall("%s %s %s" % (f, t, std), std, [(n, [x])], (lambda d: lambda rs: B.Not(B.Feq(rs[0], d)))(d), timeout=60, solvers=("z3-new", "cvc5", "z3"), what="integer argument changed"))
    c.bounds.append("none: every bit pattern of float, double and x87 long double (canonical encodings), every int, unsigned and long long value")
    c.sample(dict(obligation="floor d", quantifies="all 2^64 doubles", expected="fp.roundToIntegral RTN"))
    c.parallel(ts, 4)

def c02(c):
    wrs = [Wr(f, t) for f in ("abs", "sgn") for t in "fdliq"] + [Wr("signbit", t) for t in "fdl"]
    two = ["ff", "dd", "ll", "ii", "qq", "fd", "df", "dl", "iq", "qi", "id", "di", "fi", "uu", "QQ"]
    wrs += [Wr(f, p) for f in ("max", "min") for p in two]
    wrs += [Wr("copysign", p) for p in ("ff", "dd", "ll", "fd", "df", "ld", "dl")]
    c.build(wrs)
    cases = [(w.name, [x] if len(w.tys) == 1 else [x, y]) for w in wrs if all(t in "fdl" for t in w.tys) for x in edge_bits(w.tys[0]) for y in (edge_bits(w.tys[-1])[1::4] if len(w.tys) > 1 else [0]) if not (w.fn in ("signbit", "copysign") and any(sf.is_nan(TY[t], v) for t, v in zip(w.tys, (x, y))))]
    bad = c.validate(cases)
    ts = []
    nan = B.Fisnan
    def add(w, std, pre, badf, what):
        if (std, w.name) in bad: c.ob(w.name, False, "encoding not validated"); return
        ts.append(c.forall("%s<%s> %s" % (w.fn, w.tys, std), std, [(w.name, xs)], badf, pre=pre, timeout=60, what=what))
    for w in wrs:
        for std in c.stds_for(w.name):
            xs = c.argvars(w.name); x = xs[0]; fp = x.sort in FPT
            rt = c.mods[std].funcs[w.name].rty
            if w.fn in ("abs", "fabs", "fabsf", "fabsl"):
                want = {"fabsf": "float", "fabsl": "x86_fp80"}.get(w.fn, x.sort if w.fn == "abs" or fp else "double")
                if rt != want: c.violation("%s<%s> returns %s, expected %s" % (w.fn, w.tys, rt, want), dict(fn=w.fn, tys=w.tys, std=std)); continue
                if fp:
                    y = B.Fcast(x, rt)
                    m = B.Ite(B.Signbit(y), B.Fneg(y), y)
                    add(w, std, None, (lambda x, m: lambda rs: B.Not(B.Or(B.And(nan(x), nan(rs[0])), B.same(rs[0], m))))(x, m), "magnitude wrong")
                else:
                    mn = B.intc(x.sort, 1 << (int(x.sort[1:]) - 1)); z = B.intc(x.sort, 0)
                    m = B.Ite(B.Icmp("slt", x, z), B.Ibin("sub", z, x), x)
                    if rt in FPT: add(w, std, B.Not(B.Icmp("eq", x, mn)), (lambda m, rt: lambda rs: B.Not(B.Feq(rs[0], B.I2F(m, rt, True))))(m, rt), "magnitude wrong")
                    else: add(w, std, B.Not(B.Icmp("eq", x, mn)), (lambda m: lambda rs: B.Not(B.Icmp("eq", rs[0], m)))(m), "magnitude wrong")
            elif w.fn == "sgn":
                one = B.intc(rt, 1); z = B.intc(rt, 0); mo = B.intc(rt, -1)
                if fp: pos, neg, pre = B.Flt(B.fpc(x.sort, 0), x), B.Flt(x, B.fpc(x.sort, 0)), B.Not(nan(x))
                else: pos, neg, pre = B.Icmp("sgt", x, B.intc(x.sort, 0)), B.Icmp("slt", x, B.intc(x.sort, 0)), None
                e = B.Ite(pos, one, B.Ite(neg, mo, z))
                add(w, std, pre, (lambda e: lambda rs: B.Not(B.Icmp("eq", rs[0], e)))(e), "sign wrong")
            elif w.fn == "signbit":
                add(w, std, B.Not(nan(x)), (lambda x: lambda rs: B.Not(B.Iff(rs[0] if rs[0].sort == "bool" else B.Not(B.Icmp("eq", rs[0], B.intc(rs[0].sort, 0))), B.Signbit(x))))(x), "sign bit wrong")
            elif w.fn == "copysign":
                y = xs[1]
                if rt != x.sort: c.violation("copysign<%s> returns %s" % (w.tys, rt), dict(fn=w.fn, tys=w.tys, std=std)); continue
                m = B.Ite(B.Signbit(x), B.Fneg(x), x); e = B.Ite(B.Signbit(y), B.Fneg(m), m)
                add(w, std, B.And(B.Not(nan(x)), B.Not(nan(y))), (lambda e: lambda rs: B.Not(B.same(rs[0], e)))(e), "sign or magnitude wrong")
            else:
                y = xs[1]
                def conv(v, t, rt):
                    if v.sort in FPT: return B.Fcast(v, rt)
                    if rt in FPT: return B.I2F(v, rt, t not in "uQ")
                    return B.Iext("zext" if t in "uQ" else "sext", v, rt)
                common = max((TY[t] for t in w.tys if TY[t] in FPT), key=lambda s: sf.FMT[s][1], default=None) or max((TY[t] for t in w.tys), key=lambda s: int(s[1:]))
                if rt != common: c.violation("%s<%s> returns %s, expected %s" % (w.fn, w.tys, rt, common), dict(fn=w.fn, tys=w.tys, std=std)); continue
                X, Y = conv(x, w.tys[0], rt), conv(y, w.tys[1], rt)
                if rt in FPT:
                    lt = B.Flt(X, Y); pre = B.And(B.Not(nan(X)), B.Not(nan(Y)))
                    e = B.Ite(lt, Y, X) if w.fn == "max" else B.Ite(lt, X, Y)
                    add(w, std, pre, (lambda e: lambda rs: B.Not(B.Feq(rs[0], e)))(e), "not the %s" % w.fn)
                else:
                    lt = B.Icmp("ult" if all(t in "uQ" for t in w.tys) else "slt", X, Y)
                    e = B.Ite(lt, Y, X) if w.fn == "max" else B.Ite(lt, X, Y)
                    add(w, std, None, (lambda e: lambda rs: B.Not(B.Icmp("eq", rs[0], e)))(e), "not the %s" % w.fn)
    c.bounds.append("none: every bit pattern (NaN excluded for signbit, sgn, copysign, max, min; most negative integer excluded for abs)")
    c.sample(dict(obligation="copysign<fd>", quantifies="all 2^32 x 2^64 argument pairs"))
    c.parallel(ts)
