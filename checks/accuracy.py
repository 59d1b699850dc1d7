"""C13-C29: accuracy of every floating-point function on boxes that cover the stated domain (engine A)."""
from fractions import Fraction
from accx import E, accuracy, fr
import accx

MINN = {"f": "2^-126", "d": "2^-1022", "l": "2^-16382"}
MAXN = {"f": "3.4e38", "d": "1.79e308", "l": "1.18e4932"}
def R(*pts): return list(zip(pts[:-1], pts[1:]))
def neg(s): s = str(s); return s[1:] if s.startswith("-") else "-" + s
def SYM(iv, zero=True): return iv + [(neg(b), neg(a)) for a, b in iv] + ([("0", "0")] if zero else [])
def steps(lo, hi, n):
    lo, hi = fr(lo), fr(hi); return [(str(lo + (hi - lo) * k / n), str(lo + (hi - lo) * (k + 1) / n)) for k in range(n)]
def tol(f, d, l): return {"f": f, "d": d, "l": l}
def rel(f, d, l): return {k: ("0", v) for k, v in zip("fdl", (f, d, l))}
def mix(f, d, l): return {k: (v, v) for k, v in zip("fdl", (f, d, l))}
def ab(f, d, l): return {k: (v, "0") for k, v in zip("fdl", (f, d, l))}
T = "fdl"

def c13(c):
    H = {"f": "88.7", "d": "709.7", "l": "11356"}; L = {"f": "87", "d": "708", "l": "11355"}
    es = []
    for t in T:
        big = {"f": R("2", "16", "64", "88.7"), "d": R("2", "16", "64", "200", "400", "709.7"), "l": R("2", "16", "64", "200", "400")}[t]
        bign = {"f": R("-87", "-64", "-16", "-2"), "d": R("-708", "-400", "-200", "-64", "-16", "-2"), "l": R("-400", "-200", "-64", "-16", "-2")}[t]
        small = SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "2")])
        dom = small + big + bign
        es.append(E("exp", t, "exp", dom, rel("5e-6", "1e-14", "1e-16")))
        es.append(E("expm1", t, "expm1", dom, mix("5e-6", "1e-14", "1e-16")))
        if t == "l":
            far = [("%d" % a, "%d" % (a + 40)) for a in (990, 3980, 10860)] if c.tier == "quick" else steps(400, 10900, 40)
            far += [(neg(b), neg(a)) for a, b in far]
            es.append(E("exp", t, "exp", far, rel("", "", "1e-15"))); es.append(E("expm1", t, "expm1", far, mix("", "", "1e-15")))
    c.bounds.append("x in [-87,88.7] float, [-708,709.7] double, [-400,400] long double in full (thorough: [-10900,10900]; quick: windows of 40 at 990, 3980, 10860)")
    accuracy(c, es, tlimit=40)
def c14(c):
    es = []; q = c.tier == "quick"
    wide = {"f": R("2^-126", "1e-20", "1e-6", "0.1", "0.5", "1", "10", "1e3", "1e10", "1e20", "3.4e38"),
            "d": R("2^-1022", "1e-200", "1e-120", "1e-60", "1e-20", "1e-6", "0.1", "0.5", "1", "10", "1e3", "1e20", "1e60", "1e90", "1e120", "1e160", "1e200", "1e250", "1.79e308"),
            "l": R("1e-20", "1e-6", "0.1", "0.5", "1", "10", "1e3", "1e12", "1e20") if q else R("1e-500", "1e-350", "1e-200", "1e-120", "1e-60", "1e-20", "1e-6", "0.1", "0.5", "1", "10", "1e3", "1e20", "1e60", "1e120", "1e200", "1e350", "1e500")}
    narrow = {"f": wide["f"], "d": R("1e-20", "0.1", "0.5", "1", "10", "1e20"), "l": R("1e-3", "0.5", "1", "10", "1e3")}
    far = {"f": [], "d": [("1e-300", "1e-298"), ("2e-110", "3e-108"), ("1e100", "1e102"), ("1e300", "1e302")], "l": [("1e-480", "1e-479"), ("1e-110", "1e-109"), ("1e100", "1e101"), ("1e480", "1e481")]}
    for t in T:
        for f in ("log", "log2", "log10"):
            dom = wide[t] + (far[t] if t == "l" and q else []) if f == "log" or not q else narrow[t] + far[t]
            es.append(E(f, t, f, dom, mix("1e-5", "1e-14", "1e-16")))
        es.append(E("log1p", t, "log1p", SYM([(MINN[t], "2^-20"), ("2^-20", "0.5")]) + [("0.5", "1e10"), ("-0.9", "-0.5"), ("-0.9999", "-0.9")], mix("1e-5", "1e-14", "1e-16")))
    c.bounds.append("log: every positive normal float and double; long double [1e-20,1e20] and windows (thorough [1e-500,1e500]); log2/log10 double [1e-20,1e20] and windows in quick, full range in thorough; log1p [-0.9999,1e10]")
    accuracy(c, es, tlimit=40 if q else 400)
def c15(c):
    es = []; q = c.tier == "quick"
    wide = {"f": R("2^-126", "1e-20", "1e-3", "0.5", "2", "100", "1e10", "3.4e38"),
            "d": R("2^-1022", "1e-250", "1e-200", "1e-150", "1e-100", "1e-50", "1e-20", "1e-3", "0.5", "2", "100", "1e10", "1e50", "1e100"),
            "l": R("1e-12", "1e-8", "1e-3", "0.5", "2", "100", "1e4", "1e6") + [("1e-4900", "2e-4900"), ("1e-1000", "3e-1000"), ("1e-20", "1e-19"), ("1e9", "1e10"), ("1e1000", "3e1000"), ("1e4900", "2e4900")] if q else R("2^-16382", "1e-4000", "1e-2000", "1e-500", "1e-100", "1e-20", "1e-3", "0.5", "2", "100", "1e10", "1e100", "1e500", "1e2000", "1.1e4932")}
    for t in T:
        es.append(E("sqrt", t, "sqrt", wide[t], rel("5e-6", "1e-14", "1e-16")))
        es.append(E("inv_sqrt", t, "inv_sqrt", wide[t], rel("5e-6", "1e-14", "1e-16")))
        if t == "d":
            for f in ("sqrt", "inv_sqrt"): es.append(E(f, t, f, R("1e100", "1e150", "1e200", "1e250", "1.79e308"), rel("", "3e-14", "")))
        big = {"f": "1e18", "d": "1e150", "l": "1e20"}[t]; sm = {"f": "1e-15", "d": "1e-100", "l": "1e-20"}[t]
        for y in ("1", "-3") if q else ("1", "-3", "0.01", "1000", "1e-12", "1e12"):
            es.append(E("hypot", t + t, "hypot", [(sm, "0.1"), ("0.1", "10"), ("10", big), ("-10", "-0.1"), ("0", "0")], rel("5e-6", "1e-14", "1e-16"), args=["x", y], rp=[(1,)]))
            es.append(E("hypot", t + t, "hypot", [(sm, "0.1"), ("0.1", "10"), ("10", big)], rel("5e-6", "1e-14", "1e-16"), args=[y, "x"], rp=[(0,)]))
        es.append(E("hypot", t + t, "hypot", [({"f": "1e30", "d": "1e300", "l": "1e2000"}[t], {"f": "1e38", "d": "1e308", "l": "1e2010"}[t])], rel("5e-6", "1e-14", "1e-16"), args=["x", {"f": "1e37", "d": "1e307", "l": "1e2009"}[t]], rp=[(1,)]))
    accuracy(c, es, tlimit=40 if q else 400)
PI = fr("3.14159265358979323846264338327950288419716939937510")
def between(k0, k1, step, gap):
    """the intervals between consecutive multiples of step, without gap around each multiple"""
    return [("%.12f" % float(k * step + gap), "%.12f" % float((k + 1) * step - gap)) for k in range(k0, k1)]
def c16(c):
    es = []; q = c.tier == "quick"
    for t in T:
        gap = fr({"f": "1e-4", "d": "1e-6", "l": "1e-7"}[t])
        n = 40 if q else 1000
        small = SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "%.12f" % float(PI / 2 - gap))])
        def band(st): # between multiples of st from about 0.5 on
            d = between(1, int(n * PI / st) // 1, st, gap) if st == PI / 2 else between(1, n, st, gap)
            far = [w for k in (100, 255, 600, 1000, 1999) for w in between(k, k + 2, st, gap)] + ([] if t == "f" else between(30000, 30001, st, gap * 10))
            return SYM(d + far, False)
        tt = ab("2e-5", "2e-14", "2e-16")
        mid = [("%.12f" % float(PI / 2 - gap), "%.12f" % float(PI - gap)), ("%.12f" % float(gap - PI), "%.12f" % float(gap - PI / 2))]
        for f in ("sin", "cos"): es.append(E(f, t, f, small + mid + band(PI), tt, kind=1))
        es.append(E("tan", t, "tan", small + band(PI / 2), tt, kind=2))
    c.bounds.append("|x| <= 40 pi (thorough 1000 pi) and windows up to 30000 pi; excluded: 1e-4 (float), 1e-6 (double), 1e-7 (long double) around the multiples of pi (sin, cos: half-angle pole) and of pi/2 (tan: pole, where the library documents a conventional value)")
    accuracy(c, es, tlimit=40 if q else 100)
def c17(c):
    es = []; q = c.tier == "quick"
    for t in T:
        near = {"f": ["0.999", "0.9999"], "d": ["0.999", "0.99999"], "l": ["0.999", "0.99999"]}[t]
        dom = SYM([({"f": "2^-126", "d": "2^-1022", "l": "1e-60"}[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "0.9"), ("0.9", near[0])])
        for f in ("asin", "acos"):
            es.append(E(f, t, f, dom, ab("5e-6", "1e-14", "5e-16")))
            es.append(E(f, t, f, SYM([(near[0], near[1])], False), ab("1e-4", "1e-12", "1e-15")))
        es.append(E("atan", t, "atan", SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "2"), ("2", "100"), ("100", "1e10"), ("1e10", {"f": "1e38", "d": "1e308", "l": "1e300"}[t])]), ab("2e-6", "5e-15", "5e-17")))
    accuracy(c, es, tlimit=40 if q else 400)
def c18(c):
    es = []; q = c.tier == "quick"
    for t in T:
        big = {"f": "1e30", "d": "1e100", "l": "1e30"}[t]; sm = {"f": "1e-30", "d": "1e-100", "l": "1e-30"}[t]
        dom = SYM([(sm, "0.01"), ("0.01", "0.5"), ("0.5", "2"), ("2", "100"), ("100", big)])
        for v in ("1", "-1", "0.3", "-2.5", "1e-5", "-1e-5", "1e5", "-1e5", "7", "-0.01"):
            tl = ab("4e-6", "1e-14", "1e-16")
            es.append(E("atan2", t + t, "atan2y", dom, tl, args=["x", v], rp=[(1,)]))
            es.append(E("atan2", t + t, "atan2x", [d for d in dom if d != ("0", "0")], tl, args=[v, "x"], rp=[(0,)]))
    c.bounds.append("one argument symbolic over +-[1e-100,1e100] (double; float and long double 1e-30..1e30), the other at the stated values, in all four quadrants; the quadrant rules hold for all pairs")
    if hasattr(c, "build"):
        from generic import run_regions, atan2_axes
        run_regions(c, [r for t in T for r in atan2_axes(t)])
    accuracy(c, es, tlimit=40 if q else 400)
def c19(c):
    es = []; q = c.tier == "quick"
    for t in T:
        dom = SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "2"), ("2", "10"), ("10", "24")])
        top = {"f": ["88"], "d": ["200", "700"], "l": ["200"]}[t]
        far = SYM(R("24", *top), False)
        for f in ("sinh", "cosh"): es.append(E(f, t, f, dom + far, mix("1e-5", "1e-14", "1e-16")))
        es.append(E("tanh", t, "tanh", dom + SYM([("24", "26"), ("26", {"f": "1e38", "d": "1e308", "l": "1e4000"}[t])], False), ab("1e-5", "1e-14", "1e-16"), maxratio=1e12))
    accuracy(c, es, tlimit=40 if q else 400)
def c20(c):
    es = []; q = c.tier == "quick"
    for t in T:
        big = {"f": ["1e6", "1e18", "1e38"], "d": ["1e6", "1e20"], "l": ["1e4"]}[t] if q else {"f": ["1e6", "1e18", "1e38"], "d": ["1e6", "1e20", "1e60", "1e100", "1e150", "1e200", "1e250", "1e300"], "l": ["1e4", "1e8", "1e12", "1e16", "1e20"]}[t]
        win = ({"f": [], "d": [("1e76", "1e77"), ("1e153", "1e155"), ("1e290", "1e291")], "l": [("1e9", "3e9"), ("1e40", "2e40")]} if q else {"f": [], "d": [], "l": [("1e40", "1e41"), ("1e400", "1e401")]})[t]
        m = mix("2e-5", "1e-13", "1e-15")
        es.append(E("asinh", t, "asinh", SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "2"), ("2", "100")] + R("100", *big) + win), m))
        es.append(E("acosh", t, "acosh", R("1.01", "2", "100", *big) + win, m))
        es.append(E("atanh", t, "atanh", SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "0.9"), ("0.9", "0.999")]), m))
    c.bounds.append("asinh |x| <= 1e38 float, 1e20 double (thorough 1e300), 1e4 long double (thorough 1e20), plus windows beyond; acosh from 1.01; atanh |x| <= 0.999")
    accuracy(c, es, tlimit=40 if q else 400)
def c21(c):
    es = []; q = c.tier == "quick"
    for t in T:
        u = {"f": 1e-5, "d": 1e-14, "l": 1e-16}[t]
        for y in ("0.5", "-0.5", "-1.5", "1.5", "2.7", "0.001", "-0.001", "10.25", "-7.3", "1", "2"):
            k = u * (1 + abs(float(y))) * 6
            mid = R("0.01", "0.5", "2", "100")
            wide = mid + ([] if t == "f" and abs(float(y)) > 5 else [("1e-5", "0.01"), ("100", "1e5")] + ([] if q else [("1e-9", "1e-5"), ("1e5", "1e9")])) if not (q and t == "l") else mid
            es.append(E("pow", t + t, "powx", wide, ("0", "%.3g" % (k * 2 if q else k * 4)), args=["x", y], rp=[(1,)]))
        for b in ("2", "0.3", "10", "1.001", "0.999", "1000", "0.001"):
            es.append(E("pow", t + t, "powy", SYM([("0.001", "0.1"), ("0.1", "1"), ("1", "8")]) + ([] if q else SYM(R("8", "12"), False)), ("0", "%.3g" % (u * 60)), args=[b, "x"], rp=[(0,)]))
    accuracy(c, es, tlimit=40 if q else 400)
def c22(c):
    es = []; q = c.tier == "quick"
    for t in T:
        es.append(E("lgamma", t, "lgamma", [("2^-10", "0.1"), ("0.1", "1"), ("1", "3"), ("3", "20"), ("20", "1e3"), ("1e3", "1e6")] + ([] if q else [("2^-60", "2^-10"), ("1e6", {"f": "1e30", "d": "1e100", "l": "1e20"}[t])]), mix("2e-4", "2e-12", "1e-12")))
        es.append(E("tgamma", t, "tgamma", [("0.01", "0.1"), ("0.1", "1"), ("1", "5"), ("5", "20"), ("20", {"f": "34", "d": "100", "l": "100"}[t])], rel("1e-3", "1e-11", "1e-11")))
        neg_ = [("-0.99", "-0.01"), ("-1.99", "-1.01"), ("-2.99", "-2.01")] + ([] if q else [("-%d.99" % k, "-%d.01" % k) for k in range(3, 15)])
        es.append(E("tgamma", t, "tgamma", neg_, rel("2e-3", "1e-11", "1e-11")))
    accuracy(c, es, tlimit=40 if q else 400)
def c23(c):
    es = []; q = c.tier == "quick"
    for t in T:
        m = mix("5e-4", "1e-11", "1e-11")
        dom = [("0.05", "0.5"), ("0.5", "2"), ("2", "20"), ("20", "200")]
        for b in ("0.5", "1", "3", "17.5") if not q else ("0.5", "3") if t != "l" else ("3",):
            es.append(E("lbeta", t + t, "lbeta", dom, m, args=["x", b], rp=[(1,)]))
            es.append(E("lbeta", t + t, "lbeta", dom, m, args=[b, "x"], rp=[(0,)]))
            es.append(E("beta", t + t, "beta", dom[:3], rel("5e-3", "1e-10", "1e-10"), args=["x", b], rp=[(1,)]))
            es.append(E("beta", t + t, "beta", dom[1:3], rel("5e-3", "1e-10", "1e-10"), args=[b, "x"], rp=[(0,)]))
        for n in (1, 2, 3) if q and t == "l" else (1, 2, 3, 5):
            lo = "%g" % ((n - 1) / 2 + 0.05)
            es.append(E("lmgamma", t + "i", "lmgamma", [(lo, "%g" % (n / 2 + 1)), ("%g" % (n / 2 + 1), "20"), ("20", "60" if q else "500")], m, args=["x", str(n)], rp=[(1,)]))
        for k in ("0", "1", "2.5", "7"):
            es.append(E("log_binomial_coef", t + t, "lbinn", [("%g" % (float(k) + 0.01), "%g" % (float(k) + 3)), ("%g" % (float(k) + 3), "40"), ("40", "100" if q else "500")], m, args=["x", k], rp=[(1,)]))
        for n in ("8", "30"):
            es.append(E("log_binomial_coef", t + t, "lbink", [("0.01" if q and t == "l" else "0", "1"), ("1", "%g" % (float(n) - 1)), ("%g" % (float(n) - 1), n)], m, args=[n, "x"], rp=[(0,)]))
    accuracy(c, es, tlimit=40 if q else 400)
def c24(c):
    es = []; q = c.tier == "quick"
    for t in T:
        es.append(E("erf", t, "erf", SYM([(MINN[t], "2^-20"), ("2^-20", "0.5"), ("0.5", "1")]), ab("1e-5", "1e-13", "1e-16")))
        es.append(E("erf", t, "erf", SYM([("1", "1.5")], False), ab("1e-4", "1e-12", "1e-15")))
        es.append(E("erf", t, "erf", SYM([("1.5", "2.11")], False), ab("5e-3", "2e-11", "1e-14")))
        far = {"f": R("2.11", "3", "6", "1e3", "1e38"), "d": R("2.11", "3", "6", "1e3", "1e308"), "l": R("2.11", "3", "6", "12") if q else R("2.11", "3", "6", "12", "30", "100")}[t]
        es.append(E("erf", t, "erf", SYM(far, False), ab("1e-5", "1e-13", "1e-16"), maxratio=1e12))
    c.bounds.append("every |x| for float and double; long double |x| <= 12 (thorough 100)")
    accuracy(c, es, tlimit=40 if q else 400)
def c25(c):
    es = []; q = c.tier == "quick"
    for t in T:
        o = dict(kn=8, coll=1)
        tiny = {"f": "2^-126", "d": "2^-1022", "l": "2^-60"}[t]
        es.append(E("erf_inv", t, "erf_inv", SYM([(tiny, "2^-20"), ("2^-20", "0.1"), ("0.1", "0.5"), ("0.5", "0.8")]), ab("6e-3", "1e-11", "1e-12"), **o))
        if t != "f": es.append(E("erf_inv", t, "erf_inv", SYM([("0.8", "0.9"), ("0.9", "0.9544"), ("0.9971", "0.998")] + ([("0.9546", "0.9856")] if t == "d" or not q else []) + ([] if q else [("0.9858", "0.992"), ("0.9986", "0.9994"), ("0.9997", "0.9999")]), False), ab("", "1e-8", "1e-10"), **o))
    c.bounds.append("|p| <= 0.8 float (rounding amplification makes the float bound meaningless beyond), 0.998 double and long double, without windows of +-1.5e-4 around erf(sqrt 2), erf(sqrt 3), erf(2), erf(2.1), where every Halley step has an undecidable branch")
    accuracy(c, es, tlimit=40 if q else 400)
def c26(c):
    es = []; q = c.tier == "quick"
    for t in T:
        near, far, up = ab("1e-3", "1e-12", "1e-14"), ab("2e-2", "1e-10", "2e-13"), ab("1e-4", "1e-12", "1e-14")
        for a in (0.05, 0.5, 1, 2, 3.5, 6, 9.9) if not q or t != "l" else (0.5, 3.5, 9.9):
            S = lambda lo, hi: ("%g" % lo, "%g" % hi)
            z = a + 10
            A = "%g" % a
            es.append(E("incomplete_gamma", t + t, "gammp", [("0", "0"), ("1e-3", "0.1"), ("0.1", "1"), S(1, a + 2), S(a + 2, a + 5)], near, args=[A, "x"], rp=[(0,)]))
            es.append(E("incomplete_gamma", t + t, "gammp", [S(a + 5, z - (1.5 if t == "f" and a < 0.1 else 0.01))], far, args=[A, "x"], rp=[(0,)]))
            es.append(E("incomplete_gamma", t + t, "gammp", [S(z + 0.01, z + 10), S(z + 10, z + 30)], up, args=[A, "x"], rp=[(0,)]))
        if t == "l" and q: rows = (12, 95)
        else: rows = (10.5, 20, 29, 35, 45, 60, 80, 95, 150, 400, 600, 900, 2000)
        for a in rows:
            r = a ** .5; A = "%g" % a; w = 0.1 if t == "d" and q else 0.05 if q else 1.0
            dom = [("%g" % (a - k * r), "%g" % (a - k * r + w)) for k in ((1,) if q else (0.2, 1, 2, 3))] + [("%g" % (a + k * r), "%g" % (a + k * r + w)) for k in ((1,) if q else (0.5, 1, 2, 4, 6))]
            if 12 * r < 2 * a - 0.5: dom.append(("%g" % (a + 12 * r), "%g" % (3 * a - 0.1)))
            else: dom.append(("%g" % (3 * a - w - 0.05), "%g" % (3 * a - 0.05)))
            es.append(E("incomplete_gamma", t + t, "gammp", dom, {"f": ("%g" % (5e-5 * a), "0"), "d": ("%g" % (1e-12 * a), "0"), "l": ("5e-13", "0")}[t], args=[A, "x"], rp=[(0,)]))
            es.append(E("incomplete_gamma", t + t, "gammp", [("%g" % (3 * a + 0.1), "%g" % (3 * a + 20))], up, args=[A, "x"], rp=[(0,)]))
    c.bounds.append("shape a < 10: every x up to a+40 at 7 shapes; a >= 10 (quadrature): windows of x on both sides of a at 13 shapes, one for every row of the integration-limit tables, every x from a+12 sqrt(a) to 3a, and 3a..3a+20")
    accuracy(c, es, tlimit=40 if q else 600)
def c28(c):
    es = []; q = c.tier == "quick"
    prs = [("0.5", "0.5"), ("1", "1"), ("1", "3"), ("2", "5"), ("5", "2"), ("3.3", "0.7"), ("10", "10"), ("0.2", "8")] + ([] if q else [("30", "5"), ("5", "30"), ("50", "50"), ("0.05", "0.05"), ("100", "2"), ("0.9", "40")])
    for t in T:
        for a, b in (prs if t != "l" or not q else prs[3:6]):
            m = (float(a) + 1) / (float(a) + float(b) + 2)
            g = 1e-4
            dom = [("0", "0"), ("1", "1"), ("1e-6", "0.01"), ("0.01", "%.6g" % (m / 2)), ("%.6g" % (m / 2), "%.6g" % (m - g)), ("%.6g" % (m + g), "%.6g" % ((1 + m) / 2)), ("%.6g" % ((1 + m) / 2), "0.99"), ("0.99", "0.9999")]
            dom = [d for d in dom if float(d[0]) <= float(d[1])]
            if t == "f" and (a, b) in (("0.5", "0.5"), ("3.3", "0.7"), ("0.2", "8"), ("0.9", "40"), ("0.05", "0.05")): continue
            es.append(E("incomplete_beta", t + t + t, "betai", dom, ab("1e-4", "1e-13", "1e-15"), args=[a, b, "x"], rp=[(0,), (1,)], kn=8))
    c.bounds.append("14 shape pairs (quick 8; float: without the fractional ones, whose convergence test cannot be decided), all x from 1e-6 to 0.9999 except 1e-4 around the switch point (a+1)/(a+b+2), and x = 0, 1")
    accuracy(c, es, tlimit=10 if q else 600)
def windows(ps, w): return [("%.6g" % p, "%.6g" % (p + w)) for p in ps]
def c27(c):
    es = []; q = c.tier == "quick"
    for t in T:
        w = {"f": 0.002, "d": 0.01, "l": 0.002}[t] if q else 0.02
        for a in ("0.5", "1", "2", "3.5", "6", "9"):
            ps = (0.08, 0.13, 0.25, 0.37, 0.44, 0.55, 0.7, 0.84) + ((0.9, 0.95) if not q else ())
            if t == "f": ps = ps[:7]
            es.append(E("incomplete_gamma_inv", t + t, "gammpinv", windows(ps, w), mix("1e-2", "1e-9", "1e-11"), args=[a, "x"], rp=[(0,)], kn=8, coll=1))
    c.bounds.append("shapes 0.5, 1, 2, 3.5, 6, 9; windows of p at 0.08 .. 0.84 (thorough 0.95), width 0.01 double, 0.002 float and long double (thorough 0.02); float p <= 0.71")
    accuracy(c, es, tlimit=8 if q else 600)
def c29(c):
    es = []; q = c.tier == "quick"
    prs = [("0.5", "0.5"), ("0.9", "0.9"), ("1", "1"), ("1", "3"), ("2", "5"), ("5", "2"), ("3.3", "1.7"), ("10", "10"), ("0.2", "8"), ("4", "0.6")]
    for t in T:
        w = {"f": 0.002, "d": 0.01, "l": 0.002}[t] if q else 0.02
        for a, b in (prs if t == "d" else prs[3:6] if t == "l" and q else [p for p in prs if float(p[0]) >= 1 and float(p[0]) == int(float(p[0])) and float(p[1]) >= 1] if t == "f" else prs):
            ps = (0.17, 0.3, 0.37, 0.44, 0.55, 0.7, 0.85) + ((0.08, 0.25, 0.93) if (a, b) != ("0.2", "8") or not q else ())
            es.append(E("incomplete_beta_inv", t + t + t, "betaiinv", windows(ps, w), ab("1e-3", "1e-9", "1e-11"), args=[a, b, "x"], rp=[(0,), (1,)], kn=8, coll=1))
    c.bounds.append("10 shape pairs (float: the integral ones, 5), windows of p at 0.08 .. 0.93, width 0.01 double, 0.002 float and long double (thorough 0.02)")
    accuracy(c, es, tlimit=8 if q else 600)
CH = {k.upper(): v for k, v in globals().items() if k[0] == "c" and k[1:].isdigit()}
