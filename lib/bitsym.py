"""Engine B: bit-precise symbolic execution of the LLVM IR produced from /repo.

Every IR value is a hash-consed term over bit-vectors, booleans and IEEE floats (binary32,
binary64, x87 extended as Float(15,64)).  Branches on symbolic conditions fork and are merged at
the function's return.  Calls to recursive or large functions can be kept lazy (an uninterpreted
application of a pure function, expanded on demand)."""
import sys, os, subprocess, time, itertools, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
import sf
from irgen import Const, Reg, Glob, Unsupported, FPT
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)

class T:
    __slots__ = ("op", "sort", "args", "val", "id", "__weakref__")

_tab = {}
_cnt = itertools.count()

def mk(op, sort, args=(), val=None):
    k = (op, sort, tuple(a.id for a in args), val)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op, t.sort, t.args, t.val, t.id = op, sort, tuple(args), val, next(_cnt)
        t = _tab.setdefault(k, t)      # atomic: several threads build terms
    return t

def reset():
    _tab.clear()


def boolc(b): return mk("const", "bool", (), bool(b))
TRUE, FALSE = boolc(True), boolc(False)
def intc(ty, v): return mk("const", ty, (), v & ((1 << int(ty[1:])) - 1))
def fpc(ty, b):
    if sf.is_nan(ty, b): b = sf.nan(ty)
    return mk("const", ty, (), b)
def var(name, sort): return mk("var", sort, (), name)
def isc(t): return t.op == "const"
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

# ---- booleans
def Not(a):
    if isc(a): return boolc(not a.val)
    if a.op == "not": return a.args[0]
    return mk("not", "bool", (a,))
def And(a, b):
    if isc(a): return b if a.val else a
    if isc(b): return a if b.val else b
    if a is b: return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a): return boolc(False)
    if b.id < a.id: a, b = b, a
    return mk("and", "bool", (a, b))
def Or(a, b): return Not(And(Not(a), Not(b)))
def Ands(l):
    r = boolc(True)
    for x in l: r = And(r, x)
    return r
def Iff(a, b):
    if isc(a): return b if a.val else Not(b)
    if isc(b): return a if b.val else Not(a)
    if a is b: return boolc(True)
    if b.id < a.id: a, b = b, a
    return mk("iff", "bool", (a, b))
def Ite(c, a, b):
    if isc(c): return a if c.val else b
    if a is b: return a
    if c.op == "not": return Ite(c.args[0], b, a)
    if a.sort == "bool":
        if isc(a): return Or(c, b) if a.val else And(Not(c), b)
        if isc(b): return Or(Not(c), a) if b.val else And(c, a)
    if a.op == "ite" and a.args[0] is c: return Ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c: return Ite(c, a, b.args[2])
    if c.op == "ieq" and isc(c.args[1]) and isc(a) and a.val == 0 and c.args[1].val == 0 and b.op in ("zext", "sext") and b.args[0] is c.args[0]: return b
    if c.op == "ieq" and isc(c.args[1]) and isc(a) and b is c.args[0] and a.val == c.args[1].val and a.sort == b.sort: return b
    if a.op == b.op and a.op in ("zext", "sext") and a.args[0].sort == b.args[0].sort: return Iext(a.op, Ite(c, a.args[0], b.args[0]), a.sort)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == "zext" and isc(y) and y.val < 1 << int(x.args[0].sort[1:]):
            y = intc(x.args[0].sort, y.val)
            return Iext("zext", Ite(c, y, x.args[0]) if sw else Ite(c, x.args[0], y), a.sort)
    return mk("ite", a.sort, (c, a, b))

# ---- floats
def Fneg(a):
    if isc(a): return fpc(a.sort, sf.neg(a.sort, a.val))
    if a.op == "fneg": return a.args[0]
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])): return Ite(a.args[0], Fneg(a.args[1]), Fneg(a.args[2]))
    return mk("fneg", a.sort, (a,))
def isnanc(a): return isc(a) and sf.is_nan(a.sort, a.val)
def strip(a): return (a.args[0], 1) if a.op == "fneg" else (a, 0)
def Fadd(a, b):
    s = a.sort
    if isnanc(a) or isnanc(b): return fpc(s, sf.nan(s))
    if isc(a) and isc(b): return fpc(s, sf.add(s, a.val, b.val))
    for p, q in ((a, b), (b, a)):
        if isc(p) and sf.is_inf(s, p.val): return Ite(Or(Fisnan(q), Feq(q, Fneg(p))), fpc(s, sf.nan(s)), p)
    if strip(b)[0].id < strip(a)[0].id: a, b = b, a
    return mk("fadd", s, (a, b))
def Fsub(a, b): return Fadd(a, Fneg(b))
def _signed(q, neg, val, bad):
    """val with q's sign (flipped by neg), NaN where bad"""
    s = q.sort; v = fpc(s, val); n = Fneg(v)
    if neg: v, n = n, v
    return Ite(bad, fpc(s, sf.nan(s)), Ite(Signbit(q), n, v))
def _isinf(q):
    s = q.sort; return Or(Feq(q, fpc(s, sf.inf(s))), Feq(q, fpc(s, sf.inf(s, 1))))
def Fmul(a, b):
    s = a.sort
    if isnanc(a) or isnanc(b): return fpc(s, sf.nan(s))
    if isc(a) and isc(b): return fpc(s, sf.mul(s, a.val, b.val))
    for p, q in ((a, b), (b, a)):
        if isc(p) and sf.is_inf(s, p.val): return _signed(q, sf.sign(s, p.val), sf.inf(s), Or(Fisnan(q), Feq(q, fpc(s, 0))))
        if isc(p) and sf.is_zero(s, p.val): return _signed(q, sf.sign(s, p.val), 0, Or(Fisnan(q), _isinf(q)))
    for p, q in ((a, b), (b, a)):
        if isc(p) and sf.key(s, p.val) == sf.key(s, sf.from_int(s, 1)): return q
        if isc(p) and sf.sign(s, p.val) and not sf.is_zero(s, p.val): return Fneg(Fmul(fpc(s, sf.neg(s, p.val)), q))
        # product with a small selector (sgn): distribute over ite of constants
        if p.op == "ite" and isc(p.args[1]) and (isc(p.args[2]) or p.args[2].op == "ite"):
            return Ite(p.args[0], Fmul(p.args[1], q), Fmul(p.args[2], q))
    (a, m), (b, n) = strip(a), strip(b)
    if b.id < a.id: a, b = b, a
    r = mk("fmul", s, (a, b))
    return Fneg(r) if m ^ n else r
def Fdiv(a, b):
    s = a.sort
    if isnanc(a) or isnanc(b): return fpc(s, sf.nan(s))
    if isc(a) and isc(b): return fpc(s, sf.div(s, a.val, b.val))
    if isc(a) and sf.is_inf(s, a.val): return _signed(b, sf.sign(s, a.val), sf.inf(s), Or(Fisnan(b), _isinf(b)))
    if isc(a) and sf.is_zero(s, a.val): return _signed(b, sf.sign(s, a.val), 0, Or(Fisnan(b), Feq(b, fpc(s, 0))))
    if isc(b) and sf.is_inf(s, b.val): return _signed(a, sf.sign(s, b.val), 0, Or(Fisnan(a), _isinf(a)))
    if isc(b) and sf.is_zero(s, b.val): return _signed(a, sf.sign(s, b.val), sf.inf(s), Or(Fisnan(a), Feq(a, fpc(s, 0))))
    (a, m), (b, n) = strip(a), strip(b)
    if isc(a) and sf.sign(s, a.val): a = fpc(s, sf.neg(s, a.val)); m ^= 1
    if isc(b) and sf.sign(s, b.val): b = fpc(s, sf.neg(s, b.val)); n ^= 1
    if isc(b) and sf.key(s, b.val) == sf.key(s, sf.from_int(s, 1)): r = a
    else: r = mk("fdiv", s, (a, b))
    return Fneg(r) if m ^ n else r
def _cmpnorm(a, b):
    # push negation to constants / cancel
    if a.op == "fneg" and b.op == "fneg": return b.args[0], a.args[0]
    if a.op == "fneg" and isc(b): return Fneg(b), a.args[0]
    if b.op == "fneg" and isc(a): return b.args[0], Fneg(a)
    return a, b
def exact_i2f(t):
    """(integer term, signed) when t converts an integer that its format holds exactly"""
    if t.op in ("s2f", "u2f") and int(t.args[0].sort[1:]) <= sf.FMT[t.sort][1]: return t.args[0], t.op == "s2f"
    return None
def icmp_const(n, sg, v, pred):
    """n pred v for an integer term and a rational v (pred: lt, le, gt, ge, eq), by the range of n's type"""
    w = int(n.sort[1:]); lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    fl = v.numerator // v.denominator; ce = -((-v.numerator) // v.denominator)
    if pred == "eq":
        if fl != ce or not lo <= fl <= hi: return boolc(False)
        return Icmp("eq", n, intc(n.sort, fl))
    if pred == "lt": k = ce          # n < v  <=>  n < ceil(v)
    elif pred == "le": k = fl + 1    # n <= v <=>  n < floor(v) + 1
    elif pred == "ge": return Not(icmp_const(n, sg, v, "lt"))
    else: return Not(icmp_const(n, sg, v, "le"))
    if k <= lo: return boolc(False)
    if k > hi: return boolc(True)
    return Icmp("slt" if sg else "ult", n, intc(n.sort, k))
def icmpf(a, b, pred):
    """comparison of exactly converted integers (possibly negated) with constants or with each other, else None"""
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isc(y):
            xx, m = strip(x); e = exact_i2f(xx)
            if e is None: return None
            s = y.sort
            p = {"lt": "gt", "le": "ge"}.get(pred, pred) if sw else pred
            if sf.is_inf(s, y.val):
                neg = sf.sign(s, y.val)
                return boolc(False) if p == "eq" else boolc((p in ("lt", "le")) != bool(neg))
            v = sf.to_frac(s, y.val)
            if m: v = -v; p = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(p, p)
            return icmp_const(e[0], e[1], v, p)
    ea, eb = exact_i2f(a), exact_i2f(b)
    if ea and eb:
        w = max(int(ea[0].sort[1:]), int(eb[0].sort[1:])) + 1; d = "i%d" % w
        x, y = (Iext("sext" if sg else "zext", n, d) for n, sg in (ea, eb))
        return Icmp("eq", x, y) if pred == "eq" else (Icmp("slt", x, y) if pred == "lt" else Not(Icmp("slt", y, x)))
    return None
def Flt(a, b):
    s = a.sort
    if isnanc(a) or isnanc(b): return boolc(False)
    if isc(a) and isc(b): return boolc(sf.lt(s, a.val, b.val))
    a, b = _cmpnorm(a, b)
    if a is b: return boolc(False)
    if isc(b) and b.val == sf.inf(s, 1): return boolc(False)
    if isc(a) and a.val == sf.inf(s, 0): return boolc(False)
    r = cmplift(Flt, a, b)
    if r is None: r = icmpf(a, b, "lt")
    return r if r is not None else mk("flt", "bool", (a, b))
def Fle(a, b):
    s = a.sort
    if isnanc(a) or isnanc(b): return boolc(False)
    if isc(a) and isc(b): return boolc(not sf.lt(s, b.val, a.val))
    a, b = _cmpnorm(a, b)
    r = cmplift(Fle, a, b)
    if r is None: r = icmpf(a, b, "le")
    return r if r is not None else mk("fle", "bool", (a, b))
def Feq(a, b):
    s = a.sort
    if isnanc(a) or isnanc(b): return boolc(False)
    if isc(a) and isc(b): return boolc(sf.eq(s, a.val, b.val))
    a, b = _cmpnorm(a, b)
    if b.id < a.id: a, b = b, a
    r = cmplift(Feq, a, b)
    if r is None: r = icmpf(a, b, "eq")
    return r if r is not None else mk("feq", "bool", (a, b))
def cmplift(f, a, b):
    # comparisons of small selectors with constants become boolean structure
    if isc(b) and a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if isc(a) and b.op == "ite" and (isc(b.args[1]) or isc(b.args[2])):
        return Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None
def Fisnan(a): return Not(Feq(a, a)) if not isc(a) else boolc(isnanc(a))
def Fcast(a, dst):
    if a.sort == dst: return a
    if isc(a): return fpc(dst, sf.cast(a.sort, dst, a.val))
    if a.op == "fneg": return Fneg(Fcast(a.args[0], dst))
    if a.op == "fcast" and sf.FMT[a.sort][1] > sf.FMT[a.args[0].sort][1] and a.args[0].sort == dst: return a.args[0]
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], Fcast(a.args[1], dst), Fcast(a.args[2], dst))
    return mk("fcast", dst, (a,))
def I2F(a, dst, signed):
    if isc(a):
        w = int(a.sort[1:]); return fpc(dst, sf.from_int(dst, sgn(a.val, w) if signed else a.val))
    if a.op == "ite": 
        if isc(a.args[1]) or isc(a.args[2]): return Ite(a.args[0], I2F(a.args[1], dst, signed), I2F(a.args[2], dst, signed))
    if a.op in ("sext", "zext"):
        if a.op == "sext" and signed: return I2F(a.args[0], dst, True)
        if a.op == "zext": return I2F(a.args[0], dst, False)
    return mk("s2f" if signed else "u2f", dst, (a,))
def F2I(a, dst, signed):
    w = int(dst[1:])
    if isc(a):
        if sf.is_nan(a.sort, a.val) or sf.is_inf(a.sort, a.val): return mk("undef", dst, (), "f2i")
        v = sf.trunc_int(a.sort, a.val)
        if signed and not -(1 << (w - 1)) <= v < (1 << (w - 1)): return mk("undef", dst, (), "f2i")
        if not signed and not 0 <= v < (1 << w): return mk("undef", dst, (), "f2i")
        return intc(dst, v)
    e = exact_i2f(a)
    if e and (e[1] == signed and int(e[0].sort[1:]) <= w or not e[1] and int(e[0].sort[1:]) < w): return Iext("sext" if e[1] else "zext", e[0], dst)
    if e and e[1] and not signed and int(e[0].sort[1:]) <= w:    # negative values are undefined
        return Ite(Icmp("slt", e[0], intc(e[0].sort, 0)), mk("undef", dst, (), "f2i"), Iext("sext", e[0], dst))
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2]) or exact_i2f(strip(a.args[1])[0]) or exact_i2f(strip(a.args[2])[0])): return Ite(a.args[0], F2I(a.args[1], dst, signed), F2I(a.args[2], dst, signed))
    return mk("f2s" if signed else "f2u", dst, (a,))
def Rti(a, mode):
    """round to integral (SMT fp.roundToIntegral)"""
    if not isc(a): return mk("rti", a.sort, (a,), mode)
    s = a.sort
    if sf.is_nan(s, a.val) or sf.is_inf(s, a.val) or sf.is_zero(s, a.val): return a
    v = sf.to_frac(s, a.val); n, d = v.numerator, v.denominator
    fl = n // d
    if mode == "RTN": r = fl
    elif mode == "RTP": r = -((-n) // d)
    elif mode == "RTZ": r = fl if n >= 0 else -((-n) // d)
    elif mode == "RNA": r = (2 * abs(n) + d) // (2 * d) * (1 if n >= 0 else -1)
    else: raise Unsupported("rti mode")
    return fpc(s, sf.from_frac(s, sf.Fraction(r), sf.sign(s, a.val)))
def Signbit(a):
    if isc(a): return boolc(sf.sign(a.sort, a.val))
    return mk("fsign", "bool", (a,))

# ---- ints
def b2i(b, ty):
    return Ite(b, intc(ty, 1), intc(ty, 0))
def narrow(t):
    """the narrow term when t is a zero extension (or a non-negative constant that fits 16 bits)"""
    if t.op == "zext" and t.args[0].sort != "bool": return t.args[0]
    if isc(t) and t.val and t.val < 256: return intc("i8", t.val) if t.val < 256 else None
    return None
def Ibin(op, a, b):
    s = a.sort; w = int(s[1:]); M = (1 << w) - 1
    if a.op == "undef" or b.op == "undef": return mk("undef", s, (), "prop")
    if isc(a) and isc(b):
        x, y = a.val, b.val; sx, sy = sgn(x, w), sgn(y, w)
        if op == "add": r = x + y
        elif op == "sub": r = x - y
        elif op == "mul": r = x * y
        elif op == "and": r = x & y
        elif op == "or": r = x | y
        elif op == "xor": r = x ^ y
        elif op == "shl": r = x << y if y < w else 0
        elif op == "lshr": r = x >> y if y < w else 0
        elif op == "ashr": r = sx >> min(y, w - 1)
        elif op in ("sdiv", "srem", "udiv", "urem"):
            if y == 0: return mk("undef", s, (), "div0")
            if op == "udiv": r = x // y
            elif op == "urem": r = x % y
            else:
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0): q = -q
                r = q if op == "sdiv" else sx - q * sy
        return intc(s, r)
    if op == "sub" and isc(b): return Ibin("add", a, intc(s, -b.val))
    if op == "sub" and a is b: return intc(s, 0)
    if op == "add":
        if isc(a): a, b = b, a
        if isc(b):
            if b.val == 0: return a
            if a.op == "add" and isc(a.args[1]): return Ibin("add", a.args[0], intc(s, a.args[1].val + b.val))
    if op == "mul":
        if isc(a): a, b = b, a
        if isc(b):
            if b.val == 1: return a
            if b.val == 0: return b
    if op in ("sdiv", "udiv") and isc(b) and b.val == 1: return a
    if op == "sub" and isc(a) and a.val == 0 and b.op == "sub" and isc(b.args[0]) and b.args[0].val == 0: return b.args[1]
    if op in ("srem", "urem", "sdiv", "udiv"):
        pa, pb = narrow(a), narrow(b)
        if pa is not None and pb is not None:
            w2 = max(int(pa.sort[1:]), int(pb.sort[1:]))
            if w2 < w: return Iext("zext", Ibin("urem" if op[1:] == "rem" else "udiv", Iext("zext", pa, "i%d" % w2), Iext("zext", pb, "i%d" % w2)), s)
    if op in ("srem", "urem"):
        for ext in (("sext",) if op == "srem" else ("zext",)):
            if a.op == ext and b.op == ext and a.args[0].sort == b.args[0].sort: return Iext(ext, Ibin(op, a.args[0], b.args[0]), s)
    if op in ("and", "or", "mul", "add", "xor") and not isc(b) and b.id < a.id: a, b = b, a
    if op == "and" and isc(a): a, b = b, a
    if op in ("add", "sub", "mul", "and", "or", "xor"):
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]) and isc(b): return Ite(a.args[0], Ibin(op, a.args[1], b), Ibin(op, a.args[2], b))
        if b.op == "ite" and isc(b.args[1]) and isc(b.args[2]) and isc(a): return Ite(b.args[0], Ibin(op, a, b.args[1]), Ibin(op, a, b.args[2]))
    return mk(op, s, (a, b))
def Ovf(op, a, b):
    if isc(a) and isc(b):
        w = int(a.sort[1:]); x, y = sgn(a.val, w), sgn(b.val, w)
        r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
        return boolc(not -(1 << (w - 1)) <= r < (1 << (w - 1)))
    if a.op == "undef" or b.op == "undef": return boolc(False)
    return mk("ovf", "bool", (a, b), op)
def Icmp(pred, a, b):
    s = a.sort
    if s == "bool":
        r = Iff(a, b)
        if pred == "eq": return r
        if pred == "ne": return Not(r)
        raise Unsupported("icmp bool")
    w = int(s[1:])
    if pred == "ne": return Not(Icmp("eq", a, b))
    if pred == "sgt": return Icmp("slt", b, a)
    if pred == "ugt": return Icmp("ult", b, a)
    if pred == "sge": return Not(Icmp("slt", a, b))
    if pred == "uge": return Not(Icmp("ult", a, b))
    if pred == "sle": return Not(Icmp("slt", b, a))
    if pred == "ule": return Not(Icmp("ult", b, a))
    if a.op == "undef" or b.op == "undef": return mk("undef", "bool", (), "cmp")
    if isc(a) and isc(b):
        if pred == "eq": return boolc(a.val == b.val)
        if pred == "slt": return boolc(sgn(a.val, w) < sgn(b.val, w))
        if pred == "ult": return boolc(a.val < b.val)
    if a is b: return boolc(pred == "eq")
    if pred == "slt":
        if isc(b) and b.val == 0 and a.op == "zext": return boolc(False)
        if isc(b) and b.val == 0 and a.op == "sub" and isc(a.args[0]) and a.args[0].val == 0 and a.args[1].op == "zext": return Not(Icmp("eq", a.args[1], b))
        if isc(a) and a.val == 0 and b.op == "zext": return Not(Icmp("eq", b, a))
        if isc(a) and a.val == 0 and b.op == "sub" and isc(b.args[0]) and b.args[0].val == 0 and b.args[1].op == "zext": return boolc(False)
    if pred == "eq":
        for x, y in ((a, b), (b, a)):
            if isc(y) and y.val == 0 and x.op == "sub" and isc(x.args[0]) and x.args[0].val == 0: return Icmp("eq", x.args[1], y)
        if a.op == "zext" and b.op == "zext" and a.args[0].sort == b.args[0].sort: return Icmp("eq", a.args[0], b.args[0])
    if pred == "ult" and isc(b) and b.val == 0: return boolc(False)
    if pred == "ult" and isc(b) and b.val == 1: return Icmp("eq", a, intc(s, 0))
    if pred == "ult" and isc(a) and a.val == 0: return Not(Icmp("eq", b, a))
    if pred == "slt" and isc(a) and a.val == (1 << (w - 1)) - 1: return boolc(False)
    if a.op == "fbits" and pred == "slt" and isc(b) and b.val == 0: return Signbit(a.args[0])
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and isc(y) and (isc(x.args[1]) or isc(x.args[2])):
            f = (lambda u: Icmp(pred, u, y)) if not sw else (lambda u: Icmp(pred, y, u))
            return Ite(x.args[0], f(x.args[1]), f(x.args[2]))
    if pred == "eq":
        if isc(a): a, b = b, a
        if isc(b) and a.op == "add" and isc(a.args[1]): return Icmp("eq", a.args[0], intc(s, b.val - a.args[1].val))
        if isc(b) and a.op in ("zext", "sext"):
            w0 = int(a.args[0].sort[1:])
            e = intc(a.args[0].sort, b.val)
            back = b.val & ((1 << w0) - 1) if a.op == "zext" else sgn(b.val & ((1 << w0) - 1), w0) & ((1 << w) - 1)
            if back != b.val: return boolc(False)
            return Icmp("eq", a.args[0], e)
        if not isc(b) and b.id < a.id: a, b = b, a
    return mk("i" + pred, "bool", (a, b))
def Iext(op, a, dst):
    if a.sort == "bool":
        return Ite(a, intc(dst, 1 if op == "zext" else -1), intc(dst, 0))
    w0, w = int(a.sort[1:]), int(dst[1:])
    if w0 == w: return a
    if isc(a):
        return intc(dst, a.val if op in ("zext", "trunc") else sgn(a.val, w0))
    if a.op == "undef": return mk("undef", dst, (), "prop")
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], Iext(op, a.args[1], dst), Iext(op, a.args[2], dst))
    if op == "trunc" and a.op in ("sext", "zext") and a.args[0].sort == dst: return a.args[0]
    if op == a.op and op in ("sext", "zext"): return mk(op, dst, (a.args[0],))
    if op == "sext" and a.op == "zext": return mk("zext", dst, (a.args[0],))
    if op == "sext" and a.op == "sub" and isc(a.args[0]) and a.args[0].val == 0 and a.args[1].op == "zext": return Ibin("sub", intc(dst, 0), Iext("zext", a.args[1], dst))
    return mk(op, dst, (a,))

# ------------------------------------------------------------------------------------------ executor
class Budget(Exception):
    pass
class DepthLimit(Exception):
    pass

class Exec:
    """mode: 'eager' (all calls inlined), 'lazy' (recursive or large functions become 'call' terms)."""
    def __init__(self, mod, mode="eager", big=400, maxdepth=3000, budget=2000000, canon=None, region=None, prune=None, tag="", unwind=0, rd=1, flevel=0):
        self.flevel = flevel
        self.eqset = None     # functions kept as calls named by their own name (C12)
        self.rd = rd
        self.unwind, self.unwound, self.active = unwind, 0, {}
        self.m, self.mode, self.big, self.maxdepth, self.budget = mod, mode, big, maxdepth, budget
        self.memo, self.depth, self.steps, self.maxseen = {}, 0, 0, 0
        self.track_ub = False # undefined behaviour as a second result of every call: self.u, a boolean term over the arguments
        self.u, self.ubdesc, self.opaque, self.contract = FALSE, {}, None, None
        self.funcs_seen = set()
        self.region, self.prune = region, prune
        self.canonf = canon if canon is not None else {}
        self.tag = tag
        self._size = {}
        self._rec = None
        self.forks = 0

    # -- call graph
    def recset(self):
        if self._rec is None:
            g = {n: {i.x for b in f.blocks.values() for i in b if i.op == "call" and i.x in self.m.funcs} for n, f in self.m.funcs.items()}
            # Tarjan
            idx, low, st, on, out = {}, {}, [], set(), set()
            c = itertools.count()
            def visit(v):
                idx[v] = low[v] = next(c); st.append(v); on.add(v)
                for w in g[v]:
                    if w not in idx: visit(w); low[v] = min(low[v], low[w])
                    elif w in on: low[v] = min(low[v], idx[w])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    if len(comp) > 1 or v in g[v]: out.update(comp)
            for v in g:
                if v not in idx: visit(v)
            self._rec = out; self._g = g
        return self._rec
    def size(self, n):
        if n not in self._size:
            if n in self.recset(): self._size[n] = 10 ** 6
            else:
                s = 0
                f = self.m.funcs[n]
                # loops count as big
                pos = {b: i for i, b in enumerate(f.order)}
                for b in f.order:
                    for i in f.blocks[b]:
                        s += 1
                        if i.op == "call" and i.x in self.m.funcs: s += self.size(i.x)
                        if i.op in ("br", "cbr") and any(pos[t] <= pos[b] for t in i.x): s += 10 ** 6
                self._size[n] = min(s, 10 ** 6)
        return self._size[n]
    def canon(self, n):
        """structural identity of a function (names abstracted), for comparing two modules"""
        k = (self.tag, n)
        if k in self.canonf: return self.canonf[k]
        self.canonf[k] = "rec:" + n
        f = self.m.funcs[n]
        names = {p[1]: "p%d" % i for i, p in enumerate(f.params)}
        j = 0
        for b in f.order:
            names["L" + b] = "b%d" % j; j += 1
            for ins in f.blocks[b]:
                if ins.dest is not None: names[ins.dest] = "v%d" % j; j += 1
        h = []
        def o(a):
            if isinstance(a, Reg): return names.get(a.name, "?")
            if isinstance(a, Const): return "%s:%s" % (a.ty, a.v)
            return "@" + hashlib.sha1(str(self.m.globals.get(a.name)).encode()).hexdigest()
        for b in f.order:
            h.append(names["L" + b])
            for ins in f.blocks[b]:
                x = ins.x
                if ins.op == "call": x = "self" if x == n else (self.canon(x) if x in self.m.funcs else x)
                elif ins.op in ("br", "cbr", "phi"): x = [names["L" + q] for q in x]
                h.append("%s %s %s %s" % (ins.op, ins.ty, [o(a) for a in ins.args], x))
        r = hashlib.sha1("\n".join(h).encode()).hexdigest()[:16]
        self.canonf[k] = r
        return r

    # -- evaluation
    def opnd(self, a, env):
        if isinstance(a, Reg): return env[a.name]
        if isinstance(a, Const):
            if a.v == "undef": return mk("undef", "bool" if a.ty == "i1" else a.ty, (), "u")
            if a.ty in FPT: return fpc(a.ty, a.v)
            if a.ty == "i1": return boolc(a.v)
            if a.ty == "ptr": raise Unsupported("null ptr")
            return intc(a.ty, a.v)
        if isinstance(a, Glob): return ("gptr", a.name, None)
        raise Unsupported("operand")

    def call(self, name, args, pc=None, force=False):
        if name not in self.m.funcs:
            return self.intrinsic(name, args)
        self.funcs_seen.add(name)
        if self.contract is not None and not force and name in self.contract:
            # undefined behaviour of the callee: what its contract asks of the arguments
            opq, need = self.contract[name]
            u = need(args) if self.track_ub else FALSE
            if opq and not all(isinstance(a, T) and isc(a) for a in args):
                f = self.m.funcs[name]; r = mk("call", "bool" if f.rty == "i1" else f.rty, args, ("=" + name, name, ""))
            else:
                ku, self.track_ub = self.track_ub, False
                try: r = self.call(name, args, pc, True)
                finally: self.track_ub = ku
            self.u = u
            return r
        allc = all(isinstance(a, T) and isc(a) for a in args)
        if not force and self.mode == "lazy" and not allc and self.depth >= self.flevel and self.size(name) > self.big:
            f = self.m.funcs[name]
            return mk("call", "bool" if f.rty == "i1" else f.rty, args, (self.canon(name), name, self.tag))
        if self.mode == "rec" and not allc and not force and name in self.recset() and self.active.get(name, 0) >= self.rd:
            f = self.m.funcs[name]
            return mk("call", "bool" if f.rty == "i1" else f.rty, args, (self.canon(name), name, self.tag))
        if self.track_ub: self.u = FALSE
        if self.opaque is not None and not force and name in self.opaque and not allc:
            f = self.m.funcs[name]
            return mk("call", "bool" if f.rty == "i1" else f.rty, args, ("=" + name, name, ""))
        if self.eqset is not None and not force and name in self.eqset:
            f = self.m.funcs[name]
            return mk("call", "bool" if f.rty == "i1" else f.rty, args, ("=" + name, name, ""))
        if self.prune is None: pc = []      # results are memoised: they may not depend on the path
        if self.unwind and name in self.recset() and not allc:
            k = self.active.get(name, 0)
            if k >= self.unwind:
                f = self.m.funcs[name]; self.unwound += 1
                return mk("undef", "bool" if f.rty == "i1" else f.rty, (), "unwound")
        key = None
        if all(isinstance(a, T) for a in args):
            key = (name, self.track_ub, tuple(a.id for a in args)) + ((frozenset(p.id for p in pc or ()),) if self.prune is not None else ()) + ((self.active.get(name, 0),) if (self.unwind or self.mode == "rec") and not allc else (min(self.depth, self.flevel),))
            if key in self.memo:
                r, self.u = self.memo[key]; return r
        self.depth += 1; self.active[name] = self.active.get(name, 0) + 1
        self.maxseen = max(self.maxseen, self.depth)
        if self.depth > self.maxdepth:
            self.depth -= 1; self.active[name] -= 1
            raise DepthLimit(name)
        try:
            f = self.m.funcs[name]
            env = {p[1]: a for p, a in zip(f.params, args)}
            r = self.block(f, f.order[0], None, env, pc or [])
        finally:
            self.depth -= 1; self.active[name] -= 1
        if key is not None: self.memo[key] = r, self.u
        return r

    def intrinsic(self, name, args):
        if name.startswith("llvm.copysign"):
            a, b = args
            aa = self.fabs(a)
            return Ite(Signbit(b), Fneg(aa), aa)
        if name.startswith("llvm.fabs"): return self.fabs(args[0])
        if name.startswith("llvm.is.fpclass"): raise Unsupported(name)
        if name.startswith("llvm.lifetime") or name.startswith("llvm.assume"): return None
        raise Unsupported("call " + name)
    def fabs(self, a):
        if isc(a): return fpc(a.sort, sf.neg(a.sort, a.val)) if sf.sign(a.sort, a.val) else a
        return Ite(Signbit(a), Fneg(a), a)

    def addub(self, desc, pc, bad):
        if self.track_ub and not (isc(bad) and not bad.val):
            self.ubdesc[bad.id] = desc; self.lu = Or(self.lu, bad)

    def block(self, f, bname, prev, env, pc):
        """value of the function from this block on; self.u: undefined behaviour from this block on"""
        lu = FALSE
        while True:
            self.steps += 1
            if self.steps > self.budget: raise Budget("steps")
            ins_list = f.blocks[bname]
            # phis in parallel
            newv = {}
            i = 0
            while i < len(ins_list) and ins_list[i].op == "phi":
                ins = ins_list[i]
                newv[ins.dest] = self.opnd(ins.args[ins.x.index(prev)], env)
                i += 1
            env.update(newv)
            for ins in ins_list[i:]:
                op = ins.op
                if op == "ret":
                    self.u = lu
                    return self.opnd(ins.args[0], env) if ins.args else None
                if op == "br":
                    prev, bname = bname, ins.x[0]; break
                if op == "cbr":
                    c = self.opnd(ins.args[0], env)
                    known = self.decide(c, pc)
                    if known is not None:
                        prev, bname = bname, ins.x[0 if known else 1]; break
                    self.forks += 1
                    if self.unwind:
                        k = env.get("#" + bname, 0)
                        if k >= self.unwind:
                            self.unwound += 1; self.u = lu
                            return mk("undef", "bool" if f.rty == "i1" else f.rty, (), "unwound")
                        env["#" + bname] = k + 1
                    r1 = self.block(f, ins.x[0], bname, dict(env), pc + [c]); u1 = self.u
                    r2 = self.block(f, ins.x[1], bname, env, pc + [Not(c)])
                    if self.track_ub: self.u = Or(lu, Ite(c, u1, self.u))
                    if r1 is None or r2 is None: return r1 if r2 is None else r2
                    return Ite(c, r1, r2)
                if op == "unreachable": return None
                if op == "unsupported": raise Unsupported(ins.x)
                if self.track_ub:
                    self.lu = self.u = FALSE
                    v = self.step(ins, env, pc)
                    lu = Or(lu, self.u if op == "call" else self.lu)
                else: v = self.step(ins, env, pc)
                if ins.dest is not None: env[ins.dest] = v
            else:
                raise Unsupported("block without terminator")

    def decide(self, c, pc):
        if isc(c): return c.val
        nc = Not(c)
        for p in pc:
            if p is c: return True
            if p is nc: return False
        if self.prune is not None:
            return self.prune(c, pc)
        return None

    def step(self, ins, env, pc):
        op, ty = ins.op, ins.ty
        a = [self.opnd(x, env) for x in ins.args]
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            if ty == "i1":
                if op == "xor": return Not(Iff(a[0], a[1]))
                if op == "and": return And(a[0], a[1])
                if op == "or": return Or(a[0], a[1])
                raise Unsupported("i1 " + op)
            if self.track_ub:
                w = int(ty[1:])
                if op in ("sdiv", "udiv", "srem", "urem"):
                    self.addub("integer division by zero", pc, Icmp("eq", a[1], intc(ty, 0)))
                    if op in ("sdiv", "srem"):
                        self.addub("signed division overflow", pc, And(Icmp("eq", a[0], intc(ty, 1 << (w - 1))), Icmp("eq", a[1], intc(ty, -1))))
                if op in ("add", "sub", "mul") and "nsw" in ins.x:
                    self.addub("signed overflow", pc, Ovf(op, a[0], a[1]))
            return Ibin(op, a[0], a[1])
        if op == "fadd": return Fadd(*a)
        if op == "fsub": return Fsub(*a)
        if op == "fmul": return Fmul(*a)
        if op == "fdiv": return Fdiv(*a)
        if op == "fneg": return Fneg(*a)
        if op == "icmp": return Icmp(ins.x, a[0], a[1])
        if op == "fcmp":
            p = ins.x; x, y = a
            if p == "olt": return Flt(x, y)
            if p == "ogt": return Flt(y, x)
            if p == "ole": return Fle(x, y)
            if p == "oge": return Fle(y, x)
            if p == "oeq": return Feq(x, y)
            if p == "une": return Not(Feq(x, y))
            if p == "ult": return Not(Fle(y, x))
            if p == "ugt": return Not(Fle(x, y))
            if p == "ule": return Not(Flt(y, x))
            if p == "uge": return Not(Flt(x, y))
            if p == "uno": return Or(Fisnan(x), Fisnan(y))
            if p == "ord": return Not(Or(Fisnan(x), Fisnan(y)))
            if p == "one": return Or(Flt(x, y), Flt(y, x))
            if p == "ueq": return Not(Or(Flt(x, y), Flt(y, x)))
            raise Unsupported("fcmp " + p)
        if op in ("fpext", "fptrunc"): return Fcast(a[0], ty)
        if op in ("sitofp", "uitofp"):
            x = a[0]
            if x.sort == "bool": x = Iext("zext" if op == "uitofp" else "sext", x, "i8")
            return I2F(x, ty, op == "sitofp")
        if op in ("fptosi", "fptoui"):
            if self.track_ub:
                w = int(ty[1:]); s = a[0].sort
                if op == "fptosi": lo, hi = -(1 << (w - 1)) - 1, 1 << (w - 1)
                else: lo, hi = -1, 1 << w
                # in range iff lo < x < hi  (lo itself representable or rounds down => use <= for exactness)
                p = sf.FMT[s][1]
                hic = fpc(s, sf.from_int(s, hi))
                if op == "fptosi" and (w - 1) >= p: okl = Fle(fpc(s, sf.from_int(s, lo + 1)), a[0])
                else: okl = Flt(fpc(s, sf.from_int(s, lo)), a[0])
                self.addub("float to integer conversion out of range", pc, Not(And(okl, Flt(a[0], hic))))
            return F2I(a[0], ty, op == "fptosi")
        if op in ("zext", "sext", "trunc"):
            if ty == "i1":
                return Not(Icmp("eq", Ibin("and", a[0], intc(a[0].sort, 1)), intc(a[0].sort, 0)))
            return Iext(op, a[0], ty)
        if op == "bitcast":
            if ins.x in FPT and ty.startswith("i"):
                if isc(a[0]): return intc(ty, a[0].val)
                return mk("fbits", ty, (a[0],))
            raise Unsupported("bitcast")
        if op == "select": return Ite(a[0], a[1], a[2])
        if op == "call": return self.call(ins.x, a, pc)
        if op == "gep":
            base = a[0]
            if not isinstance(base, tuple) or base[0] not in ("gptr", "lptr"): raise Unsupported("gep base")
            if len(a) == 3 and isinstance(a[1], T) and isc(a[1]) and a[1].val == 0: ix = a[2]
            elif len(a) == 2: ix = a[1]
            else: raise Unsupported("gep shape")
            if base[2] is not None: raise Unsupported("gep of gep")
            return (base[0], base[1], ix)
        if op == "alloca":
            return ("lptr", {}, None)
        if op == "store":
            p = a[1]
            if p[0] != "lptr": raise Unsupported("store global")
            k = 0 if p[2] is None else (p[2].val if isc(p[2]) else None)
            if k is None or pc: raise Unsupported("store symbolic / conditional")
            p[1][k] = a[0]
            return None
        if op == "load":
            p = a[0]
            if p[0] == "lptr":
                k = 0 if p[2] is None else (p[2].val if isc(p[2]) else None)
                if k is None: raise Unsupported("load symbolic")
                return p[1][k]
            ety, vals = self.m.globals[p[1]]
            if ety != ty: raise Unsupported("load type")
            c = (lambda v: fpc(ety, v)) if ety in FPT else (lambda v: intc(ety, v))
            if p[2] is None: return c(vals[0])
            self.addub("table index out of bounds", pc, Not(Icmp("ult", p[2], intc(p[2].sort, len(vals)))))
            if isc(p[2]):
                if p[2].val >= len(vals): return mk("undef", ty, (), "oob")
                return c(vals[p[2].val])
            r = mk("undef", ty, (), "oob")
            for k, v in enumerate(vals): r = Ite(Icmp("eq", p[2], intc(p[2].sort, k)), c(v), r)
            return r
        raise Unsupported(op)

def expand_calls(t, execs, limit, cache=None, only=None):
    """replace lazy 'call' terms by one level of their bodies"""
    cache = {} if cache is None else cache
    n = [0]
    def go(t):
        if t.id in cache: return cache[t.id]
        if t.op == "call" and (only is None or t.val[0] in only):
            ex = execs[t.val[2]]
            args = [go(a) for a in t.args]
            n[0] += 1
            if n[0] > limit: raise Budget("expansion")
            r = ex.call(t.val[1], args, force=True)
        elif not t.args: r = t
        else:
            args = [go(a) for a in t.args]
            r = rebuild(t, args)
        cache[t.id] = r
        return r
    return go(t), n[0]

def varsof(t):
    out, seen, st = [], set(), [t]
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op == "var": out.append(u)
        st.extend(u.args)
    return out
def subst(t, env):
    """replace terms by env (id -> term), folding constants"""
    cache = dict(env); st = [(t, False)]
    while st:
        u, done = st.pop()
        if u.id in cache: continue
        if not u.args: cache[u.id] = u; continue
        if not done:
            st.append((u, True)); st.extend((a, False) for a in u.args if a.id not in cache)
        else: cache[u.id] = rebuild(u, [cache[a.id] for a in u.args])
    return cache[t.id]

def rebuild(t, a):
    if all(x is y for x, y in zip(a, t.args)): return t
    op = t.op
    if op == "not": return Not(a[0])
    if op == "and": return And(*a)
    if op == "iff": return Iff(*a)
    if op == "ite": return Ite(*a)
    if op == "fneg": return Fneg(*a)
    if op == "fadd": return Fadd(*a)
    if op == "fmul": return Fmul(*a)
    if op == "fdiv": return Fdiv(*a)
    if op == "flt": return Flt(*a)
    if op == "fle": return Fle(*a)
    if op == "feq": return Feq(*a)
    if op == "fcast": return Fcast(a[0], t.sort)
    if op == "s2f": return I2F(a[0], t.sort, True)
    if op == "u2f": return I2F(a[0], t.sort, False)
    if op == "f2s": return F2I(a[0], t.sort, True)
    if op == "f2u": return F2I(a[0], t.sort, False)
    if op == "fsign": return Signbit(a[0])
    if op in ("zext", "sext", "trunc"): return Iext(op, a[0], t.sort)
    if op == "rti": return Rti(a[0], t.val)
    if op == "same": return same(*a)
    if op == "ovf": return Ovf(t.val, *a)
    if op in ("ieq", "islt", "iult"): return Icmp(op[1:], *a)
    if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"): return Ibin(op, *a)
    return mk(op, t.sort, a, t.val)

# ------------------------------------------------------------------------------------------ SMT-LIB
SS = {"float": "(_ FloatingPoint 8 24)", "double": "(_ FloatingPoint 11 53)", "x86_fp80": "(_ FloatingPoint 15 64)", "bool": "Bool"}
def sortname(s): return SS[s] if s in SS else "(_ BitVec %d)" % int(s[1:])
def fplit(ty, b):
    e, p, w = sf.FMT[ty]
    if sf.is_nan(ty, b): return "(_ NaN %d %d)" % (e, p)
    s, ex, m = sf.parts(ty, b)
    if ty == "x86_fp80": m &= (1 << 63) - 1
    return "(fp #b%d #b%s #b%s)" % (s, format(ex, "0%db" % e), format(m, "0%db" % (p - 1)))

class Smt:
    """uf: set of fp arithmetic ops to abstract as uninterpreted functions."""
    def __init__(self, uf=()):
        self.uf = set(uf); self.lines = []; self.names = {}; self.decl = set(); self.vars = {}
        self.ops = {}
        self.axioms = []
    def term(self, t):
        # iterative post-order
        st = [(t, False)]
        while st:
            u, done = st.pop()
            if u.id in self.names: continue
            if not done:
                st.append((u, True))
                for a in u.args:
                    if a.id not in self.names: st.append((a, False))
            else:
                self.emit(u)
        return self.names[t.id]
    def declare(self, name, sig):
        if name not in self.decl:
            self.decl.add(name); self.lines.append("(declare-fun %s %s)" % (name, sig))
    def emit(self, u):
        op, s = u.op, u.sort
        A = [self.names[a.id] for a in u.args]
        self.ops[op] = self.ops.get(op, 0) + 1
        inline = False
        if op == "const":
            inline = True
            if s == "bool": e = "true" if u.val else "false"
            elif s in FPT: e = fplit(s, u.val)
            else: e = "(_ bv%d %d)" % (u.val, int(s[1:]))
        elif op == "var":
            self.declare(u.val, "() " + sortname(s)); self.vars[u.val] = u; e = u.val; inline = True
        elif op == "undef":
            n = "undef%d" % u.id; self.declare(n, "() " + sortname(s)); e = n; inline = True
        elif op == "call":
            n = "C_%s_%d" % (u.val[0].replace(":", "_"), len(u.args))
            self.declare(n, "(%s) %s" % (" ".join(sortname(a.sort) for a in u.args), sortname(s)))
            e = "(%s %s)" % (n, " ".join(A)) if A else n
        elif op == "not": e = "(not %s)" % A[0]
        elif op == "and" and s == "bool": e = "(and %s %s)" % tuple(A)
        elif op == "iff": e = "(= %s %s)" % tuple(A)
        elif op == "ite": e = "(ite %s %s %s)" % tuple(A)
        elif op == "fneg": e = "(fp.neg %s)" % A[0]
        elif op in ("fadd", "fmul", "fdiv"):
            if op in self.uf:
                # uninterpreted magnitude; the exact facts kept: signs factor out, NaN, zero and infinite operands
                n = "U_%s_%s" % (op, s); ss = sortname(s)
                self.declare(n, "(%s %s) %s" % (ss, ss, ss))
                m = n + "_s"
                if m not in self.decl:
                    self.decl.add(m); z = fplit(s, 0)
                    N = fplit(s, sf.nan(s)); I = fplit(s, sf.inf(s)); k = n + "_k"      # never NaN on finite operands
                    one = fplit(s, sf.from_int(s, 1)); kept = "(ite (fp.isNaN r) %s r)" % one
                    if op == "fmul": kept = "(ite (fp.isNaN r) %s (fp.abs r))" % one
                    if op == "fdiv":    # round to nearest is monotone and 1 - 2^-p is representable: |a| < |b| iff the quotient is below one
                        kept = "(ite (fp.lt a b) (ite (fp.lt (fp.abs r) %s) (fp.abs r) %s) (ite (fp.leq %s (fp.abs r)) (fp.abs r) %s))" % (one, fplit(s, 0), one, one)
                    self.lines.append("(define-fun %s ((a %s) (b %s)) %s (let ((r (%s a b))) %s))" % (k, ss, ss, ss, n, kept))
                    n = k
                    if op == "fadd":
                        body = ("(let ((r (%s (fp.abs a) (ite (fp.isNegative a) (fp.neg b) b)))) (ite (fp.isNegative a) "
                                "(ite (and (fp.isZero r) (not (and (fp.isZero a) (fp.isZero b) (fp.isNegative b)))) %s (fp.neg r)) r))") % (n, z)
                        body = ("(ite (fp.isInfinite a) (ite (fp.eq b (fp.neg a)) %s a) (ite (fp.isInfinite b) b (ite (fp.isZero b) (ite (fp.isZero a) (ite (= a b) a %s) a) (ite (fp.isZero a) b %s))))") % (N, z, body)
                    else:
                        zero, infi = "(fp.isZero a) (fp.isZero b)", "(fp.isInfinite a) (fp.isInfinite b)"
                        if op == "fmul": body = "(ite (or %s) (ite (or %s) %s %s) (ite (or %s) %s (%s (fp.abs a) (fp.abs b))))" % (zero, infi, N, z, infi, I, n)
                        else: body = "(ite (or (and %s) (and %s)) %s (ite (or (fp.isZero a) (fp.isInfinite b)) %s (ite (or (fp.isZero b) (fp.isInfinite a)) %s (%s (fp.abs a) (fp.abs b)))))" % (zero, infi, N, z, I, n)
                        body = "(let ((r %s)) (ite (xor (fp.isNegative a) (fp.isNegative b)) (fp.neg r) r))" % body
                    self.lines.append("(define-fun %s ((a %s) (b %s)) %s (ite (or (fp.isNaN a) (fp.isNaN b)) %s %s))" % (m, ss, ss, ss, N, body))
                e = "(%s %s %s)" % (m, A[0], A[1])
            else: e = "(fp.%s RNE %s %s)" % (op[1:], A[0], A[1])
        elif op == "flt": e = "(fp.lt %s %s)" % tuple(A)
        elif op == "fle": e = "(fp.leq %s %s)" % tuple(A)
        elif op == "feq": e = "(fp.eq %s %s)" % tuple(A)
        elif op == "fsign": e = "(fp.isNegative %s)" % A[0]
        elif op == "fbits":
            w = int(s[1:]); n = "bits%d" % u.id
            self.declare(n, "() " + sortname(s))
            src = u.args[0].sort
            if src == "x86_fp80": raise Unsupported("fbits fp80")
            self.lines.append("(assert (= %s ((_ to_fp %d %d) %s)))" % (A[0], sf.FMT[src][0], sf.FMT[src][1], n)); e = n; inline = True
        elif op == "fcast":
            if "fcast" in self.uf and sf.FMT[u.args[0].sort][1] > sf.FMT[s][1]:
                n = "U_fcast_%s_%s" % (u.args[0].sort, s); self.declare(n, "(%s) %s" % (sortname(u.args[0].sort), sortname(s)))
                e = "(ite (fp.isNaN %s) %s (ite (fp.isNegative %s) (fp.neg (%s (fp.abs %s))) (%s (fp.abs %s))))" % (A[0], fplit(s, sf.nan(s)), A[0], n, A[0], n, A[0])
            else: e = "((_ to_fp %d %d) RNE %s)" % (sf.FMT[s][0], sf.FMT[s][1], A[0])
        elif op in ("s2f", "u2f"):
            if op in self.uf:
                n = "U_%s_%s_%s" % (op, u.args[0].sort, s); self.declare(n, "(%s) %s" % (sortname(u.args[0].sort), sortname(s))); e = "(%s %s)" % (n, A[0])
            else: e = "((_ to_fp%s %d %d) RNE %s)" % ("" if op == "s2f" else "_unsigned", sf.FMT[s][0], sf.FMT[s][1], A[0])
        elif op in ("f2s", "f2u"):
            if op in self.uf:
                n = "U_%s_%s_%s" % (op, u.args[0].sort, s); self.declare(n, "(%s) %s" % (sortname(u.args[0].sort), sortname(s))); e = "(%s %s)" % (n, A[0])
            else: e = "((_ fp.to_%sbv %d) RTZ %s)" % ("s" if op == "f2s" else "u", int(s[1:]), A[0])
        elif op in ("zext", "sext"):
            e = "((_ %s %d) %s)" % ("zero_extend" if op == "zext" else "sign_extend", int(s[1:]) - int(u.args[0].sort[1:]), A[0])
        elif op == "trunc": e = "((_ extract %d 0) %s)" % (int(s[1:]) - 1, A[0])
        elif op == "ieq": e = "(= %s %s)" % tuple(A)
        elif op == "islt": e = "(bvslt %s %s)" % tuple(A)
        elif op == "iult": e = "(bvult %s %s)" % tuple(A)
        elif op == "ovf":
            w = int(u.args[0].sort[1:]); ext = w if u.val == "mul" else 1
            x, y = ("((_ sign_extend %d) %s)" % (ext, z) for z in A)
            e = "(let ((r (bv%s %s %s))) (not (= r ((_ sign_extend %d) ((_ extract %d 0) r)))))" % (u.val, x, y, ext, w - 1)
        elif op == "rti":  # round to integral with mode
            e = "(fp.roundToIntegral %s %s)" % (u.val, A[0])
        elif op == "same": e = "(= %s %s)" % tuple(A)      # structural equality (NaN = NaN)
        else:
            m = {"add": "bvadd", "sub": "bvsub", "mul": "bvmul", "sdiv": "bvsdiv", "udiv": "bvudiv", "srem": "bvsrem", "urem": "bvurem",
                 "and": "bvand", "or": "bvor", "xor": "bvxor", "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr"}.get(op)
            if not m: raise Unsupported("smt " + op)
            if op in self.uf:
                m = "U_%s_%s" % (op, s); self.declare(m, "(%s %s) %s" % ((sortname(s),) * 3))
            e = "(%s %s %s)" % (m, A[0], A[1])
        if inline: self.names[u.id] = e
        else:
            n = "t%d" % u.id
            self.lines.append("(define-fun %s () %s %s)" % (n, sortname(s), e))
            self.names[u.id] = n
    def script(self, asserts, getvals=()):
        ns = [self.term(a) for a in asserts]
        gv = [self.term(v) for v in getvals]
        out = ["(set-logic ALL)", "(set-option :produce-models true)"] + self.lines + ["(assert %s)" % n for n in ns] + ["(check-sat)"]
        if gv: out.append("(get-value (%s))" % " ".join(gv))
        return "\n".join(out) + "\n"

def same(a, b):
    if a is b: return boolc(True)
    if a.sort == "bool": return Iff(a, b)
    if isc(a) and isc(b): return boolc(a.val == b.val)
    return mk("same", "bool", (a, b) if a.id < b.id else (b, a))

def size_arith(ts):
    n, seen, st = 0, set(), list(ts)
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id); n += u.op in ("fadd", "fmul", "fdiv")
        st.extend(u.args)
    return n
class Pruner:
    """decides branch conditions under a region and the path so far, in-process z3; unknown = both ways"""
    def __init__(self, pre, limit=400, ms=1500):
        self.pre, self.cache, self.n, self.limit, self.ms, self.t = pre, {}, 0, limit, ms, 0.0
    def sat(self, ts):
        import z3
        if any(isc(a) and not a.val for a in ts): return False
        ts = [a for a in ts if not isc(a)]
        if not ts: return True
        if self.n >= self.limit: return True
        self.n += 1
        t0 = time.time()
        uf = () if size_arith(ts) <= 3 else ("fadd", "fmul", "fdiv", "fcast")
        try:
            S = Smt(uf); sc = S.script(ts).replace("(check-sat)", "")
            ctx = z3.Context(); s = z3.Solver(ctx=ctx); s.set("timeout", self.ms)
            s.from_string(sc)
            r = s.check()
        except (Unsupported, z3.Z3Exception):
            return True
        self.t += time.time() - t0
        return r != z3.unsat
    def __call__(self, c, pc):
        k = (c.id, tuple(p.id for p in pc))
        if k not in self.cache:
            base = ([self.pre] if self.pre is not None else []) + list(pc)
            r = None
            if not self.sat(base + [c]): r = False
            elif not self.sat(base + [Not(c)]): r = True
            self.cache[k] = r
        return self.cache[k]

class Solver:
    """portfolio of z3 (two versions) and cvc5 on one SMT-LIB script; counts queries and time."""
    def __init__(self, workdir):
        self.dir = workdir; self.n = 0; self.time = 0.0; self.log = []; self.lock = threading.Lock()
    def check(self, script, timeout=60, solvers=("z3-new", "cvc5"), name=""):
        with self.lock:
            self.n += 1; k = self.n
        fn = os.path.join(self.dir, "q%d.smt2" % k)
        open(fn, "w").write(script)
        cmds = {"z3-new": ["z3-new", "-T:%d" % timeout, fn], "z3": ["z3", "-T:%d" % timeout, fn],
                "cvc5": ["cvc5", "--fp-exp", "--tlimit=%d" % (timeout * 1000), fn]}
        t0 = time.time(); ps = {}
        for s in solvers:
            ps[s] = subprocess.Popen(cmds[s], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        res, who, out = "unknown", None, ""
        pend = dict(ps)
        while pend and time.time() - t0 < timeout + 2:
            for s, p in list(pend.items()):
                if p.poll() is not None:
                    o = p.stdout.read(); del pend[s]
                    first = o.strip().split("\n")[0].strip() if o.strip() else ""
                    if first in ("sat", "unsat") and "error" not in o.split("\n")[0]:
                        res, who, out = first, s, o; break
                    elif "error" in o and first not in ("timeout", "unknown"):
                        out = o
            if res != "unknown": break
            time.sleep(0.003)
        for p in ps.values():
            if p.poll() is None: p.kill()
        for p in ps.values():
            p.wait()
        dt = time.time() - t0
        with self.lock:
            self.time += dt
            self.log.append(dict(query=name or "q%d" % k, result=res, solver=who, seconds=round(dt, 3)))
        try: os.remove(fn)
        except OSError: pass
        return res, out

import re
def parse_values(out):
    """values of a (get-value ...) answer as list of raw (string) values, in order"""
    i = out.find("((")
    if i < 0: return []
    s = out[i:]
    toks = re.findall(r'\(|\)|[^\s()]+', s)
    pos = [0]
    def rd():
        t = toks[pos[0]]; pos[0] += 1
        if t == "(":
            l = []
            while toks[pos[0]] != ")": l.append(rd())
            pos[0] += 1
            return l
        return t
    return [e[1] for e in rd()]
def val_bits(ty, v):
    """SMT value -> raw bits / int / bool"""
    if ty == "bool": return v == "true"
    if ty in FPT:
        e, p, w = sf.FMT[ty]
        if isinstance(v, list):
            if v[0] == "fp":
                def b(x): return (int(x[2:], 2), len(x) - 2) if x.startswith("#b") else (int(x[2:], 16), 4 * (len(x) - 2))
                s, ex, m = b(v[1])[0], b(v[2])[0], b(v[3])[0]
                if ty == "x86_fp80":
                    return (s << 79) | (ex << 64) | ((1 << 63 if ex else 0) | m)
                return (s << (w - 1)) | (ex << (p - 1)) | m
            if v[0] == "_":
                k = v[1]
                if k == "NaN": return sf.nan(ty)
                if k == "+oo": return sf.inf(ty, 0)
                if k == "-oo": return sf.inf(ty, 1)
                if k == "+zero": return 0
                if k == "-zero": return 1 << (w - 1)
        raise Unsupported("value " + str(v))
    if isinstance(v, list): return int(v[1][2:])
    if v.startswith("#b"): return int(v[2:], 2)
    return int(v[2:], 16)
