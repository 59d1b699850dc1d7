"""Exact software floating point (binary32, binary64, x87 80-bit) on raw bit patterns."""
from fractions import Fraction

FMT = {"float": (8, 24, 32), "double": (11, 53, 64), "x86_fp80": (15, 64, 80)}

def nan(ty):
    return {"float": 0x7fc00000, "double": 0x7ff8000000000000, "x86_fp80": 0x7fffc000000000000000}[ty]
def inf(ty, s=0):
    e, p, w = FMT[ty]
    m = (1 << 63) if ty == "x86_fp80" else 0
    fb = 64 if ty == "x86_fp80" else p - 1
    return (s << (w - 1)) | (((1 << e) - 1) << fb) | m
def parts(ty, b):
    e, p, w = FMT[ty]
    fb = 64 if ty == "x86_fp80" else p - 1
    s = b >> (w - 1); ex = (b >> fb) & ((1 << e) - 1); m = b & ((1 << fb) - 1)
    return s, ex, m
def sign(ty, b): return b >> (FMT[ty][2] - 1)
def is_nan(ty, b):
    e = FMT[ty][0]; s, ex, m = parts(ty, b)
    if ty == "x86_fp80": m &= (1 << 63) - 1
    return ex == (1 << e) - 1 and m != 0
def is_inf(ty, b):
    e = FMT[ty][0]; s, ex, m = parts(ty, b)
    if ty == "x86_fp80": m &= (1 << 63) - 1
    return ex == (1 << e) - 1 and m == 0
def is_zero(ty, b):
    s, ex, m = parts(ty, b); return ex == 0 and m == 0
def to_frac(ty, b):
    e, p, w = FMT[ty]; s, ex, m = parts(ty, b)
    bias = (1 << (e - 1)) - 1
    if ty != "x86_fp80" and ex != 0: m |= 1 << (p - 1)
    if ex == 0: ex = 1
    v = Fraction(m) * Fraction(2) ** (ex - bias - (p - 1))
    return -v if s else v
def from_frac(ty, v, zsign=0):
    """round to nearest even"""
    e, p, w = FMT[ty]; bias = (1 << (e - 1)) - 1
    fb = 64 if ty == "x86_fp80" else p - 1
    if v == 0: return zsign << (w - 1)
    s = 1 if v < 0 else 0
    v = abs(v)
    n, d = v.numerator, v.denominator
    k = n.bit_length() - d.bit_length()
    # 2^k' <= v
    if (n << max(0, -k)) < (d << max(0, k)): k -= 1
    ex = max(k, 1 - bias)            # exponent of the leading bit position (min normal)
    sh = ex - (p - 1)                # ulp exponent
    if sh >= 0: q, r = divmod(n, d << sh); dd = d << sh
    else: q, r = divmod(n << -sh, d); dd = d
    if 2 * r > dd or (2 * r == dd and q & 1): q += 1
    if q >= (1 << p): q >>= 1; ex += 1
    if ex > bias: return inf(ty, s)
    if q < (1 << (p - 1)): be = 0
    else: be = ex + bias
    if ty == "x86_fp80": m = q
    else: m = q & ((1 << (p - 1)) - 1)
    return (s << (w - 1)) | (be << fb) | m
def neg(ty, b): return b ^ (1 << (FMT[ty][2] - 1))
def add(ty, a, b):
    if is_nan(ty, a) or is_nan(ty, b): return nan(ty)
    if is_inf(ty, a): return nan(ty) if is_inf(ty, b) and sign(ty, a) != sign(ty, b) else a
    if is_inf(ty, b): return b
    if is_zero(ty, a) and is_zero(ty, b): return a if sign(ty, a) == sign(ty, b) else 0
    return from_frac(ty, to_frac(ty, a) + to_frac(ty, b), 0)
def mul(ty, a, b):
    if is_nan(ty, a) or is_nan(ty, b): return nan(ty)
    s = sign(ty, a) ^ sign(ty, b)
    if is_inf(ty, a) or is_inf(ty, b):
        return nan(ty) if is_zero(ty, a) or is_zero(ty, b) else inf(ty, s)
    v = to_frac(ty, a) * to_frac(ty, b)
    if v == 0: return s << (FMT[ty][2] - 1)
    r = from_frac(ty, v, s)
    if is_zero(ty, r): return s << (FMT[ty][2] - 1)
    return r
def div(ty, a, b):
    if is_nan(ty, a) or is_nan(ty, b): return nan(ty)
    s = sign(ty, a) ^ sign(ty, b)
    if is_inf(ty, a): return nan(ty) if is_inf(ty, b) else inf(ty, s)
    if is_inf(ty, b): return s << (FMT[ty][2] - 1)
    if is_zero(ty, b): return nan(ty) if is_zero(ty, a) else inf(ty, s)
    v = to_frac(ty, a) / to_frac(ty, b)
    if v == 0: return s << (FMT[ty][2] - 1)
    r = from_frac(ty, v, s)
    return r
def lt(ty, a, b):
    if is_nan(ty, a) or is_nan(ty, b): return False
    return key(ty, a) < key(ty, b)
def eq(ty, a, b):
    if is_nan(ty, a) or is_nan(ty, b): return False
    return key(ty, a) == key(ty, b)
def key(ty, b):
    w = FMT[ty][2]
    if b >> (w - 1): return -(b & ((1 << (w - 1)) - 1))
    return b
def cast(src, dst, b):
    if is_nan(src, b): return nan(dst)
    if is_inf(src, b): return inf(dst, sign(src, b))
    if is_zero(src, b): return sign(src, b) << (FMT[dst][2] - 1)
    r = from_frac(dst, to_frac(src, b))
    if is_zero(dst, r): return sign(src, b) << (FMT[dst][2] - 1)
    return r
def from_int(ty, v): return from_frac(ty, Fraction(v))
def trunc_int(ty, b):
    f = to_frac(ty, b)
    return int(f) if f >= 0 else -int(-f)
def fmtval(ty, b):
    if is_nan(ty, b): return "nan"
    if is_inf(ty, b): return "-inf" if sign(ty, b) else "inf"
    if is_zero(ty, b): return "-0x0p+0" if sign(ty, b) else "0x0p+0"
    v = to_frac(ty, b); s = "-" if v < 0 else ""; v = abs(v)
    n, d = v.numerator, v.denominator
    k = d.bit_length() - 1
    while n % 2 == 0: n //= 2; k -= 1
    return "%s0x%xp%+d" % (s, n, -k)
def parse_c(ty, s):
    """parse C hex-float / inf / nan text into bits"""
    s = s.strip().lower()
    if "nan" in s: return nan(ty)
    sg = 1 if s.startswith("-") else 0
    t = s.lstrip("+-")
    if t.startswith("inf"): return inf(ty, sg)
    if t.startswith("0x"):
        m, e = t[2:].split("p")
        ip, _, fp = m.partition(".")
        v = Fraction(int(ip + fp, 16)) * Fraction(2) ** (int(e) - 4 * len(fp))
    else:
        v = Fraction(t)
    if sg: v = -v
    return from_frac(ty, v, sg)
