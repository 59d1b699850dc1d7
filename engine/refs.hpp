// Reference functions (binary128 power series around a point, and single values).
#pragma once
static Q refpoint(const string& r, const vector<Q>& p, Q x);
static Ser invser(const Ser& X, Q y0, const function<Ser(const Ser&)>& dinv) { // y' = dinv(y) * X'
    int M = X.M(); Ser y = scon(M, y0);
    for (int k = 1; k <= M; k++) { Ser d = dinv(y); Ser z = sinteg(d, X, y0); y.a[k] = z.a[k]; }
    return y; }
static Q erfinvq(Q p) { // Newton / bisection in binary128
    Q lo = -60, hi = 60; if (fabsq(p) >= 1) return p > 0 ? HUGE_VALQ : -HUGE_VALQ;
    bool ng = p < 0; Q a = ng ? -p : p; Q om = 1 - a; // solve erfc(y) = om
    lo = 0; hi = 110; Q y = 0.5Q;
    for (int i = 0; i < 400; i++) { Q f = (a < 0.5Q) ? erfq(y) - a : om - erfcq(y); if (f > 0) hi = y; else lo = y; Q d = 2 / sqrtq(Q_PI) * expq(-y * y); Q yn = d > 0 ? y - f / d : (lo + hi) / 2; if (!(yn > lo && yn < hi)) yn = (lo + hi) / 2; if (fabsq(yn - y) <= 1e-33Q * fabsq(y)) { y = yn; break; } y = yn; }
    return ng ? -y : y; }
static Q ginvq(Q a, Q p) { Q lo = 0, hi = 1; while (gammp(a, hi) < p && hi < 1e6Q) hi *= 2; Q y = (lo + hi) / 2; Q lg = qlgam(a);
    for (int i = 0; i < 500; i++) { Q f = gammp(a, y) - p; if (f > 0) hi = y; else lo = y; Q d = expq((a - 1) * logq(y) - y - lg); Q yn = d > 0 ? y - f / d : (lo + hi) / 2; if (!(yn > lo && yn < hi)) yn = (lo + hi) / 2; if (fabsq(yn - y) <= 1e-32Q * fabsq(y)) { y = yn; break; } y = yn; } return y; }
static Q binvq(Q a, Q b, Q p) { Q lo = 0, hi = 1, y = 0.5Q; Q lb = qlgam(a) + qlgam(b) - qlgam(a + b);
    for (int i = 0; i < 500; i++) { Q f = betai(a, b, y) - p; if (f > 0) hi = y; else lo = y; Q d = expq((a - 1) * logq(y) + (b - 1) * log1pq(-y) - lb); Q yn = d > 0 ? y - f / d : (lo + hi) / 2; if (!(yn > lo && yn < hi)) yn = (lo + hi) / 2; if (fabsq(yn - y) <= 1e-32Q * fabsq(y)) { y = yn; break; } y = yn; } return y; }
static Ser refser(const string& r, const vector<Q>& p, const Ser& x) {
    int M = x.M(); Q c = x.a[0]; Ser one = scon(M, 1);
    if (r == "exp") return sexp(x);
    if (r == "expm1") { Ser e = sexp(x); e.a[0] = expm1q(c); return e; }
    if (r == "log") return slog(x);
    if (r == "log1p") { Ser l = slog(x + (Q)1); l.a[0] = log1pq(c); return l; }
    if (r == "log2") return slog(x) * (1 / logq(2));
    if (r == "log10") return slog(x) * (1 / logq(10));
    if (r == "sqrt") return ssqrt(x);
    if (r == "inv_sqrt") return one / ssqrt(x);
    if (r == "sin" || r == "cos" || r == "tan") { Ser s, k; ssincos(x, s, k); return r == "sin" ? s : r == "cos" ? k : s / k; }
    if (r == "atan") return sinteg(one / (x * x + (Q)1), x, atanq(c));
    if (r == "asin") return sinteg(one / ssqrt((x * (Q)-1 + (Q)1) * (x + (Q)1)), x, asinq(c));
    if (r == "acos") return sinteg((one / ssqrt((x * (Q)-1 + (Q)1) * (x + (Q)1))) * (Q)-1, x, acosq(c));
    if (r == "sinh") { Ser e = sexp(x), f = sexp(x * (Q)-1); Ser s = (e - f) * 0.5Q; s.a[0] = sinhq(c); return s; }
    if (r == "cosh") { Ser e = sexp(x), f = sexp(x * (Q)-1); return (e + f) * 0.5Q; }
    if (r == "tanh") { if (fabsq(c) > 3000) return scon(M, c > 0 ? 1 : -1); Ser e = sexp(x * (Q)(c > 0 ? -2 : 2)); Ser t = (one - e) / (one + e); if (c < 0) t = t * (Q)-1; t.a[0] = tanhq(c); return t; }
    if (r == "asinh") return sinteg(one / ssqrt(x * x + (Q)1), x, asinhq(c));
    if (r == "acosh") return sinteg(one / ssqrt((x + (Q)-1) * (x + (Q)1)), x, acoshq(c));
    if (r == "atanh") return sinteg(one / ((x * (Q)-1 + (Q)1) * (x + (Q)1)), x, atanhq(c));
    if (r == "erf") { Ser e = sexp(x * x * (Q)-1) * (2 / sqrtq(Q_PI)); return sinteg(e, x, erfq(c)); }
    if (r == "erf_inv") return invser(x, erfinvq(c), [&](const Ser& y) { return sexp(y * y) * (sqrtq(Q_PI) / 2); });
    if (r == "lgamma") return slgamma(x);
    if (r == "tgamma") { if (c > 0) return sexp(slgamma(x)); Ser y = x, pr = one; int m = 0; while (y.a[0] + m <= 0) m++; for (int j = 0; j < m; j++) { Ser z = x; z.a[0] += j; pr = pr * z; } y.a[0] += m; return sexp(slgamma(y)) / pr; }
    if (r == "factorial") { vector<Q> e; Ser y = x; y.a[0] += 1; return refser("tgamma", e, y); }
    if (r == "powi") { // x^n, n integer parameter
        long n = (long)p[0]; Ser b = x, v = one; long k = n < 0 ? -n : n; while (k) { if (k & 1) v = v * b; b = b * b; k >>= 1; if (!k) break; } return n < 0 ? one / v : v; }
    if (r == "powx") return spow(x, p[0]);                 // x^y, base symbolic
    if (r == "powy") return sexp(x * logq(p[0]));          // b^x, exponent symbolic
    if (r == "fmod") { Q k = truncq(c / p[0]); return x + (-k * p[0]); }                    // x symbolic, y = p0
    if (r == "fmody") { Q k = truncq(p[0] / c); return x * -k + p[0]; }                      // y symbolic, x = p0
    if (r == "hypot") return ssqrt(x * x + p[0] * p[0]);
    if (r == "atan2y") { Q x0 = p[0]; Ser d = scon(M, x0) / (x * x + x0 * x0); return sinteg(d, x, atan2q(c, x0)); }    // y symbolic
    if (r == "atan2x") { Q y0 = p[0]; Ser d = scon(M, -y0) / (x * x + y0 * y0); return sinteg(d, x, atan2q(y0, c)); }   // x symbolic
    if (r == "lbeta") return slgamma(x) - slgamma(x + p[0]) + scon(M, qlgam(p[0]));
    if (r == "beta") return sexp(slgamma(x) - slgamma(x + p[0]) + scon(M, qlgam(p[0])));
    if (r == "lmgamma") { int n = (int)p[0]; Ser s = scon(M, (Q)n * (n - 1) / 4 * logq(Q_PI)); for (int j = 0; j < n; j++) { Ser y = x; y.a[0] -= (Q)j / 2; s = s + slgamma(y); } return s; }
    if (r == "lbinn") { Ser a = x, b = x; a.a[0] += 1; b.a[0] += 1 - p[0]; return slgamma(a) - slgamma(b) - scon(M, qlgam(p[0] + 1)); }  // n symbolic, k = p0
    if (r == "lbink") { Ser a = x, b = x * (Q)-1; a.a[0] += 1; b.a[0] += p[0] + 1; return scon(M, qlgam(p[0] + 1)) - slgamma(a) - slgamma(b); } // k symbolic
    if (r == "gammp") return sgammp(p[0], x);
    if (r == "gammpinv") { Q a = p[0], lg = qlgam(a); return invser(x, ginvq(a, c), [&](const Ser& y) { return sexp(slog(y) * (1 - a) + y + lg); }); }
    if (r == "betai") return sbetai(p[0], p[1], x);
    if (r == "betaiinv") { Q a = p[0], b = p[1], lb = qlgam(a) + qlgam(b) - qlgam(a + b); return invser(x, binvq(a, b, c), [&](const Ser& y) { Ser om = y * (Q)-1 + (Q)1; return sexp(slog(y) * (1 - a) + slog(om) * (1 - b) + lb); }); }
    throw Unsup{"reference " + r}; }
static Q refpoint(const string& r, const vector<Q>& p, Q x) {
    if (r == "lgamma" && x == 1) return 0;
    Ser s = refser(r, p, svar(0, x, 0)); return s.a[0]; }
