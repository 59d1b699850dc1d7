// Truncated power series in binary128, used for the reference functions only.
#pragma once
#include <quadmath.h>
#include <vector>
#include <cmath>
typedef __float128 Q;
struct Ser {
    std::vector<Q> a;
    Ser(int M = 0) : a(M + 1, 0) {}
    int M() const { return (int)a.size() - 1; }
};
static inline Ser scon(int M, Q c) { Ser r(M); r.a[0] = c; return r; }
static inline Ser svar(int M, Q c, Q h) { Ser r(M); r.a[0] = c; if (M >= 1) r.a[1] = h; return r; }
static inline Ser operator+(const Ser& x, const Ser& y) { Ser r = x; for (int i = 0; i <= r.M(); i++) r.a[i] += y.a[i]; return r; }
static inline Ser operator-(const Ser& x, const Ser& y) { Ser r = x; for (int i = 0; i <= r.M(); i++) r.a[i] -= y.a[i]; return r; }
static inline Ser operator*(const Ser& x, Q k) { Ser r = x; for (auto& v : r.a) v *= k; return r; }
static inline Ser operator+(const Ser& x, Q k) { Ser r = x; r.a[0] += k; return r; }
static inline Ser operator*(const Ser& x, const Ser& y) {
    int M = x.M(); Ser r(M);
    for (int i = 0; i <= M; i++) if (x.a[i] != 0) for (int j = 0; i + j <= M; j++) r.a[i + j] += x.a[i] * y.a[j];
    return r;
}
static inline Ser operator/(const Ser& x, const Ser& y) {
    int M = x.M(); Ser r(M);
    for (int k = 0; k <= M; k++) { Q s = x.a[k]; for (int i = 1; i <= k; i++) s -= y.a[i] * r.a[k - i]; r.a[k] = s / y.a[0]; }
    return r;
}
static inline Ser sexp(const Ser& x) {
    int M = x.M(); Ser r(M); r.a[0] = expq(x.a[0]);
    for (int k = 1; k <= M; k++) { Q s = 0; for (int i = 1; i <= k; i++) s += (Q)i * x.a[i] * r.a[k - i]; r.a[k] = s / k; }
    return r;
}
static inline Ser slog(const Ser& x) {
    int M = x.M(); Ser r(M); r.a[0] = logq(x.a[0]);
    for (int k = 1; k <= M; k++) { Q s = x.a[k] * k; for (int i = 1; i < k; i++) s -= (Q)i * r.a[i] * x.a[k - i]; r.a[k] = s / (x.a[0] * k); }
    return r;
}
static inline Ser ssqrt(const Ser& x) {
    int M = x.M(); Ser r(M); r.a[0] = sqrtq(x.a[0]);
    for (int k = 1; k <= M; k++) { Q s = x.a[k]; for (int i = 1; i < k; i++) s -= r.a[i] * r.a[k - i]; r.a[k] = s / (2 * r.a[0]); }
    return r;
}
static inline void ssincos(const Ser& x, Ser& s, Ser& c) {
    int M = x.M(); s = Ser(M); c = Ser(M); s.a[0] = sinq(x.a[0]); c.a[0] = cosq(x.a[0]);
    for (int k = 1; k <= M; k++) {
        Q u = 0, v = 0;
        for (int i = 1; i <= k; i++) { u += (Q)i * x.a[i] * c.a[k - i]; v -= (Q)i * x.a[i] * s.a[k - i]; }
        s.a[k] = u / k; c.a[k] = v / k;
    }
}
static inline Ser sinteg(const Ser& d, const Ser& x, Q c0) {   // integral of d(t) * x'(t) dt
    int M = d.M(); Ser r(M); r.a[0] = c0;
    for (int k = 1; k <= M; k++) { Q s = 0; for (int i = 1; i <= k; i++) s += (Q)i * x.a[i] * d.a[k - i]; r.a[k] = s / k; }
    return r;
}
static inline Ser spow(const Ser& x, Q p) { // x^p for x.a[0] > 0
    int M = x.M(); Ser r(M); r.a[0] = powq(x.a[0], p);
    for (int k = 1; k <= M; k++) { Q s = 0; for (int i = 1; i <= k; i++) s += ((Q)i * p - (Q)(k - i)) * x.a[i] * r.a[k - i]; r.a[k] = s / (x.a[0] * k); }
    return r;
}
static const Q Q_PI = 3.14159265358979323846264338327950288419716939937510582097494459Q;
static inline Ser slgamma(const Ser& x0) {
    int M = x0.M();
    Ser x = x0, prod = scon(M, 1);
    int m = 0; while (x.a[0] + m < 36) m++;
    // reflection not needed: callers use x > 0 (for x<0 handled separately)
    for (int j = 0; j < m; j++) { Ser y = x0; y.a[0] += j; prod = prod * y; }
    x.a[0] += m;
    static const Q B[] = {1.Q/6, -1.Q/30, 1.Q/42, -1.Q/30, 5.Q/66, -691.Q/2730, 7.Q/6, -3617.Q/510, 43867.Q/798, -174611.Q/330,
        854513.Q/138, -236364091.Q/2730, 8553103.Q/6, -23749461029.Q/870};
    Ser lx = slog(x);
    Ser r = (x + (Q)-0.5Q) * lx - x; r.a[0] += logq(2 * Q_PI) / 2;
    Ser inv = scon(M, 1) / x, inv2 = inv * inv, pw = inv;
    for (int k = 1; k <= 14; k++) { r = r + pw * (B[k - 1] / ((Q)(2 * k) * (2 * k - 1))); pw = pw * inv2; }
    if (m > 0) r = r - slog(prod);
    return r;
}
// regularized lower incomplete gamma at a point
static inline Q qlgam(Q x) { Ser s = svar(0, x, 0); return slgamma(s).a[0]; }
static inline Q gammp(Q a, Q x) {
    if (x <= 0) return 0;
    Q lead = expq(a * logq(x) - x - qlgam(a + 1));
    if (x > a + 40 && x > 4 * a) { // upper tail by continued fraction (Lentz)
        Q b = x + 1 - a, c = 1e4000Q, d = 1 / b, h = d;
        for (int i = 1; i < 5000; i++) { Q an = -i * ((Q)i - a); b += 2; d = an * d + b; c = b + an / c; d = 1 / d; Q del = d * c; h *= del; if (fabsq(del - 1) < 1e-33Q) break; }
        return 1 - expq(a * logq(x) - x - qlgam(a)) * h;
    }
    Q s = 1, t = 1;
    for (int n = 1; n < 100000; n++) { t *= x / (a + n); s += t; if (t < s * 1e-36Q) break; }
    return lead * s;
}
static inline Q betai(Q a, Q b, Q x) {
    if (x <= 0) return 0; if (x >= 1) return 1;
    if (x > (a + 1) / (a + b + 2)) return 1 - betai(b, a, 1 - x);
    Q lb = qlgam(a) + qlgam(b) - qlgam(a + b);
    Q lead = expq(a * logq(x) + b * log1pq(-x) - lb) / a, s = 1, t = 1;
    for (int n = 0; n < 200000; n++) { t *= x * (a + b + n) / (a + 1 + n); s += t; if (t < s * 1e-36Q) break; }
    return lead * s;
}
static inline Ser sgammp(Q a, const Ser& x) {
    Q c = gammp(a, x.a[0]); Q lg = qlgam(a);
    Ser d = sexp(slog(x) * (a - 1) - x + (-lg));
    return sinteg(d, x, c);
}
static inline Ser sbetai(Q a, Q b, const Ser& x) {
    Q c = betai(a, b, x.a[0]); Q lb = qlgam(a) + qlgam(b) - qlgam(a + b);
    Ser om = x * (Q)-1 + (Q)1;
    Ser d = sexp(slog(x) * (a - 1) + slog(om) * (b - 1) + (-lb));
    return sinteg(d, x, c);
}
