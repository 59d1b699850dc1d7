// Engine A: symbolic execution of the LLVM IR over Taylor models with rounding-error bounds;
// every path's obligation is decided by z3 (real arithmetic).
// usage: acc PROGRAM JOBS   (see lib/acc.py)
#include "series.hpp"
#include <z3++.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <chrono>
#include <sys/resource.h>
#include <functional>
#include <array>
#include <pthread.h>
using namespace std;
typedef long double LD;
enum Op { ADD, SUB, MUL, SDIV, UDIV, SREM, UREM, AND_, OR_, XOR_, SHL, LSHR, ASHR, FADD, FSUB, FMUL, FDIV, FNEG, ICMP, FCMP,
    FPEXT, FPTRUNC, SITOFP, UITOFP, FPTOSI, FPTOUI, ZEXT, SEXT, TRUNC, BITCAST, SELECT, PHI, BR, CBR, RET, CALL, GEP, LOAD, STORE, ALLOCA, UNREACH, UNSUP, COPYSIGN, FABS };
static map<string, int> OPN = {{"add",ADD},{"sub",SUB},{"mul",MUL},{"sdiv",SDIV},{"udiv",UDIV},{"srem",SREM},{"urem",UREM},{"and",AND_},{"or",OR_},{"xor",XOR_},
    {"shl",SHL},{"lshr",LSHR},{"ashr",ASHR},{"fadd",FADD},{"fsub",FSUB},{"fmul",FMUL},{"fdiv",FDIV},{"fneg",FNEG},{"icmp",ICMP},{"fcmp",FCMP},{"fpext",FPEXT},{"fptrunc",FPTRUNC},
    {"sitofp",SITOFP},{"uitofp",UITOFP},{"fptosi",FPTOSI},{"fptoui",FPTOUI},{"zext",ZEXT},{"sext",SEXT},{"trunc",TRUNC},{"bitcast",BITCAST},{"select",SELECT},{"phi",PHI},
    {"br",BR},{"cbr",CBR},{"ret",RET},{"call",CALL},{"gep",GEP},{"load",LOAD},{"store",STORE},{"alloca",ALLOCA},{"unreachable",UNREACH},{"unsupported",UNSUP},{"copysign",COPYSIGN},{"fabs",FABS}};
// predicates
enum Pred { P_EQ, P_NE, P_SLT, P_SGT, P_SLE, P_SGE, P_ULT, P_UGT, P_ULE, P_UGE, F_OLT, F_OGT, F_OLE, F_OGE, F_OEQ, F_UNE, F_ULT, F_UGT, F_ULE, F_UGE, F_UNO, F_ORD, F_ONE, F_UEQ };
static map<string, int> PRN = {{"eq",P_EQ},{"ne",P_NE},{"slt",P_SLT},{"sgt",P_SGT},{"sle",P_SLE},{"sge",P_SGE},{"ult",P_ULT},{"ugt",P_UGT},{"ule",P_ULE},{"uge",P_UGE},
    {"olt",F_OLT},{"ogt",F_OGT},{"ole",F_OLE},{"oge",F_OGE},{"oeq",F_OEQ},{"une",F_UNE},{"fult",F_ULT},{"fugt",F_UGT},{"fule",F_ULE},{"fuge",F_UGE},{"uno",F_UNO},{"ord",F_ORD},{"one",F_ONE},{"ueq",F_UEQ}};
// types: 0 float 1 double 2 fp80 ; >=10: int of width ty-10 ; 5 ptr ; 6 void
struct Ins { int op, dest, ty, ty2; vector<int> a; vector<int> x; int pred; };
struct Blk { vector<Ins> ins; };
struct Fn { string name; int nregs, npar, rty; vector<Blk> b; };
struct Con { int kind; int ty; int64_t i; string f; };   // kind 0 int, 1 fp, 2 global, 3 undef
struct Gl { int ty; vector<string> v; };
static vector<Fn> FNS; static map<string, int> FIDX; static vector<Con> CONS; static vector<Gl> GLS;

static void loadprog(const char* fn) {
    ifstream in(fn); string tag;
    while (in >> tag) {
        if (tag == "C") { Con c; in >> c.kind >> c.ty; if (c.kind == 1) in >> c.f; else in >> c.i; CONS.push_back(c); }
        else if (tag == "G") { Gl g; int n; in >> g.ty >> n; for (int i = 0; i < n; i++) { string s; in >> s; g.v.push_back(s); } GLS.push_back(g); }
        else if (tag == "F") { Fn f; int nb; in >> f.name >> f.rty >> f.nregs >> f.npar >> nb; 
            for (int i = 0; i < nb; i++) { int ni; in >> tag >> ni; Blk b; 
                for (int j = 0; j < ni; j++) { Ins I; string op, pr; int na, nx; in >> op >> I.dest >> I.ty >> I.ty2 >> pr >> na; I.op = OPN.at(op); I.pred = PRN.count(pr) ? PRN[pr] : -1;
                    for (int k = 0; k < na; k++) { int v; in >> v; I.a.push_back(v); } in >> nx; for (int k = 0; k < nx; k++) { int v; in >> v; I.x.push_back(v); } b.ins.push_back(I); }
                f.b.push_back(b); }
            FIDX[f.name] = FNS.size(); FNS.push_back(f); }
    }
}
// strongly connected components of the call graph (id 0: not recursive)
static vector<int> SCC;
static void sccs() { int n = FNS.size(); vector<vector<int>> g(n); for (int i = 0; i < n; i++) for (auto& b : FNS[i].b) for (auto& I : b.ins) if (I.op == CALL) g[i].push_back(I.x[0]);
    vector<vector<char>> r(n, vector<char>(n, 0)); for (int i = 0; i < n; i++) { vector<int> st = g[i]; while (st.size()) { int k = st.back(); st.pop_back(); if (r[i][k]) continue; r[i][k] = 1; for (int q : g[k]) if (!r[i][q]) st.push_back(q); } }
    SCC.assign(n, 0); int c = 0; for (int i = 0; i < n; i++) if (r[i][i] && !SCC[i]) { c++; for (int j = 0; j < n; j++) if (r[i][j] && r[j][i]) SCC[j] = c; } }
static Q parseQ(const string& s) { return strtoflt128(s.c_str(), nullptr); }

template<class R> struct RT;
template<> struct RT<LD> { static LD abs(LD x) { return fabsl(x); } static constexpr LD eps = 0x1p-63L; static bool fin(LD x) { return std::isfinite(x); } static LD fromQ(Q q) { return (LD)q; } static bool nan(LD x) { return x != x; } static LD flr(LD x) { return floorl(x); } static LD trc(LD x) { return truncl(x); } static LD sqrt(LD x) { return sqrtl(x); } static bool sb(LD x) { return std::signbit(x); } };
template<> struct RT<Q> { static Q abs(Q x) { return fabsq(x); } static constexpr Q eps = 0x1p-112Q; static bool fin(Q x) { return finiteq(x); } static Q fromQ(Q q) { return q; } static bool nan(Q x) { return x != x; } static Q flr(Q x) { return floorq(x); } static Q trc(Q x) { return truncq(x); } static Q sqrt(Q x) { return sqrtq(x); } static bool sb(Q x) { return signbitq(x); } };

struct Split { double t1, t2; };
struct BoxFail { const char* why; };
struct Unsup { string why; };
struct TimeUp {};

static const int NM = 18, KN = 16;   // polynomial degree, noise symbols per value (at most; kn is the limit in use)
static const LD UU[3] = {0x1p-24L, 0x1p-53L, 0x1p-64L};
static const LD ETA[3] = {0x1p-150L, 0x1p-1075L, 0x1p-16445L};
static LD FMAX_[3];

static string hexQ(Q q) { char b[64]; quadmath_snprintf(b, sizeof b, "%.28Qa", q); return b; }

struct Job {
    string id, fn; int narg; int sym; vector<string> args; int fmt; int rfmt; string ref; vector<Q> rp; int tolkind; Q A, B; Q lo, hi; int deg; double tlimit; int maxdepth; double maxratio; string fn2; double hmax; int kn = 4, coll = 0;
};

static chrono::steady_clock::time_point T0 = chrono::steady_clock::now();
static double now() { return chrono::duration<double>(chrono::steady_clock::now() - T0).count(); }

template<class R> struct Eng {
    typedef RT<R> U;
    struct Val { int8_t kind; // 0 int, 1 fp const, 2 fp sym, 3 fbits(of id), 4 gptr, 5 lptr
        int w; int64_t i; R c; int nn; int id[KN]; R E, mag, nmag; R nm[KN]; R p[NM + 1]; R n[KN][NM + 1];
        int find(int k) const { for (int j = 0; j < nn; j++) if (id[j] == k) return j; return -1; }
        void copyfrom(const Val& s) { kind = s.kind; w = s.w; i = s.i; c = s.c; E = s.E; mag = s.mag; nmag = s.nmag; nn = s.nn; memcpy(p, s.p, sizeof p); for (int j = 0; j < nn; j++) { id[j] = s.id[j]; nm[j] = s.nm[j]; memcpy(n[j], s.n[j], sizeof n[j]); } } };
    int N; int kn = 4; bool collapse = false;
    vector<Val*> vals; vector<Val*> freel; size_t base = 0;
    int nidc = 0;
    unordered_map<uint64_t, vector<pair<array<int, 4>, int>>> cse;
    struct Dec { uint64_t key; int64_t v; double tlo, thi; vector<pair<int, int>> cons; /* (val id of diff poly, sign): sign*d <= W */ };
    vector<Dec> decs;
    struct Out { int v; vector<int> d; int dep = 0; /* call depth reached on this path */ };
    map<vector<int>, vector<Out>> cmemo;
    map<vector<int>, int> intmemo;
    long nops = 0, nforks = 0, npaths = 0, nqueries = 0, nsplits = 0, nbox = 0, nconc = 0; double ztime = 0; double deadline = 1e18;
    bool allowsplit = true; int callDepth = 0, maxDepthSeen = 0;
    vector<vector<int>> lmem;   // local memory objects
    z3::context zc; z3::solver* zs = nullptr;

    Val* nv() { Val* v; if (freel.size()) { v = freel.back(); freel.pop_back(); } else v = new Val; vals.push_back(v); if (vals.size() > 200000) throw BoxFail{"too many values"}; return v; }
    void reset() { while (vals.size() > base) { freel.push_back(vals.back()); vals.pop_back(); } cse.clear(); decs.clear(); cmemo.clear(); nidc = 0; lmem.clear(); 
        for (auto it = intmemo.begin(); it != intmemo.end();) if (it->second >= (int)base) it = intmemo.erase(it); else ++it; }
    int mkint(int w, int64_t i) {
        uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1); int64_t v = (int64_t)((uint64_t)i & m); if (w < 64 && w > 1 && (v >> (w - 1)) & 1) v |= ~(int64_t)m;
        vector<int> k = {0, w, (int)(v & 0xffffffff), (int)(v >> 32)}; auto it = intmemo.find(k); if (it != intmemo.end()) return it->second;
        Val* p = nv(); p->kind = 0; p->w = w; p->i = v; int id = vals.size() - 1; intmemo[k] = id; return id; }
    unordered_map<string, int> fcmemo_;
    int mkc(R c) { Val* p = nv(); p->kind = 1; p->c = c; p->E = 0; p->nn = 0; p->mag = U::abs(c); p->nmag = 0; return vals.size() - 1; }
    // canonical id for constants within a box
    map<pair<LD, LD>, int> cc;
    int mkcc(R c) {
        if (U::nan(c)) return mkc(c);
        LD h = (LD)c; LD l = U::fin(c) ? (LD)(c - (R)h) : 0; if (c == 0 && U::sb(c)) l = 1;
        auto k = make_pair(h, l); auto it = cc.find(k); if (it != cc.end() && it->second < (int)vals.size() && vals[it->second]->kind == 1 && vals[it->second]->c == c) return it->second;
        int id = mkc(c); cc[k] = id; return id; }
    static R roundto(int f, R x) { if (f == 0) return (R)(float)x; if (f == 1) return (R)(double)x; return (R)(LD)x; }
    static R natop(int op, int f, R a, R b) {
        if (f == 0) { volatile float x = (float)a, y = (float)b, r; r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; return (R)r; }
        if (f == 1) { volatile double x = (double)a, y = (double)b, r; r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; return (R)r; }
        volatile LD x = (LD)a, y = (LD)b, r; r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; return (R)r; }
    void load_consts() {
        for (auto& c : CONS) {
            if (c.kind == 0) mkint_raw(c.ty - 10, c.i);
            else if (c.kind == 1) { R v; if (c.f == "nan") v = (R)NAN; else if (c.f == "inf") v = (R)INFINITY; else if (c.f == "-inf") v = -(R)INFINITY; else v = U::fromQ(parseQ(c.f)); mkc(v); }
            else if (c.kind == 2) { Val* p = nv(); p->kind = 4; p->i = c.i; p->w = 0; }
            else { Val* p = nv(); p->kind = 1; p->c = (R)NAN; p->E = 0; p->nn = 0; p->mag = 0; p->nmag = 0; }
        }
        base = vals.size(); }
    void mkint_raw(int w, int64_t i) { Val* p = nv(); p->kind = 0; p->w = w; if (w < 64 && w > 1) { uint64_t m = (1ull << w) - 1; int64_t v = i & m; if ((v >> (w - 1)) & 1) v |= ~(int64_t)m; p->i = v; } else p->i = i; 
        int64_t v = p->i; vector<int> k = {0, w, (int)(v & 0xffffffff), (int)(v >> 32)}; if (!intmemo.count(k)) intmemo[k] = vals.size() - 1; }

    // ---- Taylor model helpers
    R sumabs(const R* p, int from = 0) { R s = 0; for (int i = from; i <= N; i++) s += U::abs(p[i]); return s; }
    R slack(const Val& v) { return v.kind == 1 ? (R)0 : v.E + v.nmag; }
    void getp(const Val& v, R* p) { if (v.kind == 1) { for (int i = 0; i <= N; i++) p[i] = 0; p[0] = v.c; } else for (int i = 0; i <= N; i++) p[i] = v.p[i]; }
    void noisemag(Val* v) { R t = 0; int k = 0; for (int j = 0; j < v->nn; j++) { R m = sumabs(v->n[j]) * (1 + 8 * U::eps); if (m == 0) continue; if (k != j) { v->id[k] = v->id[j]; memcpy(v->n[k], v->n[j], sizeof v->n[j]); } v->nm[k] = m; t += m; k++; } v->nn = k; v->nmag = t; }
    // add a noise term to v (folds the smallest into E when full)
    void addnoise(Val* v, int id, const R* n, R m) {
        if (m == 0) return; int j = v->find(id);
        if (j >= 0) { for (int i = 0; i <= N; i++) v->n[j][i] += n[i]; v->nm[j] = sumabs(v->n[j]); return; }
        if (v->nn >= kn) { int s = 0; for (int q = 1; q < v->nn; q++) if (v->nm[q] < v->nm[s]) s = q; if (v->nm[s] >= m) { v->E += m * (1 + 8 * U::eps); return; } v->E += v->nm[s] * (1 + 8 * U::eps); j = s; } else j = v->nn++;
        v->id[j] = id; v->nm[j] = m; for (int i = 0; i <= N; i++) v->n[j][i] = n[i]; }
    void fin(Val* v, int f, bool round) { // compute mags, add rounding error
        v->kind = 2; v->mag = sumabs(v->p) * (1 + 8 * U::eps); noisemag(v);
        if (!U::fin(v->mag) || !U::fin(v->E)) throw BoxFail{"overflow in model"};
        v->E = v->E * (1 + 8 * U::eps) + v->mag * U::eps * 2;
        if (round) { R m = v->mag + v->E + v->nmag; v->E += m * (R)UU[f] + (R)ETA[f]; }
        if (v->mag + v->E + v->nmag >= (R)FMAX_[f]) throw BoxFail{"possible overflow"};
    }
    void range(const Val& v, R& lo, R& hi) { if (v.kind == 1) { lo = hi = v.c; return; } R s = sumabs(v.p, 1), w = slack(v); lo = v.p[0] - s - w; hi = v.p[0] + s + w; R g = (U::abs(v.p[0]) + s + w) * U::eps * 4; lo -= g; hi += g;
        }
    R magof(const Val& v) { return v.kind == 1 ? U::abs(v.c) : v.mag; }
    // product of polynomials truncated at N; returns bound of the truncated part + coefficient rounding
    R pmul(const R* a, const R* b, R* r, R ma, R mb) {
        R t[NM + 1]; for (int i = 0; i <= N; i++) t[i] = 0;
        int da = N, db = N; while (da > 0 && a[da] == 0) da--; while (db > 0 && b[db] == 0) db--;
        for (int i = 0; i <= da; i++) if (a[i] != 0) for (int j = 0; j <= db && i + j <= N; j++) t[i + j] += a[i] * b[j];
        R tail = 0;
        if (da + db > N) { // sum_{i+j>N} |a_i||b_j|
            R suf[NM + 2]; suf[db + 1] = 0; for (int j = db; j >= 0; j--) suf[j] = suf[j + 1] + U::abs(b[j]);
            for (int i = 0; i <= da; i++) { int j0 = N - i + 1; if (j0 < 0) j0 = 0; if (j0 <= db) tail += U::abs(a[i]) * suf[j0]; }
        }
        for (int i = 0; i <= N; i++) r[i] = t[i];
        return tail * (1 + 8 * U::eps) + ma * mb * U::eps * (N + 3);
    }
    bool ispow2(R c) { if (c == 0 || !U::fin(c)) return false; int e; LD m = frexpl((LD)c, &e); return (R)(LD)c == c && fabsl(m) == 0.5L; }
    int addsub(int f, const Val& a, const Val& b, int sg) {
        Val* r = nv(); R pa[NM + 1], pb[NM + 1]; getp(a, pa); getp(b, pb);
        for (int i = 0; i <= N; i++) r->p[i] = sg > 0 ? pa[i] + pb[i] : pa[i] - pb[i];
        r->E = (a.kind == 2 ? a.E : 0) + (b.kind == 2 ? b.E : 0) + (magof(a) + magof(b)) * U::eps;
        r->nn = 0;
        if (a.kind == 2) for (int j = 0; j < a.nn; j++) addnoise(r, a.id[j], a.n[j], a.nm[j]);
        if (b.kind == 2) for (int j = 0; j < b.nn; j++) { if (sg > 0) addnoise(r, b.id[j], b.n[j], b.nm[j]); else { R t[NM + 1]; for (int i = 0; i <= N; i++) t[i] = -b.n[j][i]; addnoise(r, b.id[j], t, b.nm[j]); } }
        fin(r, f, true); return vals.size() - 1; }
    int mul(int f, const Val& a, const Val& b) {
        Val* r = nv(); R pa[NM + 1], pb[NM + 1]; getp(a, pa); getp(b, pb);
        R ma = magof(a), mb = magof(b), ea = a.kind == 2 ? a.E : 0, eb = b.kind == 2 ? b.E : 0;
        R nma = a.kind == 2 ? a.nmag : (R)0, nmb = b.kind == 2 ? b.nmag : (R)0;
        r->E = pmul(pa, pb, r->p, ma, mb) + ma * eb + mb * ea + ea * eb + nma * eb + nmb * ea + nma * nmb;
        r->nn = 0; R t[NM + 1];
        if (a.kind == 2) for (int j = 0; j < a.nn; j++) { r->E += pmul(a.n[j], pb, t, a.nm[j], mb); addnoise(r, a.id[j], t, sumabs(t)); }
        if (b.kind == 2) for (int j = 0; j < b.nn; j++) { r->E += pmul(b.n[j], pa, t, b.nm[j], ma); addnoise(r, b.id[j], t, sumabs(t)); }
        bool exact = (a.kind == 1 && ispow2(a.c)) || (b.kind == 1 && ispow2(b.c)); // barring underflow (ETA)
        if (exact) r->E += (R)ETA[f];
        fin(r, f, !exact); return vals.size() - 1; }
    int div(int f, const Val& a, const Val& b) {
        if (b.kind == 1 && ispow2(b.c)) { Val t = b; t.c = 1 / b.c; if (U::fin(t.c)) { t.mag = U::abs(t.c); return mul(f, a, t); } }
        if (b.kind == 1) { // scale by the reciprocal, tracked in R
            if (b.c == 0) throw BoxFail{"division by zero"};
            Val* r = nv(); R ma = a.mag; for (int i = 0; i <= N; i++) r->p[i] = a.p[i] / b.c; R ab = U::abs(b.c); r->E = a.E / ab + ma / ab * U::eps; r->nn = a.nn; for (int j = 0; j < a.nn; j++) { r->id[j] = a.id[j]; for (int i = 0; i <= N; i++) r->n[j][i] = a.n[j][i] / b.c; r->E += a.nm[j] / ab * U::eps; }
            fin(r, f, true); return vals.size() - 1; }
        R q0 = b.p[0], s = sumabs(b.p, 1), W = slack(b); R qmin = U::abs(q0) - s;
        if (!(qmin > W * (R)1.0000001L) || q0 == 0) throw BoxFail{"divisor may vanish"};
        R inv[NM + 1]; inv[0] = 1 / q0;
        for (int k = 1; k <= N; k++) { R t = 0; for (int i = 1; i <= k; i++) t += b.p[i] * inv[k - i]; inv[k] = -t * inv[0]; }
        R im = sumabs(inv);
        // residual 1 - b*inv : full product
        R delta = 0; { for (int k = 0; k <= 2 * N; k++) { R t = 0, ta = 0; for (int i = max(0, k - N); i <= min(k, N); i++) { t += b.p[i] * inv[k - i]; ta += U::abs(b.p[i] * inv[k - i]); } if (k == 0) t -= 1; delta += U::abs(t) + ta * U::eps * (N + 3); } }
        if (!(delta < (R)0.5L)) throw BoxFail{"reciprocal series diverges"};
        R rho = im * delta / (1 - delta);
        Val ib; ib.kind = 2; for (int i = 0; i <= N; i++) ib.p[i] = inv[i]; ib.mag = im; R eb = b.E, nb = b.nmag;
        R iq = min(im + rho, 1 / qmin);   // bound of |1/q|
        ib.E = rho + eb * iq * iq + W * W * iq * iq / (qmin - W);
        ib.nn = 0; ib.nmag = 0;
        if (b.nn) { R i2[NM + 1]; ib.E += pmul(inv, inv, i2, im, im) * nb + 2 * nb * im * rho + nb * rho * rho; R m2 = sumabs(i2); ib.nn = b.nn;
            for (int j = 0; j < b.nn; j++) { ib.id[j] = b.id[j]; ib.E += pmul(b.n[j], i2, ib.n[j], b.nm[j], m2); for (int i = 0; i <= N; i++) ib.n[j][i] = -ib.n[j][i]; } noisemag(&ib); }
        ib.c = 0;
        if (a.kind == 1) { // c * (1/b)
            return mulround(f, a, ib); }
        return mulround(f, a, ib); }
    int mulround(int f, const Val& a, const Val& b) { // like mul but always rounds once
        int id = mul(f, a, b); Val* r = vals[id]; bool exact = (a.kind == 1 && ispow2(a.c)); if (exact) { R m = r->mag + r->E + r->nmag; r->E += m * (R)UU[f]; } return id; }

    // ---- decisions
    struct Alt { int v; int dec; };
    bool interval_of(const Val& d, R W, double& z1, double& z2, int& dir) { // monotone diff poly: zone where |d|<=W
        R c1 = d.p[1], s = 0; for (int k = 2; k <= N; k++) s += k * U::abs(d.p[k]);
        if (!(U::abs(c1) > s) || c1 == 0) return false;
        dir = c1 > 0 ? 1 : -1;
        auto ev = [&](double t) { R r = 0; for (int k = N; k >= 0; k--) r = r * (R)t + d.p[k]; return dir > 0 ? r : -r; };
        // solve ev(t) = -W and ev(t) = +W (increasing)
        auto solve = [&](R y) { double lo = -1, hi = 1; if (ev(-1) >= y) return -1.0; if (ev(1) <= y) return 1.0; for (int i = 0; i < 80; i++) { double m = (lo + hi) / 2; if (m == lo || m == hi) break; if (ev(m) < y) lo = m; else hi = m; } return (lo + hi) / 2; };
        z1 = solve(-W); z2 = solve(W); return true; }
    double boxfloats = 1e18; // number of floats in the box (approx)
    // compare a ? b : returns alternatives of sign: decide (a<b) etc.  rel: 0 lt,1 le,2 eq
    void cmp(int rel, int ia, int ib, vector<pair<int, int>>& out, vector<int>* pcd) {
        const Val &a = *vals[ia], &b = *vals[ib];
        if (a.kind == 1 && b.kind == 1) { bool r = rel == 0 ? a.c < b.c : rel == 1 ? a.c <= b.c : a.c == b.c; out.push_back({r, -1}); return; }
        if (ia == ib) { out.push_back({rel != 0, -1}); return; }
        if ((a.kind == 1 && !U::fin(a.c)) || (b.kind == 1 && !U::fin(b.c))) {
            bool r; if ((a.kind == 1 && U::nan(a.c)) || (b.kind == 1 && U::nan(b.c))) r = false;
            else if (a.kind == 1) r = rel == 2 ? false : a.c < 0; else r = rel == 2 ? false : b.c > 0;
            out.push_back({r, -1}); return; }
        // diff
        Val d; R pa[NM + 1], pb[NM + 1]; getp(a, pa); getp(b, pb);
        for (int i = 0; i <= N; i++) d.p[i] = pa[i] - pb[i];
        R W = (a.kind == 2 ? a.E : 0) + (b.kind == 2 ? b.E : 0) + (magof(a) + magof(b)) * U::eps * 2;
        R nm = 0; if (a.kind == 2) for (int j = 0; j < a.nn; j++) { int q = b.kind == 2 ? b.find(a.id[j]) : -1; if (q < 0) nm += a.nm[j]; else for (int i = 0; i <= N; i++) nm += U::abs(a.n[j][i] - b.n[q][i]); }
        if (b.kind == 2) for (int j = 0; j < b.nn; j++) if (a.kind != 2 || a.find(b.id[j]) < 0) nm += b.nm[j];
        W += nm; W *= (1 + 16 * U::eps);
        R s = sumabs(d.p, 1); R lo = d.p[0] - s - W, hi = d.p[0] + s + W;
        if (hi < 0) { out.push_back({rel != 2, -1}); return; }
        if (lo > 0) { out.push_back({0, -1}); return; }
        // undecided by the crude bound; try the monotone bound
        double z1 = -1, z2 = 1; int dir = 0; bool mono = interval_of(d, W, z1, z2, dir);
        uint64_t key = ((uint64_t)(uint32_t)ia << 33) ^ ((uint64_t)(uint32_t)ib << 2) ^ rel;
        if (mono) {
            if (z1 >= 1 - 1e-13) { /* d <= -W on whole box (up to the end point) */ auto ev1 = [&](double t) { R r = 0; for (int k = N; k >= 0; k--) r = r * (R)t + d.p[k]; return r; }; R m = max(ev1(1), ev1(-1)), mn = min(ev1(1), ev1(-1)); if (dir > 0 ? m < -W : mn > W) { out.push_back({dir > 0 ? (rel != 2) : 0, -1}); return; } }
            if (z2 <= -1 + 1e-13) { auto ev1 = [&](double t) { R r = 0; for (int k = N; k >= 0; k--) r = r * (R)t + d.p[k]; return r; }; R m = max(ev1(1), ev1(-1)), mn = min(ev1(1), ev1(-1)); if (dir > 0 ? mn > W : m < -W) { out.push_back({dir > 0 ? 0 : (rel != 2), -1}); return; } }
            if (allowsplit && (z2 - z1) < 0.6 && boxfloats > 4) throw Split{z1, z2};
        } else { z1 = -1; z2 = 1; if (allowsplit && s > 2 * W && boxfloats > 64) throw Split{2, 2}; }
        nforks++;
        // constraint polynomials
        Val* dv = nv(); for (int i = 0; i <= N; i++) dv->p[i] = d.p[i]; dv->kind = 2; dv->E = W; dv->nn = 0; dv->nmag = 0; dv->mag = sumabs(dv->p); int did = vals.size() - 1;
        Dec T, F; T.key = F.key = key; T.v = 1; F.v = 0; T.tlo = F.tlo = -1; T.thi = F.thi = 1;
        if (rel < 2) { T.cons.push_back({did, 1}); F.cons.push_back({did, -1}); if (mono) { if (dir > 0) { T.thi = z2; F.tlo = z1; } else { T.tlo = z1; F.thi = z2; } } }
        else { T.cons.push_back({did, 1}); T.cons.push_back({did, -1}); if (mono) { T.tlo = z1; T.thi = z2; } }
        decs.push_back(T); out.push_back({1, (int)decs.size() - 1}); decs.push_back(F); out.push_back({0, (int)decs.size() - 1});
    }
    bool compat(const vector<int>& pc, const vector<int>& nd, vector<int>& res) {
        double lo = -1, hi = 1; for (int k : pc) { lo = max(lo, decs[k].tlo); hi = min(hi, decs[k].thi); }
        res = pc;
        for (int k : nd) { bool dup = false; for (int q : pc) if (decs[q].key == decs[k].key) { if (decs[q].v != decs[k].v) return false; dup = true; } lo = max(lo, decs[k].tlo); hi = min(hi, decs[k].thi); if (!dup) res.push_back(k); }
        return lo <= hi + 1e-12; }

    int owner = 0; vector<int> onstack; // activations per function
    int one_symbol(int id) { int cid; if (lookup(1001, id, 0, 0, cid)) return cid; Val* r = nv(); Val& s = *vals[id]; r->copyfrom(s); R tot = s.E + s.nmag; r->E = 0; r->nn = 1; r->id[0] = ++nidc; for (int i = 0; i <= N; i++) r->n[0][i] = 0; r->n[0][0] = tot; noisemag(r); int nid = vals.size() - 1; insert(1001, id, 0, 0, nid); return nid; }
    // iterations written as recursion: one fresh noise symbol per argument that is not correlated with the others
    void collapse_args(vector<int>& args) { vector<int> o = args;
        for (size_t k = 0; k < args.size(); k++) { Val& v = *vals[o[k]]; if (v.kind != 2) continue; R tot = v.E + v.nmag; if (tot <= v.mag * U::eps * 64 || tot == 0) continue; R sh = 0, mx = 0; for (int j = 0; j < v.nn; j++) { mx = max(mx, v.nm[j]); for (size_t q = 0; q < args.size(); q++) if (o[q] != o[k] && vals[o[q]]->kind == 2 && vals[o[q]]->find(v.id[j]) >= 0) { sh += v.nm[j]; break; } }
            if (sh > tot / 2 || (v.E <= tot / 8 && mx > tot * (R)0.7L)) continue; args[k] = one_symbol(o[k]); } }
    int rebase(int id, int f) { // turn accumulated error into a fresh noise symbol so that contraction is visible
        Val& v = *vals[id]; if (v.kind != 2) return id; if (v.E <= (R)UU[f] * 4 * v.mag || v.E <= v.nmag * (R)0.125L) return id;
        int cid; if (lookup(1000, id, 0, f, cid)) return cid;
        Val* r = nv(); Val& s = *vals[id]; r->copyfrom(s); R tot = s.E; r->E = 0; int j; if (r->nn >= kn) { j = 0; for (int q = 1; q < r->nn; q++) if (r->nm[q] < r->nm[j]) j = q; tot += r->nm[j]; } else j = r->nn++;
        r->id[j] = ++nidc; for (int i = 0; i <= N; i++) r->n[j][i] = 0; r->n[j][0] = tot; noisemag(r); int nid = vals.size() - 1; insert(1000, id, 0, f, nid); return nid; }
    bool lookup(int op, int a, int b, int f, int& out) { uint64_t h = ((uint64_t)a * 1000003u) ^ ((uint64_t)b * 7919u) ^ ((uint64_t)op << 48) ^ ((uint64_t)f << 44); auto it = cse.find(h); if (it == cse.end()) return false; for (auto& e : it->second) if (e.first[0] == op && e.first[1] == a && e.first[2] == b && e.first[3] == f) { out = e.second; return true; } return false; }
    void insert(int op, int a, int b, int f, int v) { uint64_t h = ((uint64_t)a * 1000003u) ^ ((uint64_t)b * 7919u) ^ ((uint64_t)op << 48) ^ ((uint64_t)f << 44); cse[h].push_back({{op, a, b, f}, v}); }

    int fparith(int op, int f, int ia, int ib) {
        Val &a = *vals[ia], &b = *vals[ib];
        if (a.kind == 1 && b.kind == 1) return mkcc(natop(op, f, a.c, b.c));
        int r; if (lookup(op, ia, ib, f, r)) return r;
        nops++; if ((nops & 255) == 0 && now() > deadline) throw TimeUp{};
        if ((a.kind == 1 && !U::fin(a.c)) || (b.kind == 1 && !U::fin(b.c))) {
            R lo, hi; // symbolic finite with inf / nan
            const Val& s = a.kind == 1 ? b : a; R k = a.kind == 1 ? a.c : b.c; range(s, lo, hi);
            if (U::nan(k)) return mkcc(k);
            if (op == FADD) return mkcc(k); if (op == FSUB) return mkcc(a.kind == 1 ? k : -k);
            if (op == FMUL && (lo > 0 || hi < 0)) return mkcc(lo > 0 ? k : -k);
            if (op == FDIV && b.kind == 1) return mkcc(0); if (op == FDIV && (lo > 0 || hi < 0)) return mkcc(lo > 0 ? k : -k);
            throw BoxFail{"inf arithmetic"}; }
        if (op == FMUL || op == FDIV) { // the whole box overflows: infinity
            R al, ah, bl, bh; range(a, al, ah); range(b, bl, bh);
            if ((al > 0 || ah < 0) && (bl > 0 || bh < 0)) { R na = al > 0 ? al : -ah, nb = op == FMUL ? (bl > 0 ? bl : -bh) : (bl > 0 ? bh : -bl); R m = op == FMUL ? na * nb : na / nb; if (m > (R)FMAX_[f] * (1 + 4 * (R)UU[f]) || !U::fin(m)) { r = mkcc((al > 0) == (bl > 0) ? (R)INFINITY : -(R)INFINITY); insert(op, ia, ib, f, r); return r; }
                R xa = al > 0 ? ah : -al, xb = op == FMUL ? (bl > 0 ? bh : -bl) : (bl > 0 ? bl : -bh); R M = op == FMUL ? xa * xb : xa / xb; if (!(M < (R)FMAX_[f])) throw BoxFail{"possible overflow"}; } }
        if (op == FADD) { if (b.kind == 1 && b.c == 0) r = ia; else if (a.kind == 1 && a.c == 0) r = ib; else r = addsub(f, a, b, 1); }
        else if (op == FSUB) { if (b.kind == 1 && b.c == 0) r = ia; else if (ia == ib) r = mkcc(0); else r = addsub(f, a, b, -1); }
        else if (op == FMUL) { if (a.kind == 1 && a.c == 1) r = ib; else if (b.kind == 1 && b.c == 1) r = ia; else if ((a.kind == 1 && a.c == 0) || (b.kind == 1 && b.c == 0)) r = mkcc(0); else r = mul(f, a, b); }
        else { if (b.kind == 1 && b.c == 1) r = ia; else if (a.kind == 1 && a.c == 0) { R lo, hi; range(b, lo, hi); if (lo <= 0 && hi >= 0) throw BoxFail{"0/maybe0"}; r = mkcc(0); } else r = div(f, a, b); }
        insert(op, ia, ib, f, r); return r; }

    int opnd(int a, const vector<int>& env) { if (a < 0) return -a - 1; return env[a]; }
    void call(int fi, const vector<int>& args0, vector<Out>& outs) {
        if (callDepth > 20000) throw BoxFail{"recursion too deep"};
        Fn& F = FNS[fi]; vector<int> args = args0; if (collapse) { if (onstack.size() < FNS.size()) onstack.resize(FNS.size(), 0); if (onstack[fi] && SCC[fi] == owner) collapse_args(args); }
        vector<int> key; key.push_back(fi); bool mem = true; for (int a : args) { key.push_back(a); if (vals[a]->kind == 5) mem = false; }
        if (mem) { auto it = cmemo.find(key); if (it != cmemo.end()) { outs = it->second; return; } }
        callDepth++; maxDepthSeen = max(maxDepthSeen, callDepth);
        vector<int> env(F.nregs, -1); for (int i = 0; i < F.npar; i++) env[i] = args[i];
        vector<Out> res; vector<int> pc;
        int prevOwner = owner; if (collapse) { onstack[fi]++; if (!owner) owner = SCC[fi]; }
        try { run(F, 0, 0, -1, env, pc, res, 0); } catch (...) { callDepth--; owner = prevOwner; if (collapse) onstack[fi]--; throw; }
        callDepth--; owner = prevOwner; if (collapse) onstack[fi]--;
        for (auto& q : res) q.dep++;
        merge(res, F.rty);
        if (res.size() > 48) throw BoxFail{"too many paths"};
        if (mem) cmemo[key] = res; outs = res; }
    void merge(vector<Out>& o, int rty) {
        if (o.size() <= 1) return;
        vector<Out> r;
        for (auto& x : o) {
            bool done = false;
            for (auto& y : r) {
                if (x.v == y.v) { y.d = common(x.d, y.d); y.dep = max(x.dep, y.dep); done = true; break; }
                Val &a = *vals[x.v], &b = *vals[y.v];
                if (a.kind == 0 && b.kind == 0 && a.i == b.i) { y.d = common(x.d, y.d); y.dep = max(x.dep, y.dep); done = true; break; }
                if (rty <= 2 && (a.kind == 2 || b.kind == 2) && a.kind <= 2 && b.kind <= 2 && a.kind > 0 && b.kind > 0) {
                    if ((a.kind == 1 && !U::fin(a.c)) || (b.kind == 1 && !U::fin(b.c))) continue;
                    R pa[NM + 1], pb[NM + 1]; getp(a, pa); getp(b, pb); R df = 0, mg = 0; for (int i = 0; i <= N; i++) { df += U::abs(pa[i] - pb[i]); mg += U::abs(pb[i]); }
                    R wa = slack(a), wb = slack(b);
                    if (df <= 4 * (wa + wb) + mg * (R)UU[rty] * 32) {
                        // keep y's polynomial (and noise if same id)
                        Val* m = nv(); Val &A = *vals[x.v], &Bv = *vals[y.v]; 
                        m->kind = 2; for (int i = 0; i <= N; i++) m->p[i] = pb[i];
                        m->nn = 0; R eb = Bv.kind == 2 ? Bv.E : (R)0, ea = (A.kind == 2 ? A.E : (R)0) + df;
                        if (Bv.kind == 2) for (int j = 0; j < Bv.nn; j++) { int q = A.kind == 2 ? A.find(Bv.id[j]) : -1; if (q < 0) { eb += Bv.nm[j]; continue; } R dn = 0; for (int i = 0; i <= N; i++) dn += U::abs(A.n[q][i] - Bv.n[j][i]); if (dn >= Bv.nm[j]) { eb += Bv.nm[j]; ea += A.nm[q]; continue; } ea += dn; addnoise(m, Bv.id[j], Bv.n[j], Bv.nm[j]); }
                        if (A.kind == 2) for (int j = 0; j < A.nn; j++) if (Bv.kind != 2 || Bv.find(A.id[j]) < 0) ea += A.nm[j];
                        m->E = max(ea, eb) * (1 + 8 * U::eps);
                        m->E += mg * U::eps * 4; m->mag = mg * (1 + 8 * U::eps); noisemag(m);
                        y.v = vals.size() - 1; y.d = common(x.d, y.d); y.dep = max(x.dep, y.dep); done = true; break; }
                }
            }
            if (!done) r.push_back(x);
        }
        o.swap(r); }
    vector<int> common(const vector<int>& a, const vector<int>& b) { vector<int> r; for (int k : a) for (int q : b) if (k == q) r.push_back(k); return r; }
    long fuel = 0; int forkNest = 0;
    void run(Fn& F, int blk, int ip, int prev, vector<int>& env, vector<int>& pc, vector<Out>& outs, int dep) {
        while (true) {
            Blk& B = F.b[blk];
            if (ip == 0) { // phis
                vector<pair<int, int>> nw; 
                while (ip < (int)B.ins.size() && B.ins[ip].op == PHI) { Ins& I = B.ins[ip]; int k = -1; for (size_t q = 0; q < I.x.size(); q++) if (I.x[q] == prev) k = q; if (k < 0) throw Unsup{"phi"}; int v = opnd(I.a[k], env); if (I.ty <= 2) v = rebase(v, I.ty); nw.push_back({I.dest, v}); ip++; }
                for (auto& p : nw) env[p.first] = p.second; }
            if (++fuel > 20000000) throw BoxFail{"fuel"};
            if ((fuel & 4095) == 0 && now() > deadline) throw TimeUp{};
            bool jumped = false;
            for (; ip < (int)B.ins.size(); ip++) {
                Ins& I = B.ins[ip];
                switch (I.op) {
                case BR: prev = blk; blk = I.x[0]; ip = 0; jumped = true; break;
                case CBR: { Val& c = *vals[opnd(I.a[0], env)]; prev = blk; blk = I.x[(c.i & 1) ? 0 : 1]; ip = 0; jumped = true; break; }
                case RET: { Out o; o.v = I.a.empty() ? -1 : opnd(I.a[0], env); o.d = pc; o.dep = dep; outs.push_back(o); if (outs.size() > 400) throw BoxFail{"too many paths"}; return; }
                case UNREACH: return;
                case UNSUP: throw Unsup{"instruction"};
                case CALL: {
                    vector<int> args; Fn& G = FNS[I.x[0]]; for (size_t k = 0; k < I.a.size(); k++) { int v = opnd(I.a[k], env); if (vals[v]->kind == 2 && I.x.size() > 1 + k && I.x[1 + k] <= 2) v = rebase(v, I.x[1 + k]); args.push_back(v); } (void)G;
                    vector<Out> o; call(I.x[0], args, o);
                    if (o.size() == 1) { vector<int> np; if (!compat(pc, o[0].d, np)) return; pc.swap(np); dep = max(dep, o[0].dep); if (I.dest >= 0) env[I.dest] = o[0].v; break; }
                    for (auto& z : o) { vector<int> np; if (!compat(pc, z.d, np)) continue; vector<int> e2 = env; if (I.dest >= 0) e2[I.dest] = z.v; run(F, blk, ip + 1, prev, e2, np, outs, max(dep, z.dep)); }
                    return; }
                default: {
                    vector<pair<int, int>> alts; // (value id, dec)
                    step(I, env, alts);
                    if (alts.size() == 1) { if (I.dest >= 0) env[I.dest] = alts[0].first; }
                    else {
                        // known decision?
                        for (auto& al : alts) { vector<int> np; vector<int> nd = {al.second}; if (!compat(pc, nd, np)) continue; if (np.size() > 30) throw BoxFail{"too many undecided branches"}; vector<int> e2 = env; e2[I.dest] = al.first; if (++forkNest > 130) throw BoxFail{"too many undecided branches"}; run(F, blk, ip + 1, prev, e2, np, outs, dep); forkNest--; }
                        return; }
                } }
                if (jumped) break;
            }
            if (!jumped) throw Unsup{"fallthrough"};
        } }
    int64_t zx(const Val& v) { if (v.w >= 64) return v.i; return v.i & ((1ll << v.w) - 1); }
    void step(Ins& I, vector<int>& env, vector<pair<int, int>>& alts) {
        auto one = [&](int v) { alts.push_back({v, -1}); };
        auto A = [&](int k) -> int { return opnd(I.a[k], env); };
        switch (I.op) {
        case ADD: case SUB: case MUL: case SDIV: case UDIV: case SREM: case UREM: case AND_: case OR_: case XOR_: case SHL: case LSHR: case ASHR: {
            Val &a = *vals[A(0)], &b = *vals[A(1)]; if (a.kind || b.kind) throw Unsup{"int op on non-int"}; int w = a.w; int64_t x = a.i, y = b.i, r = 0; uint64_t ux = zx(a), uy = zx(b);
            switch (I.op) { case ADD: r = (int64_t)((uint64_t)x + (uint64_t)y); break; case SUB: r = (int64_t)((uint64_t)x - (uint64_t)y); break; case MUL: r = (int64_t)((uint64_t)x * (uint64_t)y); break;
                case SDIV: if (!y || (y == -1 && x == INT64_MIN)) throw BoxFail{"int division"}; r = x / y; break; case SREM: if (!y || y == -1) { if (!y) throw BoxFail{"int division"}; r = 0; break; } r = x % y; break;
                case UDIV: if (!uy) throw BoxFail{"int division"}; r = ux / uy; break; case UREM: if (!uy) throw BoxFail{"int division"}; r = ux % uy; break;
                case AND_: r = x & y; break; case OR_: r = x | y; break; case XOR_: r = x ^ y; break; case SHL: r = y >= 64 ? 0 : (int64_t)(ux << uy); break; case LSHR: r = uy >= 64 ? 0 : ux >> uy; break; case ASHR: r = x >> min<int64_t>(y, 63); break; }
            one(mkint(w, r)); return; }
        case FADD: case FSUB: case FMUL: case FDIV: one(fparith(I.op, I.ty, A(0), A(1))); return;
        case FNEG: { int ia = A(0); Val& a = *vals[ia]; if (a.kind == 1) { one(mkcc(-a.c)); return; } int r; if (lookup(FNEG, ia, 0, 0, r)) { one(r); return; }
            Val* v = nv(); Val& s = *vals[ia]; v->copyfrom(s); for (int i = 0; i <= N; i++) { v->p[i] = -s.p[i]; for (int j = 0; j < s.nn; j++) v->n[j][i] = -s.n[j][i]; } r = vals.size() - 1; insert(FNEG, ia, 0, 0, r); insert(FNEG, r, 0, 0, ia); one(r); return; }
        case FABS: { int ia = A(0); Val& a = *vals[ia]; if (a.kind == 1) { one(mkcc(U::abs(a.c))); return; } R lo, hi; range(a, lo, hi); if (lo >= 0) { one(ia); return; } Ins J = I; J.op = FNEG; if (hi <= 0) { step(J, env, alts); return; }
            vector<pair<int, int>> al; cmp(0, ia, mkcc(0), al, nullptr); for (auto& x : al) { if (x.first) { vector<pair<int, int>> t; step(J, env, t); alts.push_back({t[0].first, x.second}); } else alts.push_back({ia, x.second}); } return; }
        case COPYSIGN: { Val &b = *vals[A(1)]; bool ng; if (b.kind == 1) ng = U::sb(b.c); else { R lo, hi; range(b, lo, hi); if (lo > 0) ng = false; else if (hi < 0) ng = true; else throw BoxFail{"copysign"}; }
            int ia = A(0); Val& a = *vals[ia]; if (a.kind == 1) { one(mkcc(ng ? -U::abs(a.c) : U::abs(a.c))); return; } R lo, hi; range(a, lo, hi); bool an; if (lo > 0) an = false; else if (hi < 0) an = true; else throw BoxFail{"copysign"};
            if (an == ng) { one(ia); return; } Ins J = I; J.op = FNEG; step(J, env, alts); return; }
        case ICMP: { Val &a = *vals[A(0)], &b = *vals[A(1)];
            if (a.kind == 3) { if (I.pred == P_SLT && b.kind == 0 && b.i == 0) { Val& s = *vals[a.i]; if (s.kind == 1) { one(mkint(1, U::sb(s.c))); return; } vector<pair<int, int>> al; cmp(0, a.i, mkcc(0), al, nullptr); for (auto& x : al) alts.push_back({mkint(1, x.first), x.second}); return; } throw Unsup{"icmp fbits"}; }
            if (a.kind || b.kind) throw Unsup{"icmp"}; int64_t x = a.i, y = b.i; uint64_t ux = zx(a), uy = zx(b); bool r = false;
            switch (I.pred) { case P_EQ: r = ux == uy; break; case P_NE: r = ux != uy; break; case P_SLT: r = x < y; break; case P_SGT: r = x > y; break; case P_SLE: r = x <= y; break; case P_SGE: r = x >= y; break; case P_ULT: r = ux < uy; break; case P_UGT: r = ux > uy; break; case P_ULE: r = ux <= uy; break; case P_UGE: r = ux >= uy; break; }
            one(mkint(1, r)); return; }
        case FCMP: { int ia = A(0), ib = A(1); Val &a = *vals[ia], &b = *vals[ib]; bool nan = (a.kind == 1 && U::nan(a.c)) || (b.kind == 1 && U::nan(b.c));
            int p = I.pred; if (p == F_UNO) { one(mkint(1, nan)); return; } if (p == F_ORD) { one(mkint(1, !nan)); return; }
            if (nan) { one(mkint(1, p == F_UNE || p == F_ULT || p == F_UGT || p == F_ULE || p == F_UGE || p == F_UEQ)); return; }
            int rel, x = ia, y = ib; bool neg = false;
            switch (p) { case F_OLT: case F_ULT: rel = 0; break; case F_OGT: case F_UGT: rel = 0; swap(x, y); break; case F_OLE: case F_ULE: rel = 0; swap(x, y); neg = true; break; case F_OGE: case F_UGE: rel = 0; neg = true; break; case F_OEQ: case F_UEQ: rel = 2; break; case F_UNE: case F_ONE: rel = 2; neg = true; break; default: throw Unsup{"fcmp"}; }
            vector<pair<int, int>> al; cmp(rel, x, y, al, nullptr); for (auto& z : al) alts.push_back({mkint(1, neg ? !z.first : z.first), z.second}); return; }
        case FPEXT: { one(A(0)); return; }
        case FPTRUNC: { int ia = A(0); Val& a = *vals[ia]; if (a.kind == 1) { one(mkcc(roundto(I.ty, a.c))); return; } int r; if (lookup(FPTRUNC, ia, 0, I.ty, r)) { one(r); return; } Val* v = nv(); v->copyfrom(*vals[ia]); fin(v, I.ty, true); r = vals.size() - 1; insert(FPTRUNC, ia, 0, I.ty, r); one(r); return; }
        case SITOFP: { Val& a = *vals[A(0)]; if (a.kind) throw Unsup{"sitofp"}; if (I.ty == 0) one(mkcc((R)(float)a.i)); else if (I.ty == 1) one(mkcc((R)(double)a.i)); else one(mkcc((R)(LD)a.i)); return; }
        case UITOFP: { Val& a = *vals[A(0)]; if (a.kind) throw Unsup{"uitofp"}; uint64_t u = zx(a); if (I.ty == 0) one(mkcc((R)(float)u)); else if (I.ty == 1) one(mkcc((R)(double)u)); else one(mkcc((R)(LD)u)); return; }
        case FPTOSI: case FPTOUI: { int ia = A(0); Val& a = *vals[ia]; int w = I.ty - 10; LD lim = I.op == FPTOSI ? ldexpl(1, w - 1) : ldexpl(1, w);
            auto conv = [&](R x) -> int { R t = U::trc(x); if (!(t < (R)lim) || t < (I.op == FPTOSI ? -(R)lim : (R)0)) throw BoxFail{"float to int out of range"}; return I.op == FPTOSI ? mkint(w, (int64_t)t) : mkint(w, (int64_t)(uint64_t)t); };
            if (a.kind == 1) { if (!U::fin(a.c)) throw BoxFail{"float to int out of range"}; one(conv(a.c)); return; }
            R lo, hi; range(a, lo, hi); R tl = U::trc(lo), th = U::trc(hi); if (tl == th) { one(conv(tl)); return; }
            if (th - tl > 1) throw Split{2, 2};
            // boundary between tl and th=tl+1:  th>0: v >= th -> th ; else v > tl -> th
            R bd = th > 0 ? th : tl; vector<pair<int, int>> al;
            if (th > 0) { cmp(0, ia, mkcc(bd), al, nullptr); for (auto& z : al) alts.push_back({conv(z.first ? tl : th), z.second}); }
            else { cmp(0, mkcc(bd), ia, al, nullptr); for (auto& z : al) alts.push_back({conv(z.first ? th : tl), z.second}); }
            return; }
        case ZEXT: one(mkint(I.ty - 10, zx(*vals[A(0)]))); return;
        case SEXT: { Val& a = *vals[A(0)]; one(mkint(I.ty - 10, a.w == 1 ? -(a.i & 1) : a.i)); return; }
        case TRUNC: one(mkint(I.ty - 10, vals[A(0)]->i)); return;
        case BITCAST: { int ia = A(0); Val* v = nv(); v->kind = 3; v->i = ia; v->w = 0; one(vals.size() - 1); return; }
        case SELECT: one((vals[A(0)]->i & 1) ? A(1) : A(2)); return;
        case ALLOCA: { lmem.push_back(vector<int>()); Val* v = nv(); v->kind = 5; v->i = lmem.size() - 1; v->w = 0; one(vals.size() - 1); return; }
        case GEP: { Val b = *vals[A(0)]; if (b.kind != 4 && b.kind != 5) throw Unsup{"gep"}; int64_t off; if (I.a.size() == 3) { off = vals[A(2)]->i; } else off = vals[A(1)]->i; if (vals[A(I.a.size() - 1)]->kind) throw Unsup{"gep idx"}; Val* v = nv(); v->kind = b.kind; v->i = b.i; v->w = b.w + (int)off; one(vals.size() - 1); return; }
        case LOAD: { Val b = *vals[A(0)]; if (b.kind == 4) { Gl& g = GLS[b.i]; if (b.w < 0 || b.w >= (int)g.v.size()) throw BoxFail{"table index out of bounds"}; if (g.ty != I.ty) throw Unsup{"load type"}; if (I.ty <= 2) one(mkcc(U::fromQ(parseQ(g.v[b.w])))); else one(mkint(I.ty - 10, atoll(g.v[b.w].c_str()))); return; }
            if (b.kind == 5) { auto& m = lmem[b.i]; if (b.w < 0 || b.w >= (int)m.size() || m[b.w] < 0) throw Unsup{"uninit load"}; one(m[b.w]); return; } throw Unsup{"load"}; }
        case STORE: { Val b = *vals[A(1)]; if (b.kind != 5) throw Unsup{"store"}; auto& m = lmem[b.i]; if ((int)m.size() <= b.w) m.resize(b.w + 1, -1); m[b.w] = A(0); alts.push_back({A(0), -1}); return; }
        }
        throw Unsup{"op"}; }

    // ---- z3 obligation: exists t in [tlo,thi] with path constraints and |D(t)| > T ?
    // returns 0 unsat, 1 sat (t filled), 2 unknown
    int query(const R* D, R T, double tlo, double thi, const vector<pair<int, int>>& cons, double& tm) {
        { R m0 = T; for (int k = 0; k <= N; k++) m0 = max(m0, U::abs(D[k])); if (!(m0 > 0) || !U::fin(m0) || !U::fin((R)ldexpl(1, 62) / m0)) throw BoxFail{"result beyond the range of the solver encoding"}; for (auto& c : cons) { Val& v = *vals[c.first]; R mm = v.E; for (int k = 0; k <= N; k++) mm = max(mm, U::abs(v.p[k])); if (mm != 0 && (!U::fin(mm) || !U::fin((R)ldexpl(1, 62) / mm))) throw BoxFail{"branch value beyond the range of the solver encoding"}; } }
        nqueries++; double t0 = now();
        if (!zs) { zs = new z3::solver(zc, "QF_NRA"); z3::params p(zc); p.set("timeout", 4000u); zs->set(p); }
        zs->push(); z3::expr t = zc.real_const("t");
        auto num = [&](double d) { // exact rational of a double in [-1,1]
            int e; double m = frexp(d, &e); int64_t n = (int64_t)ldexp(m, 53); e -= 53; while (n && !(n & 1) && e < 0) { n >>= 1; e++; } if (e < -62) { n = (int64_t)ldexp(d, 60); e = -60; } z3::expr den = zc.real_val(to_string((e < 0) ? (1ull << -e) : 1ull).c_str()); return zc.real_val(to_string((long long)(e > 0 ? n << e : n)).c_str()) / den; };
        zs->add(t >= num(tlo) && t <= num(thi));
        auto poly = [&](const R* p, R scale, R& slackout) -> z3::expr { // integer coefficients floor-scaled; slack in scaled units
            int dg = N; R fold = 0; while (dg > 0 && (fold + U::abs(p[dg])) * scale < (R)(1 << 20)) { fold += U::abs(p[dg]); dg--; }
            slackout = fold * scale + (dg + 1); z3::expr r = zc.real_val(0);
            for (int k = dg; k >= 0; k--) { R v = p[k] * scale; LD lv = (LD)v; z3::expr cst = zc.real_val(to_string((long long)llrintl(lv)).c_str()); r = k == dg ? cst : r * t + cst; } return r; };
        R m = T; for (int k = 0; k <= N; k++) m = max(m, U::abs(D[k])); R scale = (R)ldexpl(1, 60) / m; R sl; { z3::expr d = poly(D, scale, sl); LD th = (LD)(T * scale - sl); if (th < 0) th = -1; z3::expr thr = zc.real_val(to_string((long long)floorl(th)).c_str()); if (th < 0) zs->add(zc.bool_val(true)); else zs->add(d > thr || d < -thr); }
        for (auto& c : cons) { Val& v = *vals[c.first]; R mm = v.E; for (int k = 0; k <= N; k++) mm = max(mm, U::abs(v.p[k])); if (mm == 0) continue; R sc = (R)ldexpl(1, 60) / mm; R s2; R pp[NM + 1]; for (int k = 0; k <= N; k++) pp[k] = c.second > 0 ? v.p[k] : -v.p[k]; z3::expr d = poly(pp, sc, s2); LD w = (LD)(v.E * sc + s2); zs->add(d <= zc.real_val(to_string((long long)ceill(w)).c_str())); }
        z3::check_result r = zs->check(); int ret = r == z3::unsat ? 0 : r == z3::sat ? 1 : 2;
        if (ret == 1) { tm = 0; try { z3::model md = zs->get_model(); z3::expr v = md.eval(t, true); if (v.is_numeral()) tm = atof(v.get_decimal_string(20).c_str()); else if (v.is_algebraic()) tm = atof(Z3_get_numeral_decimal_string(zc, Z3_get_algebraic_number_lower(zc, v, 20), 20)); } catch (...) {} }
        zs->pop(); ztime += now() - t0; return ret; }
};
#include "refs.hpp"

template<class R> struct Driver {
    typedef RT<R> U; Eng<R> e; Job J; int fi, fi2; long ndis = 0, nund = 0; double undw = 0; vector<string> undx; int nviol = 0; map<string, long> why; double wlo = 0, whi = 0; R minh = 0; long nsat = 0, nunk = 0; int maxdep = 0;
    Driver() { e.N = 10; e.load_consts(); }
    static R nextf(int f, R x, int dir) { if (f == 0) return (R)nextafterf((float)x, dir > 0 ? INFINITY : -INFINITY); if (f == 1) return (R)nextafter((double)x, dir > 0 ? INFINITY : -INFINITY); return (R)nextafterl((LD)x, dir > 0 ? INFINITY : -INFINITY); }
    static double ulpcount(int f, R lo, R hi) { // approx number of floats in [lo,hi]
        if (lo == hi) return 1; if (lo < 0 && hi > 0) return 1e18; R m = max(U::abs(lo), U::abs(hi)), n = min(U::abs(lo), U::abs(hi)); int ex; frexpl((LD)m, &ex); LD ulp = ldexpl(1, ex - (f == 0 ? 24 : f == 1 ? 53 : 64)); LD c = (LD)(hi - lo) / ulp; (void)n; return (double)c + 1; }
    vector<int> mkargs(int symid) { vector<int> a; for (int i = 0; i < J.narg; i++) { if (i == J.sym) a.push_back(symid); else { string s = J.args[i]; if (s[0] == 'i') a.push_back(e.mkint(atoi(s.substr(1, s.find(':') - 1).c_str()), atoll(s.substr(s.find(':') + 1).c_str()))); else a.push_back(e.mkcc(U::fromQ(parseQ(s)))); } } return a; }
    bool concrete(int f, Q x, R& out, bool inputIsArg = true) { // exact run of the code at x
        struct G { Eng<R>& e; double dl; G(Eng<R>& e) : e(e), dl(e.deadline) { e.allowsplit = false; e.deadline = now() + 20; e.callDepth = 0; } ~G() { e.allowsplit = true; e.deadline = dl; } } guard(e);
        e.reset(); e.nconc++; e.fuel = 0; e.forkNest = 0; typename std::vector<typename Eng<R>::Out> o; int id = e.mkcc(U::fromQ(x)); vector<int> a = mkargs(id);
        try { e.call(f, a, o); } catch (TimeUp&) { throw Unsup{"concrete time"}; } catch (Split&) { throw Unsup{"concrete split"}; } if (o.size() != 1) throw Unsup{"concrete"}; auto& v = *e.vals[o[0].v]; if (J.ref == "depth") out = (R)o[0].dep; else if (v.kind == 0) out = (R)v.i; else out = v.c; return true; }
    Q tolAt(Q x, Q F) { switch (J.tolkind) { case 1: return J.A * (1 + fabsq(x)); case 2: return J.A * (1 + fabsq(x)) * (1 + F * F); default: return J.A + J.B * fabsq(F); } }
    // test candidate input on the exact semantics; returns true if violating
    bool cand(Q x) {
        R got; Q F;
        if (x < J.lo || x > J.hi) return false;
        try { if (J.ref == "fn2") { R g2; concrete(fi2, x, g2); F = (Q)g2; } else F = J.ref == "depth" ? (Q)0 : refpoint(J.ref, J.rp, x); concrete(fi, x, got); }
        catch (BoxFail& b) { if (J.ref == "depth" && strstr(b.why, "too deep")) { printf("CAND %s %s inf 0\n", J.id.c_str(), hexQ(x).c_str()); nviol++; return true; } if (strstr(b.why, "float to int") || strstr(b.why, "int division") || strstr(b.why, "table index")) { printf("CAND %s %s undefined:%s -\n", J.id.c_str(), hexQ(x).c_str(), "ub"); nviol++; return true; } return false; } catch (Unsup& u) { return false; }
        if (F != F) return false;
        Q g = (Q)got; Q err = fabsq(g - F), tol = tolAt(x, F);
        if (J.ref == "fn2" && F == g) return false;
        if (!(err <= tol)) { printf("CAND %s %s %s %s\n", J.id.c_str(), hexQ(x).c_str(), hexQ(g).c_str(), hexQ(F).c_str()); fflush(stdout); nviol++; return true; }
        return false; }
    void evalpts() { fi = FIDX.at(J.fn); e.N = J.deg; e.deadline = now() + J.tlimit; int k = 0; for (Q x : J.rp) { R g; try { concrete(fi, x, g); printf("EV %s %d %s\n", J.id.c_str(), k, hexQ((Q)g).c_str()); } catch (BoxFail& b) { printf("EV %s %d -\n", J.id.c_str(), k); } catch (Unsup& u) { printf("EV %s %d -\n", J.id.c_str(), k); } k++; } printf("DONE %s\n", J.id.c_str()); }
    struct Box { R lo, hi; int d; R pE; int ns; };
    R lastE = 0;
    vector<Box> st;
    R rnd(R x) { return Eng<R>::roundto(J.fmt, x); }
    void go() {
        e.kn = J.kn; e.collapse = J.coll; fi = FIDX.at(J.fn); fi2 = J.fn2 == "-" ? -1 : FIDX.at(J.fn2); e.N = J.deg; double t0 = now(); e.deadline = t0 + J.tlimit;
        J.lo = (Q)rnd(U::fromQ(J.lo)); J.hi = (Q)rnd(U::fromQ(J.hi)); st.clear(); st.push_back({U::fromQ(J.lo), U::fromQ(J.hi), 0, 0, 0}); R minw = 0; LD total = (LD)(J.hi - J.lo);
        long boxes = 0; bool timeup = false; int cands_tried = 0;
        while (!st.empty()) {
            Box b = st.back(); st.pop_back(); boxes++; e.nbox++;
            if (timeup || now() > e.deadline || nviol >= 3) { timeup = now() > e.deadline; nund++; undw += (double)((LD)(b.hi - b.lo) / (total > 0 ? total : 1)); why[nviol >= 3 ? "stopped after violations" : "time"]++; if (undx.size() < 4) undx.push_back(hexQ((Q)b.lo) + ".." + hexQ((Q)b.hi)); continue; }
            double cnt = ulpcount(J.fmt, b.lo, b.hi);
            if (b.lo == b.hi) { if (!pointbox(b)) {} continue; }
            string fail; double t1 = 2, t2 = 2; int verdict = -1; double tsat = 0; 
            // large relative boxes are bisected geometrically first
            R al = U::abs(b.lo), ah = U::abs(b.hi); R mx = max(al, ah), mn = min(al, ah);
            if ((J.maxratio > 0 && mn > 0 && mx / mn > (R)J.maxratio && cnt > 8) || (J.hmax > 0 && (b.hi - b.lo) > (R)J.hmax)) { split(b, 2, 2); b.d--; continue; }
            lastE = 0; try { verdict = solvebox(b, cnt, tsat); }
            catch (Split& s) { t1 = s.t1; t2 = s.t2; e.nsplits++; fail = "split"; }
            catch (BoxFail& f) { fail = f.why; }
            catch (TimeUp&) { timeup = true; st.push_back(b); continue; }
            if (verdict == 0) { ndis++; continue; }
            if (verdict == 1) { nsat++; fail = "sat"; }
            if (verdict == 2) { nunk++; fail = "unknown"; }
            if (fail != "split") {
                // replay candidates on the exact semantics
                Q c = ((Q)b.lo + (Q)b.hi) / 2, h = ((Q)b.hi - (Q)b.lo) / 2; bool bad = false; 
                if (verdict == 1) { Q xm = c + h * (Q)tsat; R xr = rnd(U::fromQ(xm)); bad = cand((Q)xr); }
                if (!bad && (b.d % 3 == 0 || verdict != 1)) { bad = cand((Q)rnd((R)c)) || cand((Q)b.lo) || cand((Q)b.hi); }
                if (bad) { why["violation"]++; nund++; continue; } }
            if (cnt <= 40) { // few floats left: run each of them exactly
                R x = b.lo; bool ok = true; int k = 0; while (x <= b.hi && k++ < 200) { if (!pointok(x)) { ok = false; break; } x = nextf(J.fmt, x, 1); } if (ok) { ndis++; why["residual floats run exactly"] += k; } else { nund++; why["residual:" + fail]++; } continue; }
            if (lastE > 0) { if (b.pE > 0 && lastE > b.pE * (R)0.7L) b.ns++; else b.ns = 0; b.pE = lastE; } else { b.pE = 0; b.ns = 0; }
            if (b.d > J.maxdepth + (fail == "possible overflow" ? 40 : 0) || b.ns >= 3) { if (b.ns >= 3) fail = "rounding bound exceeds tolerance"; nund++; why["depth:" + fail]++; undw += (double)((LD)(b.hi - b.lo) / (total > 0 ? total : 1)); if (undx.size() < 4) undx.push_back(hexQ((Q)b.lo) + ".." + hexQ((Q)b.hi)); continue; }
            split(b, t1, t2);
        }
        printf("DONE %s boxes=%ld discharged=%ld undischarged=%ld undfrac=%.3e queries=%ld sat=%ld unknown=%ld forks=%ld splits=%ld ops=%ld concrete=%ld ztime=%.3f time=%.3f depth=%d viol=%d", J.id.c_str(), boxes, ndis, nund, undw, e.nqueries, nsat, nunk, e.nforks, e.nsplits, e.nops, e.nconc, e.ztime, now() - t0, maxdep, nviol);
        string w; for (auto& p : why) { string k = p.first; for (auto& ch : k) if (ch == ' ') ch = '_'; w += k + ":" + to_string(p.second) + ";"; } string ux; for (auto& s : undx) ux += s + ";"; printf(" why=%s und=%s\n", w.c_str(), ux.c_str()); fflush(stdout); }
    bool pointok(R x) { // exact single float
        R got; Q F; Q q = (Q)x; try { if (J.ref == "fn2") { R g2; concrete(fi2, q, g2); F = (Q)g2; } else F = J.ref == "depth" ? (Q)0 : refpoint(J.ref, J.rp, q); if (F != F) return false; concrete(fi, q, got); } catch (BoxFail& b) { cand(q); return false; } catch (Unsup& u) { return false; }
        Q g = (Q)got; if (J.ref == "fn2" && g == F) return true; if (!(fabsq(g - F) <= tolAt(q, F))) { printf("CAND %s %s %s %s\n", J.id.c_str(), hexQ(q).c_str(), hexQ(g).c_str(), hexQ(F).c_str()); nviol++; return false; } return true; }
    bool pointbox(Box& b) { if (pointok(b.lo)) { ndis++; return true; } nund++; why["point"]++; return false; }
    void split(Box& b, double t1, double t2) {
        R c = (b.lo + b.hi) / 2, h = (b.hi - b.lo) / 2; int d = b.d + 1;
        auto clampf = [&](R x) { R r = rnd(x); if (r < b.lo) r = b.lo; if (r > b.hi) r = b.hi; return r; };
        if (t1 <= 1.5 && (t2 < -0.9999 || t1 > 0.9999)) { R al = U::abs(b.lo), ah = U::abs(b.hi); if (al > 0 && ah > 0 && max(al, ah) / min(al, ah) > 4) t1 = 2; }
        if (t1 <= 1.5) {
            R x1 = clampf(c + h * (R)t1), x2 = clampf(c + h * (R)t2); x1 = nextf(J.fmt, x1, -1); x2 = nextf(J.fmt, x2, 1); if (x1 < b.lo) x1 = b.lo; if (x2 > b.hi) x2 = b.hi;
            // boxes [lo, x1-], [x1, x2], [x2+, hi]
            if (!(x1 <= b.lo && x2 >= b.hi)) {
                if (x2 < b.hi) st.push_back({nextf(J.fmt, x2, 1), b.hi, b.d, 0, 0}); st.push_back({x1, x2, d, 0, 0}); if (x1 > b.lo) st.push_back({b.lo, nextf(J.fmt, x1, -1), b.d, 0, 0}); return; }
        }
        R m; R al = U::abs(b.lo), ah = U::abs(b.hi); R mx = max(al, ah), mn = min(al, ah);
        if (b.lo < 0 && b.hi > 0) m = 0; else if (mn > 0 && mx / mn > 4) { m = U::sqrt(al) * U::sqrt(ah); if (b.lo < 0) m = -m; } else m = c;
        m = clampf(m); if (m >= b.hi) m = nextf(J.fmt, b.hi, -1); if (m < b.lo) m = b.lo;
        st.push_back({nextf(J.fmt, m, 1), b.hi, d, b.pE, b.ns}); st.push_back({b.lo, m, d, b.pE, b.ns}); }
    int solvebox(Box& b, double cnt, double& tsat) {
        e.reset(); e.fuel = 0; e.forkNest = 0; e.boxfloats = cnt; e.callDepth = 0; R c = (b.lo + b.hi) / 2, h = (b.hi - b.lo) / 2 * (1 + 4 * U::eps) + U::abs(c) * U::eps * 2;
        // reference jet
        R q[NM + 1]; R qE = 0; typename std::vector<typename Eng<R>::Out> o, o2;
        auto* v = e.nv(); for (int i = 0; i <= e.N; i++) v->p[i] = 0; v->kind = 2; v->p[0] = c; v->p[1] = h; v->E = 0; v->nn = 0; v->nmag = 0; v->mag = U::abs(c) + h; v->c = 0; int xid = e.vals.size() - 1;
        vector<int> args = mkargs(xid);
        e.call(fi, args, o);
        if (J.ref == "fn2") { e.call(fi2, args, o2); }
        else if (J.ref == "depth") { for (int k = 0; k <= e.N; k++) q[k] = 0; }
        else { int M = e.N + 6; Ser s = refser(J.ref, J.rp, svar(M, (Q)c, (Q)h)); Q tail = 0; for (int k = e.N + 1; k <= M; k++) tail += fabsq(s.a[k]);
            Q l1 = fmaxq(fabsq(s.a[M]), fabsq(s.a[M - 1])), l2 = fmaxq(fabsq(s.a[M - 2]), fabsq(s.a[M - 3])), l3 = fmaxq(fabsq(s.a[M - 4]), fabsq(s.a[M - 5])); Q top = 0; for (int k = 0; k <= e.N; k++) top += fabsq(s.a[k]);
            if (!finiteq(top)) throw BoxFail{"reference not finite"};
            if (l1 > 1e-30Q * top) { Q r2 = fmaxq(l2 > 0 ? l1 / l2 : 0, l3 > 0 ? sqrtq(l1 / l3) : 0); if (!(r2 < 0.7Q)) throw BoxFail{"reference series diverges"}; tail += 4 * l1 * r2 / (1 - r2); }
            qE = (R)((tail + top * 1e-30Q) * 1.0001Q); for (int k = 0; k <= e.N; k++) { q[k] = U::fromQ(s.a[k]); } qE += (R)top * U::eps * 2; }
        int npairs = 0;
        for (auto& x : o) {
            int no2 = J.ref == "fn2" ? (int)o2.size() : 1;
            for (int z = 0; z < no2; z++) {
                vector<int> dd = x.d; if (J.ref == "fn2") { vector<int> np; if (!e.compat(x.d, o2[z].d, np)) continue; dd = np; auto& w = *e.vals[o2[z].v]; auto& a = *e.vals[x.v]; if (o2[z].v == x.v) { npairs++; continue; }
                    if (w.kind == 1 && a.kind == 1 && (w.c == a.c || (U::nan(w.c) && U::nan(a.c)))) { npairs++; continue; }
                    if (w.kind == 1 && !U::fin(w.c)) throw BoxFail{"non-finite result"}; e.getp(w, q); qE = e.slack(w); }
                bool dm = J.ref == "depth"; auto& a = *e.vals[x.v]; if (a.kind == 0 && !dm) throw Unsup{"int result"};
                if (a.kind == 1 && !U::fin(a.c) && !dm) throw BoxFail{"non-finite result"};
                R D[NM + 1], p[NM + 1]; if (dm) { for (int k = 0; k <= e.N; k++) p[k] = 0; p[0] = x.dep; if (x.dep > maxdep) maxdep = x.dep; } else e.getp(a, p); R sq = 0, mg = 0; for (int k = 0; k <= e.N; k++) { D[k] = p[k] - q[k]; if (k) sq += U::abs(q[k]); mg += U::abs(q[k]); }
                R Fmin = U::abs(q[0]) - sq - qE; if (Fmin < 0) Fmin = 0; R xmin = min(U::abs(b.lo), U::abs(b.hi)); if (b.lo < 0 && b.hi > 0) xmin = 0;
                R T; switch (J.tolkind) { case 1: T = (R)J.A * (1 + xmin); break; case 2: T = (R)J.A * (1 + xmin) * (1 + Fmin * Fmin); break; default: T = (R)J.A + (R)J.B * Fmin; }
                R E = dm ? (R)0 : e.slack(a) + qE + mg * U::eps * 4; T -= E;
                double tlo = -1, thi = 1; vector<pair<int, int>> cons; for (int k : dd) { tlo = max(tlo, e.decs[k].tlo); thi = min(thi, e.decs[k].thi); for (auto& cc : e.decs[k].cons) cons.push_back(cc); }
                if (tlo > thi) { if (tlo > thi + 1e-12) continue; swap(tlo, thi); }
                e.npaths++; npairs++;
                if (T <= 0) { lastE = T + E > 0 ? E / (T + E) : (R)0; if (getenv("ACC_DEBUG")) printf("DBG slack box %s %s E=%Lg T=%Lg D0=%Lg\n", hexQ((Q)b.lo).c_str(), hexQ((Q)b.hi).c_str(), (LD)E, (LD)(T + E), (LD)D[0]); tsat = 0; return 1; }
                int r = e.query(D, T, tlo, thi, cons, tsat); if (r) { if (getenv("ACC_DEBUG")) printf("DBG sat box %s %s E=%Lg T=%Lg D0=%Lg D1=%Lg\n", hexQ((Q)b.lo).c_str(), hexQ((Q)b.hi).c_str(), (LD)E, (LD)T, (LD)D[0], (LD)D[1]); return r; }
            }
        }
        if (!npairs) throw BoxFail{"no feasible path"};
        return 0; }
};

static int realmain(int argc, char** argv) {
    FMAX_[0] = 0x1.fffffep127L; FMAX_[1] = 0x1.fffffffffffffp1023L; FMAX_[2] = 0x1.fffffffffffffffep16383L;
    loadprog(argv[1]); sccs();
    ifstream in; istream* is = &cin; if (argc > 2) { in.open(argv[2]); is = &in; }
    string line; Driver<LD>* dl = nullptr; Driver<Q>* dq = nullptr;
    while (getline(*is, line)) {
        if (line.empty()) continue; istringstream s(line); Job J; string x; int np; string prec;
        s >> J.id >> prec >> J.fn >> J.fn2 >> J.narg >> J.sym; for (int i = 0; i < J.narg; i++) { s >> x; J.args.push_back(x); }
        s >> J.fmt >> J.ref >> np; for (int i = 0; i < np; i++) { s >> x; J.rp.push_back(parseQ(x)); }
        s >> J.tolkind >> x; J.A = parseQ(x); s >> x; J.B = parseQ(x); s >> x; J.lo = parseQ(x); s >> x; J.hi = parseQ(x); s >> J.deg >> J.tlimit >> J.maxdepth >> J.maxratio >> J.hmax >> J.kn >> J.coll;
        try {
            if (J.ref == "eval") { if (prec == "L") { Driver<LD> d; d.J = J; d.evalpts(); } else { Driver<Q> d; d.J = J; d.evalpts(); } continue; }
            if (prec == "L") { Driver<LD> d; d.J = J; d.go(); }
            else { Driver<Q> d; d.J = J; d.go(); }
        } catch (Unsup& u) { printf("UNSUP %s %s\n", J.id.c_str(), u.why.c_str()); }
        catch (std::exception& ex) { printf("UNSUP %s exception:%s\n", J.id.c_str(), ex.what()); }
        catch (z3::exception& ex) { printf("UNSUP %s z3:%s\n", J.id.c_str(), ex.msg()); }
        fflush(stdout);
    }
    return 0; }
struct Arg { int c; char** v; };
static void* thr(void* p) { Arg* a = (Arg*)p; realmain(a->c, a->v); return nullptr; }
int main(int argc, char** argv) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024ull << 20); pthread_t t; Arg a{argc, argv}; pthread_create(&t, &at, thr, &a); pthread_join(t, nullptr); fflush(stdout); _Exit(0); }
