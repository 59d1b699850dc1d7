"""Common machinery of all checks: builds, queries, replays, findings, evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, threading, re
from concurrent.futures import ThreadPoolExecutor
import irgen, sf, bitsym as B, acc
from irgen import wrapper, wname, CT, BuildError, Unsupported

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TY = {"f": "float", "d": "double", "l": "x86_fp80", "i": "i32", "u": "i32", "q": "i64", "Q": "i64", "h": "i16", "c": "i8", "b": "i1"}
WID = {"f": 32, "d": 64, "l": 80, "i": 32, "u": 32, "q": 64, "Q": 64, "h": 16, "c": 8, "b": 8}
NPROC = 8

class Wr:
    """one wrapper: public function fn called with argument type letters tys"""
    def __init__(self, fn, tys, name=None, expr=None):
        self.fn, self.tys, self.expr = fn, tys, expr
        self.name = name or wname(fn, tys)
    def src(self):
        return wrapper(self.fn, self.tys, self.name, self.expr)

class Ctx:
    def __init__(self, prop, tier, budget):
        self.prop, self.tier = prop, tier
        self.t0 = time.time(); self.deadline = self.t0 + budget
        self.dir = tempfile.mkdtemp(prefix="gcemv_")
        self.solver = B.Solver(self.dir)
        self.violations, self.known_hits = [], []
        self.mods, self.wr = {}, {}
        self.states = self.transitions = self.validated = 0
        self.samples, self.undischarged, self.notes, self.bounds = [], [], [], []
        self.functions = set()
        self.ob_total = self.ob_ok = 0
        self.engineA = dict(jobs=0, boxes=0, queries=0, solver_s=0.0, discharged=0, undischarged=0, forks=0)
        self.qlog = []
        self.evals = {}
        self.lock = threading.RLock(); self.enclock = threading.RLock(); self.canons = {}
        self.skipped_std = {}
        kf = os.path.join(V, "known_findings.json")
        self.findings = [f for f in (json.load(open(kf))["findings"] if os.path.exists(kf) else []) if f["property"] == prop]
    def left(self): return self.deadline - time.time()
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- building
    def build(self, wrs, stds=("c++17", "c++11")):
        """compile the wrappers to IR (per language mode); returns the modes that built"""
        for w in wrs: self.wr[w.name] = w
        ok = []
        def one(std):
            try:
                d = os.path.join(self.dir, std); os.makedirs(d, exist_ok=True)
                return std, irgen.compile_ir([w.src() for w in self.wr.values()], std, d), None
            except BuildError as e:
                return std, None, str(e)
        with ThreadPoolExecutor(2) as ex:
            for std, m, err in ex.map(one, stds):
                if m is None:
                    self.skipped_std[std] = err[:300]
                    self.note("language mode %s does not compile with clang: not checked" % std)
                else:
                    self.mods[std] = m; ok.append(std)
        if "c++17" in stds and "c++17" not in ok:
            raise BuildError(self.skipped_std.get("c++17", ""))
        return ok
    def evalbin(self, std, flags=(), tag="ev"):
        k = (std, tag)
        with self.lock:
            if k in self.evals: return self.evals[k]
            src = ['#include "gcem.hpp"', "#include <cstdio>", "#include <cstring>", "#include <cstdlib>", "#include <string>", "#include <map>",
                   "typedef unsigned __int128 U; static U rd(const char* s){U r=0;for(;*s;s++){r=r*16+(*s<='9'?*s-'0':*s-'a'+10);}return r;}",
                   "template<class T> T mk(const char*s){U u=rd(s);T t;std::memset(&t,0,sizeof t);std::memcpy(&t,&u,sizeof t<16?sizeof t:10);return t;}",
                   "template<class T> void pr(T t){unsigned char b[16]={0};std::memcpy(b,&t,sizeof t<16?sizeof t:10);for(int i=(sizeof t<16?sizeof t:10)-1;i>=0;i--)std::printf(\"%02x\",b[i]);std::printf(\"\\n\");std::fflush(stdout);}"]
            for w in self.wr.values(): src.append(w.src())
            src.append("int main(){char n[200];char a[8][64];while(std::scanf(\"%199s\",n)==1){std::string s=n;")
            for i, w in enumerate(self.wr.values()):
                rdv = "".join('if(std::scanf("%%63s",a[%d])!=1)return 1;' % j for j in range(len(w.tys)))
                src.append('if(s=="%s"){%s pr(%s(%s));continue;}' % (w.name, rdv, w.name, ",".join("mk<%s>(a[%d])" % (CT[t], j) for j, t in enumerate(w.tys))))
            src.append("return 2;}}")
            d = os.path.join(self.dir, "ev_" + std + tag); os.makedirs(d, exist_ok=True)
            b = irgen.compile_bin("\n".join(src), std, d, tag, flags)
            self.evals[k] = b
            return b
    def real(self, std, calls, flags=(), tag="ev", timeout=60):
        """run the compiled real code: calls = [(wrapper name, [raw bits])] -> [raw bits or None]"""
        b = self.evalbin(std, flags, tag)
        txt = "\n".join("%s %s" % (n, " ".join("%x" % (a & ((1 << WID[t]) - 1)) for a, t in zip(args, self.wr[n].tys))) for n, args in calls) + "\n"
        try:
            p = subprocess.run([b], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            out = [int(l, 16) for l in p.stdout.split()]
            self.last_stderr = p.stderr
        except subprocess.TimeoutExpired:
            out = []; self.last_stderr = "timeout"
        return out + [None] * (len(calls) - len(out))
    def rtype(self, std, name):
        f = self.mods[std].funcs[name]
        return f.rty

    # ---------------------------------------------------------------- obligations
    def ob(self, name, ok, detail=None):
        with self.lock:
            self.ob_total += 1
            if ok: self.ob_ok += 1
            else: self.undischarged.append(dict(obligation=name, reason=str(detail)[:300]))
    def query(self, name, asserts, getv=(), uf=(), timeout=40, solvers=("z3-new", "cvc5")):
        """(verdict, model values or None)"""
        if len(asserts) == 1 and B.isc(asserts[0]) or any(B.isc(a) and not a.val for a in asserts):
            if any(B.isc(a) and not a.val for a in asserts):
                S = None
                with self.lock: self.qlog.append(dict(query=name, result="unsat", solver="term rewriting", seconds=0.0))
                return "unsat", None
        S = B.Smt(uf)
        sc = S.script(asserts, getv)
        with self.lock:
            self.transitions += sum(S.ops.values()); self.states += 1
        t = max(2, min(timeout, int(self.left())))
        r, out = self.solver.check(sc, t, solvers, name)
        with self.lock: self.qlog.append(self.solver.log[-1])
        vals = None
        if r == "sat" and getv:
            try: vals = [B.val_bits(v.sort, x) for v, x in zip(getv, B.parse_values(out))]
            except Exception as e: self.note("model of %s not readable: %s" % (name, e))
        return r, vals
    def parallel(self, fs, n=NPROC):
        """run thunks in parallel threads (each mostly waits for a solver)"""
        def safe(f):
            try: return f()
            except (Unsupported, B.Budget, B.DepthLimit, RecursionError) as e:
                nm = getattr(f, "obname", "obligation"); self.ob(nm, False, "not encoded: %s %s" % (type(e).__name__, e))
        with ThreadPoolExecutor(n) as ex: return list(ex.map(safe, fs))

    # ---------------------------------------------------------------- universally quantified obligations
    def canon(self, std, n):
        return B.Exec(self.mods[std], canon=self.canons.setdefault(std, {})).canon(n)
    def stds_for(self, n):
        """the language modes in which wrapper n is different code"""
        seen, out = set(), []
        for s in self.mods:
            if n not in self.mods[s].funcs: continue
            h = self.canon(s, n)
            if h not in seen: seen.add(h); out.append(s)
        return out
    def argvars(self, n):
        return [B.var("x%d" % i, "bool" if t == "b" else TY[t]) for i, t in enumerate(self.wr[n].tys)]
    def const(self, t, bits):
        ty = TY[t]
        return B.fpc(ty, bits) if ty in irgen.FPT else B.intc(ty, bits)
    def rconst(self, std, n, bits):
        rt = self.mods[std].funcs[n].rty
        if rt == "i1": return B.boolc(bits & 1)
        return B.fpc(rt, bits) if rt in irgen.FPT else B.intc(rt, bits)
    def forall(self, name, std, calls, bad, pre=None, uf=(), timeout=40, solvers=("z3-new", "cvc5"), mode="eager", big=400,
               maxdepth=600, budget=300000, what="", expand=0, meta=None, okunknown=False, unwind=0, uf2=None):
        """calls: [(wrapper, [argument terms])]; bad(results) -> bool term, pre: bool term over the variables.
        Returns a thunk that decides  forall variables: pre -> not bad  and replays any model on the compiled code."""
        try:
            ex = B.Exec(self.mods[std], mode=mode, big=big, maxdepth=maxdepth, budget=budget, canon=self.canons.setdefault(std, {}), tag=std, unwind=unwind)
            rs = [ex.call(w, a) for w, a in calls]
            self.functions |= ex.funcs_seen
            b = bad(rs)
            terms = [pre, b] if pre is not None else [b]
            for _ in range(expand):
                b, k = B.expand_calls(b, {std: ex}, 4000)
                if not k: break
            terms = [pre, b] if pre is not None else [b]
            vs = []
            for w, a in calls:
                for t in a:
                    for v in B.varsof(t):
                        if v not in vs: vs.append(v)
        except (Unsupported, B.Budget, B.DepthLimit, RecursionError) as e:
            self.ob(name, False, "not encoded: %s %s" % (type(e).__name__, e))
            return lambda: None
        def go():
            if uf2 and self.query(name + " (abstracted)", terms, (), uf2, min(timeout, 15), solvers)[0] == "unsat": self.ob(name, True); return True
            r, vals = self.query(name, terms, vs, uf, timeout, solvers)
            if r == "unsat": self.ob(name, True); return True
            if r == "sat" and vals is not None:
                env = {v.id: (B.fpc(v.sort, x) if v.sort in irgen.FPT else B.boolc(x) if v.sort == "bool" else B.intc(v.sort, x)) for v, x in zip(vs, vals)}
                return self.replay(name, std, calls, bad, pre, env, what, meta)
            self.ob(name, False, "solver: " + r)
        return go
    def replay(self, name, std, calls, bad, pre, env, what, meta=None):
        with self.enclock:
            cargs = [[B.subst(t, env) for t in a] for w, a in calls]
            if pre is not None:
                p = B.subst(pre, env)
                if B.isc(p) and not p.val: self.ob(name, False, "model does not satisfy the precondition"); return None
        if not all(B.isc(t) for a in cargs for t in a): self.ob(name, False, "model incomplete"); return None
        real = self.real(std, [(w, [int(t.val) for t in a]) for (w, _), a in zip(calls, cargs)])
        shown = ["%s(%s)" % (self.label(w), ", ".join(self.show(t) for t in a)) for (w, _), a in zip(calls, cargs)]
        if any(r is None for r in real):
            return self.report(name, std, "%s does not return a value (crash or endless recursion)" % shown[real.index(None)], shown, real, cargs, calls, meta)
        with self.enclock:
            b = bad([self.rconst(std, w, r) for (w, _), r in zip(calls, real)])
            b = B.subst(b, env)
        if B.isc(b) and b.val:
            return self.report(name, std, "%s: %s" % (what or name, "; ".join("%s = %s" % (s, self.show(self.rconst(std, w, r))) for s, (w, _), r in zip(shown, calls, real))), shown, real, cargs, calls, meta)
        self.ob(name, False, "solver model not confirmed by the compiled code: %s" % shown)
        return None
    def try_replay(self, name, std, calls, bad, pre, env, what, judge=None):
        """like replay, but an unconfirmed model leaves no trace: None"""
        with self.lock: keep = (self.ob_total, self.ob_ok, len(self.undischarged))
        with self.enclock:
            cargs = [[B.subst(t, env) for t in a] for w, a in calls]
            if pre is not None:
                p = B.subst(pre, env)
                if B.isc(p) and not p.val: return None
        if not all(B.isc(t) for a in cargs for t in a): return None
        real = self.real(std, [(w, [int(t.val) for t in a]) for (w, _), a in zip(calls, cargs)])
        shown = ["%s(%s)" % (self.label(w), ", ".join(self.show(t) for t in a)) for (w, _), a in zip(calls, cargs)]
        if any(r is None for r in real):
            return self.report(name, std, "%s does not return a value (crash or endless recursion)" % shown[real.index(None)], shown, real, cargs, calls, None)
        with self.enclock:
            rcs = [self.rconst(std, w, r) for (w, _), r in zip(calls, real)]
            b = B.subst(bad(rcs), env) if judge is None else B.boolc(judge(cargs, rcs))
        if B.isc(b) and b.val:
            return self.report(name, std, "%s: %s" % (what or name, "; ".join("%s = %s" % (s, self.show(self.rconst(std, w, r))) for s, (w, _), r in zip(shown, calls, real))), shown, real, cargs, calls, None)
        return None
    def report(self, name, std, msg, shown, real, cargs, calls, meta):
        self.ob(name, True)
        x = None
        a0 = cargs[0][0]
        if a0.sort in irgen.FPT and not sf.is_nan(a0.sort, a0.val) and not sf.is_inf(a0.sort, a0.val): x = float(sf.to_frac(a0.sort, a0.val)) if abs(sf.to_frac(a0.sort, a0.val)) < 10**300 else None
        self.violation("%s [%s]" % (msg, std), dict(obligation=name, std=std, calls=shown, args=[["%x" % int(t.val) for t in a] for a in cargs],
            got=["%x" % r if r is not None else None for r in real], wrappers=[self.wr[w].src() for w, _ in calls], fn=self.wr[calls[0][0]].fn, tys=self.wr[calls[0][0]].tys, x=x, **(meta or {})))
        return False
    def label(self, w): return "gcem::" + self.wr[w].fn + "<" + ",".join(CT[t] for t in self.wr[w].tys) + ">"
    def show(self, t):
        if t.sort == "bool": return str(t.val)
        if t.sort in irgen.FPT: return sf.fmtval(t.sort, t.val)
        return str(B.sgn(t.val, int(t.sort[1:])))

    # ---------------------------------------------------------------- violations
    def violation(self, what, replay):
        """replay: dict with everything needed to reproduce on the real code"""
        for f in self.findings:
            if self.matches(f, replay):
                if f["id"] not in [k["id"] for k in self.known_hits]: self.known_hits.append(f)
                return False
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        p = os.path.join(V, "replays", "%s-%d.json" % (self.prop, len(self.violations) + 1))
        json.dump(dict(property=self.prop, what=what, **replay), open(p, "w"), indent=1, default=str)
        self.violations.append((what, p))
        print("VIOLATION property=%s replay=%s" % (self.prop, p)); print("  " + what); sys.stdout.flush()
        return True
    def matches(self, f, r):
        m = f["match"]
        for k, v in m.items():
            if k in ("lo", "hi"): continue
            if isinstance(v, list):
                if r.get(k) not in v: return False
            elif r.get(k) != v: return False
        if "lo" in m or "hi" in m:
            x = r.get("x")
            if x is None: return False
            if "lo" in m and not x >= m["lo"]: return False
            if "hi" in m and not x <= m["hi"]: return False
        return True
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    # ---------------------------------------------------------------- translator validation
    def validate(self, cases, stds=None):
        """cases: [(wrapper, [bits])]: run engine B concretely and the compiled code; both must agree bit for bit.
        A disagreement means the encoding is wrong: the function is reported as not covered, never as a violation."""
        bad = set()
        for std in stds or self.mods:
            m = self.mods[std]
            real = self.real(std, cases)
            for (n, args), r in zip(cases, real):
                w = self.wr[n]
                try:
                    ex = B.Exec(m, maxdepth=20000, budget=3000000)
                    ts = []
                    for a, t in zip(args, w.tys):
                        ty = TY[t]
                        ts.append(B.fpc(ty, a) if ty in irgen.FPT else (B.boolc(a & 1) if ty == "i1" else B.intc(ty, a)))
                    v = ex.call(n, ts)
                except (Unsupported, B.Budget, B.DepthLimit) as e:
                    continue
                if r is None or v.op == "undef": continue
                rt = m.funcs[n].rty
                x = int(v.val) if rt == "i1" else v.val
                if rt in irgen.FPT and sf.is_nan(rt, r): r = sf.nan(rt)
                if rt in irgen.FPT and sf.is_nan(rt, x): x = sf.nan(rt)
                if not isinstance(x, int) or x != r & ((1 << max(8, 80)) - 1):
                    bad.add((std, n)); self.note("encoding and compiled code disagree on %s(%s)" % (n, args))
                else: self.validated += 1
        return bad

    # ---------------------------------------------------------------- evidence
    def finish(self):
        for f in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        A = self.engineA
        nq = self.solver.n + A["queries"]
        slow = sorted(self.qlog, key=lambda q: -q["seconds"])[:15]
        byv = {}
        for q in self.qlog: byv[q["result"]] = byv.get(q["result"], 0) + 1
        cov = dict(states=self.states + A["boxes"], transitions=self.transitions + A["forks"] + A.get("ops", 0),
                   traces_validated_against_impl=self.validated, samples=self.samples or [dict(note="no case recorded")],
                   functions_encoded=sorted(self.functions)[:400], functions_encoded_count=len(self.functions),
                   bounds=self.bounds, queries=nq, solver_seconds=round(self.solver.time + A["solver_s"], 3),
                   verdicts=byv, slowest_queries=slow, accuracy_engine=A,
                   obligations_total=self.ob_total, obligations_discharged=self.ob_ok,
                   undischarged=self.undischarged[:1000], undischarged_count=len(self.undischarged),
                   language_modes=sorted(self.mods), notes=self.notes[:60])
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
                  coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        print("%s %s: %d/%d obligations discharged, %d queries, solver %.1f s, wall %.1f s, %d violation(s)%s" % (
            self.prop, self.tier, self.ob_ok, self.ob_total, nq, cov["solver_seconds"], ev["wall_s"], len(self.violations),
            "" if not self.undischarged else ", %d undischarged" % len(self.undischarged)))
        return 1 if self.violations else 0

ASSUME = ["clang 18 -O0 IR (after sroa,mem2reg) of /repo's headers is the program; -ffp-contract=off; x86-64: IEEE binary32/binary64 and x87 extended, round to nearest even",
          "z3 and cvc5 verdicts are trusted; sat models are replayed on the compiled code before anything is reported"]
