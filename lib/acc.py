"""Python side of engine A: serialises the IR for engine/acc.cpp and runs jobs in parallel."""
import os, subprocess, hashlib, threading, queue, time
import sf
from irgen import Const, Reg, Glob, FPT, Unsupported

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TYN = {"float": 0, "double": 1, "x86_fp80": 2, "ptr": 5, "void": 6}
def tyn(t):
    if t is None: return 6
    if t in TYN: return TYN[t]
    if t.startswith("i"): return 10 + int(t[1:])
    return 7

def engine_binary():
    src = [os.path.join(V, "engine", f) for f in ("acc.cpp", "refs.hpp", "series.hpp")]
    h = hashlib.sha1(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:16]
    d = os.path.join(V, "build"); out = os.path.join(d, "acc-" + h)
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["g++", "-O2", "-std=gnu++17", "-w", src[0], "-o", tmp, "-lz3", "-lquadmath", "-lpthread"], check=True)
        os.rename(tmp, out)
    return out

def serialize(mods, roots, path):
    """mods: list of (prefix, Module); roots: {prefix: [wrapper names]}. Functions are named prefix+name."""
    lines, cons, cidx = [], [], {}
    def con(kind, ty, v):
        k = (kind, ty, v)
        if k not in cidx:
            cidx[k] = len(cons); cons.append("C %d %d %s" % (kind, ty, v))
        return -(cidx[k] + 1)
    con(0, 11, 0)
    globs, gidx = [], {}
    fl, order = [], []
    for pre, m in mods:
        for n in sorted(m.reachable(roots[pre])):
            order.append((pre, m, n))
    fid = {(p, n): i for i, (p, m, n) in enumerate(order)}
    for pre, m, n in order:
        f = m.funcs[n]; regs = {}
        for p in f.params: regs[p[1]] = len(regs)
        bid = {b: i for i, b in enumerate(f.order)}
        def reg(nm):
            if nm not in regs: regs[nm] = len(regs)
            return regs[nm]
        def opnd(a):
            if isinstance(a, Reg): return reg(a.name)
            if isinstance(a, Glob):
                k = (pre, a.name)
                if k not in gidx:
                    if a.name not in m.globals: raise Unsupported("global " + a.name)
                    et, vals = m.globals[a.name]; gidx[k] = len(globs)
                    globs.append("G %d %d %s" % (tyn(et), len(vals), " ".join(sf.fmtval(et, v) if et in FPT else str(v) for v in vals)))
                return con(2, 5, gidx[k])
            if a.v == "undef": return con(3, 0, 0)
            if a.ty in FPT: return con(1, tyn(a.ty), sf.fmtval(a.ty, a.v))
            w = int(a.ty[1:]) if a.ty.startswith("i") else 64
            v = a.v - (1 << w) if w > 1 and a.v >> (w - 1) else a.v
            return con(0, 10 + w, v)
        body = []
        for b in f.order:
            ins = f.blocks[b]; bl = []
            for i in ins:
                op, x, pred = i.op, [], "-"
                try:
                    args = [opnd(a) for a in i.args]
                except Unsupported:
                    op, args = "unsupported", []
                ty2 = 7
                if op == "call":
                    if i.x in m.funcs: x = [fid[(pre, i.x)]] + [tyn(a.ty) for a in i.args]
                    elif i.x.startswith("llvm.copysign"): op = "copysign"
                    elif i.x.startswith("llvm.fabs"): op = "fabs"
                    else: op, args = "unsupported", []
                elif op in ("br", "cbr", "phi"): x = [bid[q] for q in i.x]
                elif op == "icmp": pred = i.x
                elif op == "fcmp": pred = {"ult": "fult", "ugt": "fugt", "ule": "fule", "uge": "fuge"}.get(i.x, i.x)
                elif op in ("frem",): op = "unsupported"
                d = reg(i.dest) if i.dest is not None else -1
                bl.append("%s %d %d %d %s %d %s %d %s" % (op, d, tyn(i.ty), ty2, pred, len(args), " ".join(map(str, args)), len(x), " ".join(map(str, x))))
            body.append("B %d\n" % len(bl) + "\n".join(bl))
        fl.append("F %s%s %d %d %d %d\n" % (pre, n, tyn(f.rty), len(regs), len(f.params), len(f.order)) + "\n".join(body))
    with open(path, "w") as fo:
        fo.write("\n".join(cons) + "\n" + "\n".join(globs) + "\n" + "\n".join(fl) + "\n")
    return [n for _, _, n in order]

class Job:
    def __init__(self, id, fn, fmt, ref, rp=(), lo=None, hi=None, A="0", B="0", tolkind=0, args=None, sym=0, deg=None,
                 tlimit=20, maxdepth=40, maxratio=64.0, hmax=0.0, prec=None, fn2="-", pre="", meta=None, kn=4, coll=0):
        self.__dict__.update(locals())
    def line(self):
        args = self.args if self.args is not None else ["x"]
        fmt = {"f": 0, "d": 1, "l": 2}[self.fmt]
        deg = self.deg if self.deg is not None else {"f": 7, "d": 12, "l": 15}[self.fmt]
        prec = self.prec or ("Q" if self.fmt == "l" else "L")
        return " ".join(map(str, [self.id, prec, self.pre + self.fn, self.fn2, len(args), self.sym, *args, fmt, self.ref, len(self.rp), *self.rp,
            self.tolkind, self.A, self.B, self.lo, self.hi, deg, self.tlimit, self.maxdepth, self.maxratio, self.hmax, self.kn, self.coll]))

def run_jobs(prog, jobs, nproc=8, deadline=None, evs=None):
    """returns (results {id: dict}, candidates [(id, x, got, ref)], unsupported [(id, why)])"""
    eng = engine_binary()
    q = queue.Queue()
    for j in jobs: q.put(j)
    res, cands, uns, lock = {}, [], [], threading.Lock()
    if evs is None: evs = []
    def worker():
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            if deadline is not None:
                left = deadline - time.time()
                if left < 1:
                    with lock: uns.append((j.id, "no time left"))
                    continue
                j.tlimit = min(j.tlimit, left)
            try:
                p = subprocess.run([eng, prog], input=j.line() + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=j.tlimit * 2 + 60)
                out = p.stdout
            except subprocess.TimeoutExpired as e:
                with lock: uns.append((j.id, "engine timeout"))
                continue
            done = False
            with lock:
                for l in out.split("\n"):
                    t = l.split(" ")
                    if t[0] == "CAND": cands.append((j, t[2], t[3], t[4]))
                    elif t[0] == "DONE":
                        d = dict(kv.split("=", 1) for kv in t[2:] if "=" in kv); res[j.id] = d; done = True
                    elif t[0] == "UNSUP": uns.append((j.id, " ".join(t[2:]))); done = True
                    elif t[0] == "EV": evs.append((j, int(t[2]), t[3]))
                    elif t[0] == "DBG": print(l)
                if not done: uns.append((j.id, "engine died rc=%s %s" % (p.returncode, p.stderr[-200:])))
    ths = [threading.Thread(target=worker) for _ in range(nproc)]
    for t in ths: t.start()
    for t in ths: t.join()
    return res, cands, uns
