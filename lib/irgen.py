"""Driver generation, compilation of /repo's current headers to LLVM IR, and the IR parser.

The driver only ever calls public gcem functions; everything below them is picked up from the
IR that clang produces from /repo's working tree on this run."""
import os, re, subprocess, hashlib, tempfile, struct
from fractions import Fraction

REPO = os.environ.get("GCEM_REPO", "/repo")
INC = os.path.join(REPO, "include")
CLANG = "clang++"
OPT = "opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"

CT = {"f": "float", "d": "double", "l": "long double", "i": "int", "u": "unsigned int",
      "q": "long long", "Q": "unsigned long long", "h": "short", "c": "signed char", "b": "bool"}

def wrapper(fn, tys, name=None, expr=None):
    """extern "C" wrapper calling public function gcem::fn with argument type letters tys."""
    name = name or wname(fn, tys)
    ps = ", ".join("%s a%d" % (CT[t], i) for i, t in enumerate(tys))
    call = expr or "gcem::%s(%s)" % (fn, ", ".join("a%d" % i for i in range(len(tys))))
    return 'extern "C" auto %s(%s) -> decltype(%s) { return %s; }' % (name, ps, call, call)

def wname(fn, tys):
    return "w_%s_%s" % (fn, tys)

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def compile_ir(wrappers, std, workdir, tag="drv", passes="sroa,mem2reg,lowerswitch", defs=()):
    src = os.path.join(workdir, "%s_%s.cpp" % (tag, std))
    with open(src, "w") as f:
        f.write('#include "gcem.hpp"\n' + "\n".join(wrappers) + "\n")
    raw = src[:-4] + ".raw.ll"
    out = src[:-4] + ".ll"
    r = run([CLANG, "-std=" + std, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-w",
             "-ffp-contract=off", "-fno-discard-value-names", "-S", "-emit-llvm", "-I" + INC, *defs, src, "-o", raw])
    if r.returncode:
        raise BuildError(r.stderr.decode()[:4000])
    r = run([OPT, "-passes=" + passes, "-S", raw, "-o", out])
    if r.returncode:
        raise BuildError(r.stderr.decode()[:4000])
    return Module(open(out).read())

def compile_bin(src_text, std, workdir, tag, flags=()):
    src = os.path.join(workdir, "%s_%s.cpp" % (tag, std))
    out = src[:-4]
    with open(src, "w") as f:
        f.write(src_text)
    r = run([CLANG, "-std=" + std, "-w", "-O0", "-ffp-contract=off", "-I" + INC, *flags, src, "-o", out])
    if r.returncode:
        raise BuildError(r.stderr.decode()[:4000])
    return out

_n = [0]
def compile_obj(src_text, std, workdir, cc):
    """(compiles, first errors)"""
    _n[0] += 1
    src = os.path.join(workdir, "cx%d_%s.cpp" % (_n[0], std))
    with open(src, "w") as f: f.write(src_text)
    r = run([cc, "-std=" + std, "-w", "-fsyntax-only", "-I" + INC, src], timeout=300)
    return r.returncode == 0, r.stderr.decode()[:6000]

# ------------------------------------------------------------------------------------------ parser
FPT = ("float", "double", "x86_fp80")

class Const:
    __slots__ = ("ty", "v")
    def __init__(self, ty, v):
        self.ty, self.v = ty, v          # ints: python int (unsigned); fp: raw bits (int) of that format
    def __repr__(self):
        return "%s:%s" % (self.ty, self.v)

class Reg:
    __slots__ = ("ty", "name")
    def __init__(self, ty, name):
        self.ty, self.name = ty, name
    def __repr__(self):
        return "%%%s" % self.name

class Glob:
    __slots__ = ("ty", "name")
    def __init__(self, ty, name):
        self.ty, self.name = ty, name

class Instr:
    __slots__ = ("dest", "op", "ty", "args", "x", "line")
    def __init__(self, dest, op, ty, args, x=None, line=""):
        self.dest, self.op, self.ty, self.args, self.x, self.line = dest, op, ty, args, x, line

class Func:
    def __init__(self, name, rty, params):
        self.name, self.rty, self.params = name, rty, params
        self.blocks = {}
        self.order = []

class Unsupported(Exception):
    pass

def parse_fp(ty, tok):
    if tok.startswith("0xK"):
        return int(tok[3:], 16)
    if tok.startswith("0x"):
        bits = int(tok[2:], 16)
    else:
        bits = struct.unpack("<Q", struct.pack("<d", float(tok)))[0]
    if ty == "double":
        return bits
    if ty == "float":
        d = struct.unpack("<d", struct.pack("<Q", bits))[0]
        if d != d:
            return 0x7fc00000
        return struct.unpack("<I", struct.pack("<f", d))[0]
    raise Unsupported("fp const " + ty + tok)

TYRE = r'(?:i\d+|float|double|x86_fp80|ptr|void|\[\d+ x (?:i\d+|float|double|x86_fp80)\])'
IDRE = r'(?:"[^"]+"|[-a-zA-Z$._0-9]+)'

def unq(s):
    return s[1:-1] if s.startswith('"') else s

class Module:
    def __init__(self, text):
        self.funcs, self.globals = {}, {}
        cur = None; blk = None
        for line in text.split("\n"):
            s = line.split(" ; ")[0].rstrip() if not line.startswith(";") else ""
            if cur is None:
                if s.startswith("define"):
                    m = re.search(r'(%s)\s+@(%s)\((.*)\)' % (TYRE, IDRE), s)
                    if not m:
                        continue
                    name = unq(m.group(2)); ps = []
                    body = m.group(3)
                    # cut at matching paren
                    depth = 0; end = len(body)
                    for i, ch in enumerate(body):
                        if ch == "(": depth += 1
                        elif ch == ")":
                            if depth == 0: end = i; break
                            depth -= 1
                    body = body[:end]
                    for p in split_args(body):
                        mm = re.match(r'(%s)\b.*%%(%s)$' % (TYRE, IDRE), p.strip())
                        if mm:
                            ps.append((mm.group(1), unq(mm.group(2))))
                        elif p.strip():
                            ps.append(("?", p))
                    cur = Func(name, m.group(1), ps); blk = None
                elif s.startswith("@"):
                    m = re.match(r'@(%s) = .*?(?:constant|global) (\[(\d+) x (%s)\]) (\[.*\]|zeroinitializer)' % (IDRE, TYRE), s)
                    if m:
                        n, et = int(m.group(3)), m.group(4)
                        if m.group(5) == "zeroinitializer":
                            vals = [0] * n
                        else:
                            vals = []
                            for e in split_args(m.group(5)[1:-1]):
                                t, v = e.strip().split(" ", 1)
                                vals.append(parse_fp(t, v) if t in FPT else int(v) & ((1 << int(t[1:])) - 1))
                        self.globals[unq(m.group(1))] = (et, vals)
                    else:
                        m = re.match(r'@(%s) = .*?(?:constant|global) (%s) (\S+?),' % (IDRE, TYRE), s)
                        if m and m.group(2) in FPT:
                            self.globals[unq(m.group(1))] = (m.group(2), [parse_fp(m.group(2), m.group(3))])
                        elif m and re.match(r'i\d+$', m.group(2)) and re.match(r'-?\d+$', m.group(3)):
                            self.globals[unq(m.group(1))] = (m.group(2), [int(m.group(3)) & ((1 << int(m.group(2)[1:])) - 1)])
                continue
            if s == "}":
                self.funcs[cur.name] = cur; cur = None; continue
            if not s.strip():
                continue
            m = re.match(r'(%s):' % IDRE, s)
            if m and not s.startswith(" "):
                blk = unq(m.group(1)); cur.blocks[blk] = []; cur.order.append(blk); continue
            if blk is None:
                blk = "entry"; cur.blocks[blk] = []; cur.order.append(blk)
            try:
                ins = self.parse(s.strip())
            except Unsupported as e:
                ins = Instr(None, "unsupported", None, [], str(e) + " :: " + s.strip())
            except Exception as e:
                ins = Instr(None, "unsupported", None, [], repr(e) + " :: " + s.strip())
            ins.line = s.strip()
            cur.blocks[blk].append(ins)

    def operand(self, ty, tok):
        tok = tok.strip()
        if tok.startswith("%"):
            return Reg(ty, unq(tok[1:]))
        if tok.startswith("@"):
            return Glob(ty, unq(tok[1:]))
        if tok in ("undef", "poison"):
            return Const(ty, "undef")
        if ty in FPT:
            return Const(ty, parse_fp(ty, tok))
        if ty == "ptr":
            if tok == "null": return Const(ty, 0)
            m = re.match(r'getelementptr', tok)
            raise Unsupported("ptr const " + tok)
        w = int(ty[1:])
        if tok == "true": return Const(ty, 1)
        if tok == "false": return Const(ty, 0)
        return Const(ty, int(tok) & ((1 << w) - 1))

    def parse(self, s):
        s = re.sub(r', !\S+ !\d+', '', s)
        s = re.sub(r', !dbg !\d+', '', s)
        dest = None
        m = re.match(r'%%(%s) = (.*)' % IDRE, s)
        if m:
            dest, s = unq(m.group(1)), m.group(2)
        op = s.split(" ", 1)[0]
        rest = s[len(op):].strip()
        if op in ("tail", "notail", "musttail"):
            op = "call"; rest = rest[5:]
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            fl = []
            while rest.split(" ")[0] in ("nsw", "nuw", "exact", "disjoint"):
                f, rest = rest.split(" ", 1); fl.append(f)
            ty, rest = rest.split(" ", 1)
            a, b = rest.split(", ")
            return Instr(dest, op, ty, [self.operand(ty, a), self.operand(ty, b)], fl)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            ty, rest = rest.split(" ", 1)
            if ty not in FPT: raise Unsupported("flags " + s)
            a, b = rest.split(", ")
            return Instr(dest, op, ty, [self.operand(ty, a), self.operand(ty, b)])
        if op == "fneg":
            ty, a = rest.split(" ", 1)
            return Instr(dest, op, ty, [self.operand(ty, a)])
        if op in ("icmp", "fcmp"):
            pred, ty, rest = rest.split(" ", 2)
            a, b = rest.split(", ")
            return Instr(dest, op, ty, [self.operand(ty, a), self.operand(ty, b)], pred)
        if op in ("fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "zext", "sext", "trunc", "bitcast"):
            rest = re.sub(r'^(nneg|nuw|nsw) ', '', rest)
            m = re.match(r'(%s) (\S+) to (%s)' % (TYRE, TYRE), rest)
            return Instr(dest, op, m.group(3), [self.operand(m.group(1), m.group(2))], m.group(1))
        if op == "select":
            m = re.match(r'i1 (\S+), (%s) (\S+), (%s) (\S+)' % (TYRE, TYRE), rest)
            return Instr(dest, op, m.group(2), [self.operand("i1", m.group(1)), self.operand(m.group(2), m.group(3)), self.operand(m.group(4), m.group(5))])
        if op == "phi":
            m = re.match(r'(%s) (.*)' % TYRE, rest)
            ty = m.group(1); inc = []
            for a in re.findall(r'\[ (\S+), %(\S+) \]', m.group(2)):
                inc.append((self.operand(ty, a[0]), unq(a[1])))
            return Instr(dest, op, ty, [i[0] for i in inc], [i[1] for i in inc])
        if op == "br":
            m = re.match(r'label %%(%s)' % IDRE, rest)
            if m: return Instr(None, "br", None, [], [unq(m.group(1))])
            m = re.match(r'i1 (\S+), label %%(%s), label %%(%s)' % (IDRE, IDRE), rest)
            return Instr(None, "cbr", None, [self.operand("i1", m.group(1))], [unq(m.group(2)), unq(m.group(3))])
        if op == "switch":
            raise Unsupported("switch")
        if op == "ret":
            if rest == "void": return Instr(None, "ret", "void", [])
            ty, a = re.match(r'(%s) (\S+)' % TYRE, rest).groups()
            return Instr(None, "ret", ty, [self.operand(ty, a)])
        if op == "unreachable":
            return Instr(None, "unreachable", None, [])
        if op == "call":
            m = re.match(r'(?:fastcc |noundef |signext |zeroext |range\S+ )*(%s) @(%s)\((.*)\)' % (TYRE, IDRE), rest)
            if not m: raise Unsupported(s)
            args = []
            for p in split_args(m.group(3)):
                p = p.strip()
                if not p: continue
                mm = re.match(r'(%s)\b(?: (?:noundef|nonnull|align \d+|dereferenceable\(\d+\)|signext|zeroext))* (\S+)$' % TYRE, p)
                if not mm: raise Unsupported("arg " + p)
                args.append(self.operand(mm.group(1), mm.group(2)))
            return Instr(dest, "call", m.group(1), args, unq(m.group(2)))
        if op == "getelementptr":
            m = re.match(r'(?:inbounds |nuw )*(%s), ptr (\S+), (.*)' % TYRE, rest)
            idx = []
            for p in split_args(m.group(3)):
                t, v = p.strip().split(" ")
                idx.append(self.operand(t, v))
            return Instr(dest, "gep", "ptr", [self.operand("ptr", m.group(2))] + idx, m.group(1))
        if op == "load":
            m = re.match(r'(%s), ptr (\S+?)(?:,.*)?$' % TYRE, rest)
            return Instr(dest, "load", m.group(1), [self.operand("ptr", m.group(2))])
        if op == "store":
            m = re.match(r'(%s) (\S+), ptr (\S+?)(?:,.*)?$' % TYRE, rest)
            return Instr(None, "store", m.group(1), [self.operand(m.group(1), m.group(2)), self.operand("ptr", m.group(3))])
        if op == "alloca":
            m = re.match(r'(%s)' % TYRE, rest)
            return Instr(dest, "alloca", "ptr", [], m.group(1))
        raise Unsupported(s)

    def reachable(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n in seen or n not in self.funcs: continue
            seen.add(n)
            for b in self.funcs[n].blocks.values():
                for i in b:
                    if i.op == "call": todo.append(i.x)
        return seen

def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{<": d += 1
        if ch in ")]}>": d -= 1
        if ch == "," and d == 0:
            out.append(cur); cur = ""
        else:
            cur += ch
    if cur.strip(): out.append(cur)
    return out
