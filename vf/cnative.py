"""Execution of the project's real C code on concrete data.

The real sources are compiled with reference implementations of BLASFEO (stubs/src) and called
through ctypes.  Structures get their layout from clang's AST.  Memory is laid out from the same
access paths the verifier uses, so a specification written for the proof (a z3 term over initial
values) can be evaluated on the concrete memory: counterexamples are replayed, and functions the
verifier cannot handle are tested against the very same contract.
"""
import ctypes, os, subprocess, tempfile, atexit, shutil, random, re, math, signal, json, sys
from fractions import Fraction
import z3
from .core import REPO, HOME, Unsupported
from .cast import tstr, tkind, pointee, fname_params
from . import csym

INC = ["-I" + os.path.join(HOME, "stubs/include"), "-I" + REPO, "-I" + os.path.join(REPO, "interfaces")]
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vfnative_")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


_libs = {}


def _globalize(objs):
    """makes static functions callable from outside (those whose name is unique)"""
    seen, loc = {}, {}
    for o in objs:
        for l in subprocess.run(["nm", o], capture_output=True, text=True).stdout.splitlines():
            p = l.split()
            if len(p) == 3 and p[1] in "tTW":
                seen[p[2]] = seen.get(p[2], 0) + 1
                if p[1] == "t":
                    loc.setdefault(o, []).append(p[2])
    for o, names in loc.items():
        a = [f"--globalize-symbol={x}" for x in names if seen[x] == 1 and "." not in x]
        if a:
            subprocess.run(["objcopy", *a, o], capture_output=True)


def _without_calls(src, dst, names):
    """assembler source with the calls of the given functions replaced by calls of an empty one"""
    t = open(src).read()
    for n in names:
        t, k = re.subn(r"(?m)^(\s+call\s+)%s(@PLT)?\s*$" % re.escape(n), r"\1.Lvf_nop", t)
        t, j = re.subn(r"(?m)^(\s+)jmp\s+%s(@PLT)?\s*$" % re.escape(n), r"\1ret", t)
        if not k + j:
            raise Unsupported(f"{n} is not called any more")
    open(dst, "w").write(t + "\n\t.text\n.Lvf_nop:\n\tret\n")


def lib(files, defs=(), extra=("blasfeo_ref.c",), nocall=()):
    """shared library built from the real sources; undefined symbols stay undefined until called"""
    key = (tuple(files), tuple(defs)) + tuple(nocall)
    if key in _libs:
        return _libs[key]
    d = tmpdir()
    objs, procs = [], []
    n = len(_libs)
    for i, f in enumerate([os.path.join(REPO, f) for f in files] + [os.path.join(HOME, "stubs/src", f) for f in extra]):
        o = os.path.join(d, f"l{n}_{i}.o")
        objs.append(o)
        cc = "-c"
        if nocall and i < len(files) and any(x in open(f).read() for x in nocall):
            a = o[:-2] + ".s"
            r = subprocess.run(["gcc", "-S", "-g", "-O1", "-fno-inline", "-fkeep-static-functions", "-fno-ipa-sra", "-fno-ipa-cp", "-fPIC", "-w", "-ffp-contract=off", *["-D" + x for x in defs], *INC, f, "-o", a], capture_output=True)
            if r.returncode:
                raise Unsupported(f"gcc cannot compile {f}: {r.stderr.decode()[:300]}")
            t = open(f).read()
            _without_calls(a, o[:-2] + "_n.s", [x for x in nocall if x in t])
            f = o[:-2] + "_n.s"
        procs.append((f, subprocess.Popen(["gcc", "-c", "-g", "-O1", "-fno-inline", "-fkeep-static-functions", "-fno-ipa-sra", "-fno-ipa-cp", "-fPIC", "-w", "-ffp-contract=off", *["-D" + x for x in defs], *INC, f, "-o", o],
                                          stderr=subprocess.PIPE)))
    for f, p in procs:
        _, e = p.communicate()
        if p.returncode:
            raise Unsupported(f"gcc cannot compile {f}: {e.decode()[:300]}")
    _globalize(objs)
    so = os.path.join(d, f"l{n}.so")
    r = subprocess.run(["gcc", "-shared", "-Wl,-z,lazy", *objs, "-o", so, "-lm"], capture_output=True)
    if r.returncode:
        raise Unsupported("link: " + r.stderr.decode()[:300])
    L = ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
    _libs[key] = L
    return L


# ------------------------------------------------------------------ types
BASIC = {"double": ctypes.c_double, "float": ctypes.c_float, "int": ctypes.c_int, "unsigned int": ctypes.c_uint, "char": ctypes.c_char,
         "unsigned char": ctypes.c_ubyte, "signed char": ctypes.c_byte, "_Bool": ctypes.c_bool, "bool": ctypes.c_bool, "long": ctypes.c_long,
         "unsigned long": ctypes.c_ulong, "size_t": ctypes.c_size_t, "acados_size_t": ctypes.c_size_t, "hpipm_size_t": ctypes.c_size_t,
         "long long": ctypes.c_longlong, "unsigned long long": ctypes.c_ulonglong, "short": ctypes.c_short, "real_t": ctypes.c_double}


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.fields = {}

    def rec(self, s):
        s = s.strip()
        r = self.prog.records
        for k in (s, "struct " + s):
            if k in r:
                return k, r[k]
        td = self.prog.typedefs.get(s)
        if td is not None:
            u = tstr(td["type"])
            if u != s:
                return self.rec(u)
        return None

    def ct(self, s):
        """ctypes type of a C type string"""
        s = s.strip()
        k = tkind(s)
        if k in ("ptr", "fptr"):
            return ctypes.c_void_p
        if k == "array":
            m = re.findall(r"\[(\d+)\]", s)
            t = self.ct(s[:s.index("[")])
            for x in reversed(m):
                t = t * int(x)
            return t
        if s in BASIC:
            return BASIC[s]
        if s.startswith("enum "):
            return ctypes.c_int
        if s == "void":
            return ctypes.c_char
        r = self.rec(s)
        if r is None:
            td = self.prog.typedefs.get(s)
            if td is not None and tstr(td["type"]) != s:
                return self.ct(tstr(td["type"]))
            return ctypes.c_int      # an enum typedef
        name, fl = r
        if name not in self.cache:
            self.cache[name] = None
            c = type(re.sub(r"\W", "_", name), (ctypes.Structure,), {})
            c._fields_ = [(n, self.ct(tstr(t))) for n, t in fl]
            self.cache[name] = c
            self.fields[name] = {n: tstr(t) for n, t in fl}
        return self.cache[name]

    def field(self, s, name):
        r = self.rec(s)
        c = self.ct(s)
        return self.fields[r[0]].get(name), getattr(c, name).offset


class Memory:
    """concrete memory of one call, addressed by access paths"""

    def __init__(self, types, roots, cast=None, K=5, KD=64, nullp=None, values=None, maxdepth=9, matdim=(14, 14), keep=()):
        """roots: {param: C type string}.  cast: {key: pointee type} for void pointers (key ends in '*' or is the root)
        nullp(key): leave this pointer NULL;  values(key, idx, ty) -> initial value or None"""
        self.T, self.roots, self.cast = types, roots, dict(cast or {})
        self.K, self.KD, self.nullp, self.values = K, KD, nullp, values
        self.blocks = []           # (addr, buffer, key, idx, elemtype, n)
        self.args = {}
        self.maxdepth, self.matdim = maxdepth, matdim
        self.keep = list(keep)
        for r, ty in roots.items():
            if tkind(ty) == "ptr":
                self.args[r] = self._alloc((r,), (), self.cast.get((r,), pointee(ty)), 0, 1)
        self.snap = None

    def _alloc(self, key, idx, ty, depth, n=None):
        """block for the target of a pointer; key names the pointer's target"""
        k = tkind(ty)
        if ty == "void":
            return 0
        if ty == "char":
            n = 64
        elif k in ("float",):
            n = self.KD
        elif k in ("int", "bool"):
            n = 16
        elif k == "record" and self.T.rec(ty) is None:
            n = 16
        elif n is None:
            n = self.K
        ct = self.T.ct(ty)
        buf = (ct * n)()
        addr = ctypes.addressof(buf)
        self.blocks.append((addr, buf, key, idx, ty, n))
        for i in range(n):
            self._fill(key + ("[]",), idx + (i,), ty, addr + i * ctypes.sizeof(ct), depth)
        return addr

    def _fill(self, key, idx, ty, addr, depth):
        k = tkind(ty)
        if k == "record" and self.T.rec(ty) is not None:
            name, fl = self.T.rec(ty)
            c = self.T.ct(ty)
            if name == "struct blasfeo_dvec":
                self._vec(key, idx, addr, c)
                return
            if name == "struct blasfeo_dmat":
                self._mat(key, idx, addr, c)
                return
            for n, t in fl:
                self._fill(key + (n,), idx, tstr(t), addr + getattr(c, n).offset, depth)
            return
        if k == "array":
            et = pointee(ty)
            m = re.match(r".*?\[(\d+)\]", ty)
            n = int(m.group(1))
            sz = ctypes.sizeof(self.T.ct(et))
            for i in range(n):
                self._fill(key + ("[]",), idx + (i,), et, addr + i * sz, depth)
            return
        if k == "ptr":
            tk = key + ("*",)
            pt = self.cast.get(tk, pointee(ty))
            if depth < self.maxdepth and not (self.nullp and self.nullp(tk)):
                a = self._alloc(tk, idx, pt, depth + 1)
                ctypes.c_void_p.from_address(addr).value = a
            return
        if k == "fptr":
            v = self.values(key, idx, ty) if self.values else None
            if v is not None:
                self.keep.append(v)
                ctypes.c_void_p.from_address(addr).value = ctypes.cast(v, ctypes.c_void_p).value
            return
        v = self.values(key, idx, ty) if self.values else None
        if v is not None:
            self._put(addr, ty, v)

    def _put(self, addr, ty, v):
        ct = self.T.ct(ty)
        if ct is ctypes.c_char:
            v = int(v) & 255
            ctypes.c_ubyte.from_address(addr).value = v
        else:
            ct.from_address(addr).value = float(v) if ct in (ctypes.c_double, ctypes.c_float) else bool(v) if ct is ctypes.c_bool else int(v)

    def _vec(self, key, idx, addr, c):
        n = self.KD
        buf = (ctypes.c_double * n)()
        a = ctypes.addressof(buf)
        k2 = key + ("pa", "*")
        self.blocks.append((a, buf, k2, idx, "double", n))
        for i in range(n):
            v = self.values(k2 + ("[]",), idx + (i,), "double") if self.values else None
            if v is not None:
                buf[i] = float(v)
        s = c.from_address(addr)
        s.mem = s.pa = a
        s.m = s.pm = n
        s.memsize = 8 * n

    def _mat(self, key, idx, addr, c):
        m, n = self.matdim
        buf = (ctypes.c_double * (m * n))()
        a = ctypes.addressof(buf)
        k2 = key + ("pA", "*")
        self.blocks.append((a, buf, k2, idx, "mat", m * n))
        for j in range(n):
            for i in range(m):
                v = self.values(k2 + ("[,]",), idx + (0, i, j), "double") if self.values else None
                if v is not None:
                    buf[i + j * m] = float(v)
        s = c.from_address(addr)
        s.mem = s.pA = a
        s.m = s.pm = m
        s.n = s.cn = n
        s.memsize = 8 * m * n

    # ------------------------------------------------------------ access by path
    def addr(self, key, idx):
        """-> (address, C type) following the pointers of the snapshot (or the current memory)"""
        ty = self.cast.get((key[0],), None)
        root = self.roots[key[0]]
        idx = list(idx)
        if tkind(root) == "ptr":
            a, ty = self.args[key[0]], (ty or pointee(root))
        else:
            raise KeyError(key)
        pre = (key[0],)
        pend = True      # a points to elements of type ty; '[]' selects
        for el in key[1:]:
            pre = pre + (el,)
            if el == "[]":
                i = idx.pop(0)
                if tkind(ty) == "array":
                    ty = pointee(ty)
                elif not pend:
                    raise KeyError(key)
                a = a + i * ctypes.sizeof(self.T.ct(ty))
                pend = False
            elif el == "[,]":
                off, i, j = idx.pop(0), idx.pop(0), idx.pop(0)
                m = self.matdim[0]
                a = a + 8 * (off + i + j * m)
                ty, pend = "double", False
            elif el == "*":
                v = self._read(a, ctypes.c_void_p)
                if not v:
                    raise KeyError(f"null pointer on {key}")
                a, ty, pend = v, self.cast.get(pre, pointee(ty)), True
            else:
                ft, off = self.T.field(ty, el)
                a, ty, pend = a + off, ft, False
        return a, ty

    def _read(self, a, ct):
        if self.snap is not None:
            import bisect
            j = bisect.bisect_right(self.snapkeys, a) - 1
            if j < 0:
                raise KeyError(hex(a))
            base, data = self.snap[j]
            o = a - base
            if o < 0 or o + ctypes.sizeof(ct) > len(data):
                raise KeyError("outside the allocated blocks")
            return ct.from_buffer_copy(data, o).value
        for base, buf, *_ in self.blocks:
            if base <= a and a + ctypes.sizeof(ct) <= base + ctypes.sizeof(buf):
                return ct.from_address(a).value
        raise KeyError("outside the allocated blocks")

    def freeze(self):
        b = sorted(((x[0], bytes(x[1])) for x in self.blocks if ctypes.sizeof(x[1])), key=lambda x: x[0])
        self.snap = b
        self.snapkeys = [x[0] for x in b]

    def initial(self, key, idx):
        a, ty = self.addr(key, idx)
        ct = self.T.ct(ty)
        if ct is ctypes.c_char:
            ct = ctypes.c_byte
        return self._read(a, ct)

    def current(self, key, idx):
        a, ty = self.addr(key, idx)
        ct = self.T.ct(ty)
        if ct is ctypes.c_char:
            ct = ctypes.c_byte
        return ct.from_address(a).value

    def set(self, key, idx, v):
        a, ty = self.addr(key, idx)
        ok = any(base <= a and a < base + ctypes.sizeof(buf) for base, buf, *_ in self.blocks)
        if not ok:
            raise KeyError(f"{key}{idx} outside the allocated blocks")
        self._put(a, ty, v)

    def changed(self):
        """(key, idx, type, old, new) of every number that changed since freeze"""
        snap = dict(self.snap)
        for addr, buf, key, idx, ty, n in self.blocks:
            old = snap.get(addr)
            if old is None or old == bytes(buf):
                continue
            yield from self._diff(key, idx, ty, n, buf, old)

    def _diff(self, key, idx, ty, n, buf, old):
        if ty == "mat":
            m = self.matdim[0]
            for q in range(n):
                o = ctypes.c_double.from_buffer_copy(old, 8 * q).value
                if buf[q] != o:
                    yield key + ("[,]",), idx + (0, q % m, q // m), "double", o, buf[q]
            return
        ct = self.T.ct(ty)
        sz = ctypes.sizeof(ct)
        for i in range(n):
            yield from self._diffv(key + ("[]",), idx + (i,), ty, ctypes.addressof(buf) + i * sz, old, i * sz)

    def _diffv(self, key, idx, ty, addr, old, off):
        k = tkind(ty)
        ct = self.T.ct(ty)
        if k == "record" and self.T.rec(ty) is not None:
            for n, t in self.T.rec(ty)[1]:
                o = getattr(ct, n).offset
                yield from self._diffv(key + (n,), idx, tstr(t), addr + o, old, off + o)
            return
        if k == "array":
            et = pointee(ty)
            sz = ctypes.sizeof(self.T.ct(et))
            for i in range(ctypes.sizeof(ct) // sz):
                yield from self._diffv(key + ("[]",), idx + (i,), et, addr + i * sz, old, off + i * sz)
            return
        if ct is ctypes.c_char:
            ct = ctypes.c_byte
        a, b = ct.from_buffer_copy(old, off).value, ct.from_address(addr).value
        if a != b and not (a != a and b != b):
            yield key, idx, ty, a, b


# ------------------------------------------------------------------ evaluating terms on memory
class EvalError(Exception):
    pass


class Eval:
    """value of a z3 term, reading uninterpreted initial values from the frozen memory"""

    def __init__(self, mem, interp, scalars=None, funcs=None, env=None):
        self.mem, self.it, self.scalars, self.funcs = mem, interp, dict(scalars or {}), dict(funcs or {})
        self.cache = {}

    def __call__(self, t, env=None):
        f = self.comp(t)
        return f(env or {})

    def comp(self, t):
        """term -> closure env -> value"""
        c = self.cache.get(t.get_id())
        if c is not None:
            return c[0]
        f = self._comp(t)
        self.cache[t.get_id()] = (f, t)
        return f

    def _comp(self, t):
        k = t.decl().kind()
        if z3.is_int_value(t):
            v = t.as_long()
            return lambda e: v
        if z3.is_rational_value(t):
            q = t.as_fraction()
            v = q.numerator / q.denominator
            return lambda e: v
        if z3.is_true(t):
            return lambda e: True
        if z3.is_false(t):
            return lambda e: False
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.uf(t)
        ch = [self.comp(c) for c in t.children()]
        if k == z3.Z3_OP_ITE:
            c0, c1, c2 = ch
            return lambda e: c1(e) if c0(e) else c2(e)
        if k == z3.Z3_OP_AND:
            return lambda e: all(c(e) for c in ch)
        if k == z3.Z3_OP_OR:
            return lambda e: any(c(e) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return lambda e: (not ch[0](e)) or ch[1](e)
        if k == z3.Z3_OP_NOT:
            return lambda e: not ch[0](e)
        if k == z3.Z3_OP_ADD:
            if len(ch) == 2:
                p, q = ch
                return lambda e: p(e) + q(e)
            return lambda e: sum(c(e) for c in ch)
        if k == z3.Z3_OP_MUL:
            if len(ch) == 2:
                p, q = ch
                return lambda e: p(e) * q(e)
            return lambda e: math.prod(c(e) for c in ch)
        if k == z3.Z3_OP_UMINUS:
            return lambda e: -ch[0](e)
        if k == z3.Z3_OP_TO_REAL:
            return lambda e: float(ch[0](e))
        if k == z3.Z3_OP_TO_INT:
            return lambda e: math.floor(ch[0](e))
        if k == z3.Z3_OP_DISTINCT:
            return lambda e: len(set(c(e) for c in ch)) == len(ch)
        if k == z3.Z3_OP_SUB and len(ch) > 2:
            return lambda e: ch[0](e) - sum(c(e) for c in ch[1:])
        p, q = ch

        def div(e):
            d = q(e)
            if d == 0:
                raise EvalError("division by zero")
            return p(e) / d

        def idiv(e):
            d = q(e)
            if d == 0:
                raise EvalError("division by zero")
            x = p(e)
            return (x - x % abs(d)) // d
        ops = {z3.Z3_OP_SUB: lambda e: p(e) - q(e), z3.Z3_OP_DIV: div, z3.Z3_OP_IDIV: idiv, z3.Z3_OP_MOD: lambda e: p(e) % abs(q(e)),
               z3.Z3_OP_REM: lambda e: p(e) % abs(q(e)), z3.Z3_OP_POWER: lambda e: p(e) ** q(e), z3.Z3_OP_EQ: lambda e: p(e) == q(e),
               z3.Z3_OP_LE: lambda e: p(e) <= q(e), z3.Z3_OP_LT: lambda e: p(e) < q(e), z3.Z3_OP_GE: lambda e: p(e) >= q(e),
               z3.Z3_OP_GT: lambda e: p(e) > q(e), z3.Z3_OP_XOR: lambda e: bool(p(e)) != bool(q(e)), z3.Z3_OP_IFF: lambda e: bool(p(e)) == bool(q(e))}
        if k not in ops:
            raise EvalError(f"operator {t.decl()}")
        return ops[k]

    def uf(self, t):
        n = t.decl().name()
        ch = [self.comp(c) for c in t.children()]
        if not ch:
            if n in self.scalars:
                v = self.scalars[n]
                return lambda e: v
            if n == "-infinity":
                return lambda e: float("-inf")
            if n == "-infinityI":
                return lambda e: -10 ** 18
        if n in self.funcs:
            g = self.funcs[n]
            return lambda e: g(*[c(e) for c in ch])
        if n in self.it.sums:
            f, tt, ps = self.it.sums[n]
            body = self.comp(tt)
            names = [p.decl().name() for p in ps]

            def S(e):
                a = [c(e) for c in ch]
                at = a.pop()
                env = dict(zip(names, a))
                tot = 0
                for q in range(min(0, at), max(0, at)):
                    env["@k"] = q
                    try:
                        v = body(env)
                    except EvalError:
                        v = 0      # outside the summed range: the prefix cancels
                    tot = tot + v if at > 0 else tot - v
                return tot
            return S
        if n in self.it.maxs:
            f, tt, ps = self.it.maxs[n]
            body = self.comp(tt)
            names = [p.decl().name() for p in ps]

            def M(e):
                a = [c(e) for c in ch]
                lo, hi = a[-2:]
                r = float("-inf") if tt.sort() == z3.RealSort() else -10 ** 18
                env = dict(zip(names, a[:-2]))
                for q in range(lo, hi):
                    env["@k"] = q
                    r = max(r, body(env))
                return r
            return M
        if n in getattr(self.it, "lasts", {}):
            f, tt, ps = self.it.lasts[n]
            body = self.comp(tt)
            names = [p.decl().name() for p in ps]

            def LAST(e):
                a = [c(e) for c in ch]
                lo, hi = a[-2:]
                env = dict(zip(names, a[:-2]))
                for q in range(hi - 1, lo - 1, -1):
                    env["@k"] = q
                    if body(env):
                        return q
                return lo - 1
            return LAST
        if n.startswith("ext_"):        # a function of the model: see vf/extfun.py
            from .extfun import combine
            o_ = int(n.rsplit("_", 1)[1])
            return lambda e: combine(o_, ch[0](e), [c(e) for c in ch[1:]])
        if n == "chol":                 # an instance of the uninterpreted factorisation (stubs/src/blasfeo_ref.c)
            return lambda e: (1 + ch[1](e) - 0.5 * ch[2](e)) * ch[0](e) + 0.25 * ch[2](e)
        if n == "fn_sqrt":
            return lambda e: math.sqrt(ch[0](e)) if ch[0](e) >= 0 else float("nan")
        if n == "fn_pow":
            return lambda e: math.pow(ch[0](e), ch[1](e))
        if n.startswith("fn_") and hasattr(math, n[3:]):
            g = getattr(math, n[3:])

            def F(e):
                try:
                    return float(g(*[c(e) for c in ch]))
                except (ValueError, OverflowError):
                    raise EvalError(n)
            return F
        m = re.match(r"sizeof\((.*)\)$", n)
        if m:
            v = ctypes.sizeof(self.mem.T.ct(m.group(1)))
            return lambda e: v
        nm = n[:-2] if n.endswith(":r") else n
        key = tuple(nm.split("."))
        if key[0] in self.mem.roots:
            memo = {}

            def G(e):
                a = tuple(int(c(e)) for c in ch)
                if a in memo:
                    return memo[a]
                try:
                    v = self.mem.initial(key, a)
                except KeyError as x:
                    raise EvalError(f"{n}{a}: {x}")
                v = int(v) if isinstance(v, bool) else v
                memo[a] = v
                return v
            return G

        def E(e):
            if n in e:
                return e[n]
            raise EvalError(f"no value for {n}")
        return E


def close(a, b, tol=1e-9):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def forked(fn, timeout=120):
    """run fn in a child process: -> ("ok", result) | ("crash", signal) ; the code under test may crash"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            signal.alarm(timeout)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            res = fn()
            data = json.dumps(res, default=str).encode()
        except BaseException as e:   # noqa
            data = json.dumps({"__exc__": f"{type(e).__name__}: {e}"}).encode()
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return ("crash", os.WTERMSIG(status))
    if not data:
        return ("crash", os.WEXITSTATUS(status))
    v = json.loads(data)
    if isinstance(v, dict) and "__exc__" in v:
        return ("error", v["__exc__"])
    return ("ok", v)
