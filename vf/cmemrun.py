"""Runs the project's real size and assign functions on concrete dimensions (replay of failed C01 obligations).

All parsed sources are compiled twice, as they are, with two instruments: the calls of the helpers in mem.c go through
wrappers that log what was handed out, and the absent libraries (HPIPM) and the modules behind function pointers are
stubs whose size functions return a value depending on the arguments and whose assign functions log the range they own.
 run 1: asserts on, misaligned accesses trap, ranges handed out must be disjoint and inside the block
 run 2: asserts off, a gap with a pattern behind every range shows accesses beyond the end of an array
"""
import ctypes, json, os, random, re, subprocess, signal, time, zlib
from .core import REPO, HOME, Unsupported, SEED
from .cast import tstr, tkind, pointee, fname_params, body
from .cnative import Types, INC, tmpdir

CANARY = 0xA5
HELPERS = {"double_ptrs": "int n, double ***v", "int_ptrs": "int n, int ***v", "blasfeo_dvec_structs": "int n, struct blasfeo_dvec **v",
           "blasfeo_dmat_structs": "int n, struct blasfeo_dmat **v", "blasfeo_dmat_ptrs": "int n, struct blasfeo_dmat ***v", "char": "int n, char **v",
           "int": "int n, int **v", "bool": "int n, bool **v", "double": "int n, double **v", "blasfeo_dvec_mem": "int n, struct blasfeo_dvec *v",
           "blasfeo_dmat_mem": "int m, int n, struct blasfeo_dmat *v"}


def support(prog, types):
    """C source of the wrappers and of the stubs for functions without a body"""
    out = ["#include <stddef.h>", "#include <stdbool.h>", "#include <string.h>", '#include "acados/utils/mem.h"',
           "struct vf_rng { char *a, *b; } vf_log[200000]; int vf_n; int vf_gap; struct vf_rng vf_gaps[200000]; int vf_ng; int vf_neg; char *vf_lo, *vf_hi;",
           "void vf_range(char *a, char *b) { if (vf_n < 200000 && b > a) { vf_log[vf_n].a = a; vf_log[vf_n].b = b; vf_n++; } }",
           "static void behind(char **p, char *ret) { if (vf_gap && vf_ng < 14000 && vf_lo <= ret && ret < vf_hi) { memset(*p, %d, 64); vf_gaps[vf_ng].a = *p; vf_gaps[vf_ng++].b = *p + 64; *p += 64; } }" % CANARY,
           "void vf_reset(int gap) { vf_n = vf_ng = vf_neg = 0; vf_gap = gap; }"]
    for h, ps in HELPERS.items():
        a = ", ".join(re.findall(r"(\w+)(?:,|$)", ps))
        out.append(f"void vf_aa_{h}({ps}, char **p) {{ char *q = *p; assign_and_advance_{h}({a}, p); vf_range(q, *p); if (*p < q) vf_neg = 1; behind(p, __builtin_return_address(0)); }}")
    decl = {}

    def walk(n):
        if isinstance(n, dict):
            if n.get("kind") == "CallExpr":
                c = n["inner"][0]
                while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                    c = c["inner"][0]
                if c["kind"] == "DeclRefExpr":
                    ts = []
                    for a in n["inner"][1:]:
                        while a["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                            a = a["inner"][0]
                        ts.append(tstr(a["type"]))
                    decl.setdefault(c["referencedDecl"]["name"], ts)
            for x in n.get("inner", ()):
                walk(x)
    for f in prog.funcs.values():
        walk(f)
    names = sorted(n for n in decl if n.startswith("d_") and n not in prog.funcs)
    w = "static size_t vf_h(long *x, int n) { size_t s = 2; for (int i = 0; i < n; i++) s += (size_t) (((unsigned long) x[i] >> ((unsigned long) x[i] > 100000 ? 4 : 0)) % 5); return 64 * s + 4096; }"
    first = "\n".join(out) + "\n"
    out = ["#include <stddef.h>", "#include <string.h>", "void vf_range(char *a, char *b);", w]
    for n in names:
        ps = decl[n]
        k = len(ps)
        args = ", ".join(f"long a{i}" for i in range(k)) or "void"
        if n.endswith("memsize"):
            out.append(f"size_t {n}({args}) {{ long x[] = {{{', '.join(f'a{i}' for i in range(k)) or '0'}}}; return vf_h(x, {k}); }}")
        elif n.endswith("_create") and k >= 2:
            t = pointee(ps[-2])
            try:
                off = types.field(t, "memsize")[1]
            except Exception:
                off = None
            ptrs = ""
            try:
                r = types.rec(t)
                ptrs = " ".join(f"*(char **) ((char *) a{k - 2} + {getattr(types.ct(t), f).offset}) = (char *) a{k - 1} + (8 - a{k - 1} % 8) % 8;" for f, ft in r[1] if tkind(tstr(ft)) == "ptr")
            except Exception:
                pass
            s = f"long x[] = {{{', '.join(f'a{i}' for i in range(k - 2)) or '0'}}}; size_t s = vf_h(x, {k - 2}); "
            if off is not None:
                s += f"*(size_t *) ((char *) a{k - 2} + {off}) = s; "
            out.append(f"void {n}({args}) {{ {s} vf_range((char *) a{k - 1}, (char *) a{k - 1} + s); memset((char *) a{k - 1}, 0, s); {ptrs}}}")
        else:
            out.append(f"long {n}({args}) {{ return 0; }}")
    return first, "\n".join(out) + "\n"


_built = {}


def build(prog, files):
    """[library with asserts, library without]"""
    if "libs" in _built:
        return _built["libs"]
    d = tmpdir()
    types = Types(prog)
    sup = os.path.join(d, "vf_support.c")
    sup2 = os.path.join(d, "vf_stubs.c")
    for p, txt in zip((sup, sup2), support(prog, types)):
        open(p, "w").write(txt)
    jobs = []
    for v, flags in (("a", ["-fsanitize=alignment", "-fsanitize-undefined-trap-on-error"]), ("b", ["-DNDEBUG"])):
        for i, f in enumerate(files):
            src = os.path.join(REPO, f)
            ren = ["-DLA_HIGH_PERFORMANCE"] if f.endswith("utils/mem.c") else [f"-Dassign_and_advance_{h}=vf_aa_{h}" for h in HELPERS]
            jobs.append((f, v, os.path.join(d, f"m{v}{i}.o"), ["gcc", "-c", "-O1", "-fPIC", "-w", "-fno-inline", "-fkeep-static-functions", *flags, *ren, *INC, src]))
        jobs.append(("support", v, os.path.join(d, f"m{v}s.o"), ["gcc", "-c", "-O1", "-fPIC", "-w", *INC, sup]))
        jobs.append(("stubs", v, os.path.join(d, f"m{v}t.o"), ["gcc", "-c", "-O1", "-fPIC", "-w", "-fno-builtin", sup2]))
        jobs.append(("blasfeo", v, os.path.join(d, f"m{v}r.o"), ["gcc", "-c", "-O1", "-fPIC", "-w", *INC, os.path.join(HOME, "stubs/src/blasfeo_ref.c")]))
    run, errs = [], []

    def reap(x):
        f, p = x
        _, e = p.communicate()
        if p.returncode:
            errs.append(f"{f}: {e.decode()[:200]}")
    for f, v, o, cmd in jobs:
        run.append((f, subprocess.Popen(cmd + ["-o", o], stderr=subprocess.PIPE)))
        if len(run) >= 8:
            reap(run.pop(0))
    for x in run:
        reap(x)
    if errs:
        raise Unsupported("gcc: " + errs[0])
    libs = []
    for v in "ab":
        objs = [o for f, w, o, _ in jobs if w == v]
        so = os.path.join(d, f"m{v}.so")
        r = subprocess.run(["gcc", "-shared", "-Wl,-z,lazy", "-Wl,--allow-multiple-definition", *objs, "-o", so, "-lm"], capture_output=True)
        if r.returncode:
            raise Unsupported("link: " + r.stderr.decode()[:300])
        libs.append((so, objs))
    _built["libs"] = libs
    _built["types"] = types
    return libs


def expose(so, objs, names, tag):
    """library in which the given static functions are visible"""
    key = (so, tuple(names))
    if key in _built:
        return _built[key]
    out = []
    for o in objs:
        sy = subprocess.run(["nm", o], capture_output=True, text=True).stdout
        loc = [n for n in names if re.search(rf" t {re.escape(n)}$", sy, re.M)]
        if loc:
            o2 = o[:-2] + "_x" + tag + ".o"
            subprocess.run(["objcopy", *[f"--globalize-symbol={n}" for n in loc], o, o2], check=True)
            o = o2
        out.append(o)
    if out == objs:
        r = so
    else:
        r = so[:-3] + "_" + tag + ".so"
        subprocess.run(["gcc", "-shared", "-Wl,-z,lazy", "-Wl,--allow-multiple-definition", *out, "-o", r, "-lm"], check=True, capture_output=True)
    _built[key] = r
    return r


def hsz(name, args):
    s = 3
    for i, a in enumerate(args):
        a = a or 0
        s += ((a >> 4) if a > 100000 else a) * (2 * i + 1) % 5
    return 8 * (s + zlib.crc32(name.encode()) % 3)


class World:
    """arguments of one call: structures filled with random dimensions"""

    def __init__(self, prog, types, rng, values, log):
        self.prog, self.T, self.rng, self.values, self.log = prog, types, rng, values, log
        self.keep, self.input, self.roots, self.answer = [], {}, {}, {}
        self.N = values.get("N", rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 5, 12]))
        self.K = self.N + 4
        self.style, self.fixed, self.shared = rng.randint(0, 3), {}, {}

    def num(self, path, field, ty):
        r = self.rng
        for p in (path, path + "[]"):
            if p in self.values:
                return self.values[p]
        if field == "N":
            return self.N
        if field in ("N2", "ns_max"):
            return r.randint(1, max(1, self.N))
        if field.endswith("workspace_size"):
            return 10 ** 9
        if field in ("ns", "num_steps"):
            return r.choice([1, 2, 3, 3, 7, 20])
        if ty in ("bool", "_Bool") or field.startswith(("with_", "sens_", "output_", "exact_")):
            return r.randint(0, 1)
        if self.style == 0:
            return r.choice([0, 1, 1, 2, 3, 4, 5])
        if path not in self.fixed:          # the same number at every stage, many zeros, some large
            big = r.random() < (0.15 if self.style == 3 else 0.4)
            self.fixed[path] = r.choice([5, 8, 12, 30]) if big else 0 if r.random() < (0.7 if self.style > 1 else 0.3) else r.randint(1, 3)
        return self.fixed[path]

    def raw(self, n):
        b = ctypes.create_string_buffer(n + 64)
        self.keep.append(b)
        return (ctypes.addressof(b) + 63) // 64 * 64

    def ptr(self, ty, path, depth):
        """value of a pointer field of type ty; deep structures are shared between the elements of an array"""
        if depth >= 3:
            if (ty, path) not in self.shared:
                self.shared[ty, path] = self.ptr1(ty, path, depth)
            return self.shared[ty, path]
        return self.ptr1(ty, path, depth)

    def ptr1(self, ty, path, depth):
        t = pointee(ty)
        k = tkind(t)
        if depth > 6:
            return self.raw(4096)
        if k == "ptr":
            a = self.raw(8 * self.K)
            arr = (ctypes.c_void_p * self.K).from_address(a)
            for i in range(self.K):
                arr[i] = self.ptr(t, path + "*", depth + 1)
            return a
        if k in ("int", "bool") and t not in ("char", "unsigned char"):
            c = self.T.ct(t)
            a = self.raw(ctypes.sizeof(c) * 64)
            arr = (c * 64).from_address(a)
            f = path.split(".")[-1]
            for i in range(64):
                arr[i] = self.num(path + "*", f, t)
            self.input[path] = list(arr)[:self.N + 1]
            return a
        if k == "record" and self.T.rec(t) is not None:
            c = self.T.ct(t)
            if c is None:
                return self.raw(4096)
            n = ctypes.sizeof(c)
            a = self.raw(n * self.K + 256)
            for i in range(self.K if depth else 1):
                self.fill(t, a + i * n, path + "*", depth)
            return a
        return self.raw(4096)

    def fill(self, t, addr, path, depth):
        name, fl = self.T.rec(t)
        c = self.T.ct(t)
        ob = c.from_address(addr)
        for f, ft in fl:
            s = tstr(ft)
            k = tkind(s)
            p = path + "." + f
            if k == "fptr":
                setattr(ob, f, self.stub(name, f, s))
            elif k == "ptr":
                setattr(ob, f, self.ptr(s, p, depth + 1))
            elif k in ("int", "bool"):
                v = self.num(p, f, s)
                setattr(ob, f, bytes([v & 127]) if s == "char" else v)
                self.input[p] = v
            elif k == "record":
                if self.T.rec(s):
                    self.fill(s, addr + getattr(c, f).offset, p, depth)
                else:
                    v = self.rng.randint(0, 2)
                    try:
                        setattr(ob, f, v)
                        self.input[p] = v
                    except TypeError:
                        pass
        fs = {f for f, _ in fl}
        if {"nx", "nx1", "nz", "nz1"} <= fs and isinstance(ob.nx, int):
            ob.nx = max(ob.nx, ob.nx1)
            ob.nz = max(ob.nz, ob.nz1)
            self.input[path + ".nx"], self.input[path + ".nz"] = ob.nx, ob.nz

    def stub(self, rec, f, s):
        """function behind a function pointer"""
        ret = s[:s.index("(")].strip()
        ps = [p.strip() for p in s[s.rindex("(") + 1:-1].split(",")]
        ps = [] if ps in (["void"], [""]) else ps
        at = [ctypes.c_void_p if tkind(p) in ("ptr", "fptr") else ctypes.c_long for p in ps]
        nm = rec + "." + f
        V = ctypes.c_void_p
        if f == "casadi_work":
            def fn(*a):
                for i, x in enumerate(a):
                    ctypes.c_int.from_address(x).value = 5
                return 0
        elif f in ("casadi_n_in", "casadi_n_out"):
            def fn(*a): return 4
        elif f.startswith("casadi_sparsity"):
            sp = self.raw(64)
            (ctypes.c_int * 3).from_address(sp)[:] = [2, 2, 1]
            def fn(*a): return sp
        elif f.endswith(("calculate_size", "calculate_size_self", "_size", "requirement")):
            def fn(*a): return self.answer.get(nm) or hsz(nm, a if ps else ())
        elif f.endswith(("assign", "assign_self")):
            size = re.sub(r"assign(_self)?$", r"calculate_size\1", nm)
            bare = self.bare(rec, size.split(".")[-1])

            def fn(*a):
                n = hsz(size, () if bare else a[:-1])
                self.log(a[-1], n)
                ctypes.memset(a[-1], 1, n)
                return a[-1]
        elif ps and "get" in f and ps[-1].endswith("*"):
            box = self.raw(4096)
            salt = b"%d" % self.rng.randint(0, 99)

            def fn(*a):
                fld = ctypes.string_at(a[-2]) if len(a) > 2 and ps[-2].startswith("char") else b""
                if b"dims" in fld or b"ptr" in fld:
                    V.from_address(a[-1]).value = box
                else:
                    ctypes.c_int.from_address(a[-1]).value = zlib.crc32(fld + salt) % 7
                return 0
        else:
            def fn(*a): return 0
        rt = None if ret == "void" else V if tkind(ret) == "ptr" else ctypes.c_long
        cf = ctypes.CFUNCTYPE(rt, *at)(fn)
        self.keep.append(cf)
        return ctypes.cast(cf, V)

    def bare(self, rec, f):
        t = dict((a, tstr(b)) for a, b in self.T.rec(rec)[1]).get(f, "(x)")
        return t[t.rindex("(") + 1:-1].strip() in ("", "void")


def param_types(prog, fns, seen=()):
    """types behind void pointers, by normalised parameter name: taken from the casts in the functions (and in functions they pass them to)"""
    from .cmem import norm
    out = {}
    for f in fns:
        ids = {i: norm(n) for n, t, i in fname_params(f) if pointee(t) == "void" and tkind(t) == "ptr"}

        def root(n):
            while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
                n = n["inner"][0]
            return ids.get(n["referencedDecl"]["id"]) if n["kind"] == "DeclRefExpr" else None

        def walk(n):
            if n.get("kind") == "VarDecl" and n.get("inner"):
                x = n["inner"][-1]
                if "kind" in x and not x["kind"].endswith("Attr"):
                    r = root(x)
                    t = tstr(n["type"])
                    if r and tkind(t) == "ptr" and pointee(t) not in ("char", "void"):
                        out.setdefault(r, t)
            if n.get("kind") in ("CStyleCastExpr", "ImplicitCastExpr"):
                r = root(n)
                t = tstr(n["type"])
                if r and tkind(t) == "ptr" and pointee(t) not in ("char", "void"):
                    out.setdefault(r, t)
            if n.get("kind") == "CallExpr":
                c = n["inner"][0]
                while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                    c = c["inner"][0]
                g = prog.funcs.get(c["referencedDecl"]["name"]) if c["kind"] == "DeclRefExpr" else None
                if g is not None and g["name"] not in seen and len(seen) < 4:
                    sub = None
                    for (pn, pt, _), a in zip(fname_params(g), n["inner"][1:]):
                        r = root(a)
                        if r and r not in out and pt == "void *":
                            sub = param_types(prog, [g], tuple(seen) + (g["name"],)) if sub is None else sub
                            if norm(pn) in sub:
                                out[r] = sub[norm(pn)]
            for x in n.get("inner", ()):
                if isinstance(x, dict):
                    walk(x)
        walk(f)
    return out


def placed(f, raw):
    """type of the structure that a carving function places first: X *x = (X *) c_ptr"""
    ids = {i for n, _, i in fname_params(f) if n == raw}
    found = []

    def root(n):
        while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n["referencedDecl"]["id"] if n["kind"] == "DeclRefExpr" else None

    def walk(n):
        if n.get("kind") == "VarDecl" and n.get("inner"):
            x = n["inner"][-1]
            if "kind" in x and not x["kind"].endswith("Attr"):
                t = tstr(n["type"])
                if root(x) in ids and tkind(t) == "ptr":
                    if pointee(t) in ("char", "void"):
                        ids.add(n["id"])
                    elif tkind(pointee(t)) == "record":
                        found.append(pointee(t))
        if n.get("kind") == "BinaryOperator" and n.get("opcode") == "=":
            l, x = n["inner"]
            t = tstr(l["type"])
            if root(x) in ids and tkind(t) == "ptr" and l["kind"] == "DeclRefExpr" and tkind(pointee(t)) == "record":
                found.append(pointee(t))
        for x in n.get("inner", ()):
            if isinstance(x, dict):
                walk(x)
    walk(f)
    return found[0] if found else None


def run_pair(prog, files, pair, values=None, trials=40, seed=None, secs=60):
    """None when no draw fails, or dict(input, what)"""
    from .cmem import norm
    libs = build(prog, files)
    types = _built["types"]
    fc, fa = prog.lookup(pair.calc), prog.lookup(pair.assign)
    pt = param_types(prog, [fc, fa])
    for mode, (so, objs) in enumerate(libs):
        so = expose(so, objs, sorted({pair.calc, pair.assign}), f"{zlib.crc32(pair.calc.encode())}")
        sy = subprocess.run(["nm", "-S", so], capture_output=True, text=True).stdout
        fsize = int(re.search(rf"^\S+ (\S+) T {re.escape(pair.assign)}$", sy, re.M).group(1), 16)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.environ.get("VF_NATIVE_DEBUG") or os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
                os.dup2(2, 1)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                L = ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
                t0 = time.time()
                for t in range(trials):
                    if time.time() - t0 > secs / 2:
                        break
                    signal.alarm(40)
                    child(prog, types, L, mode, pair, fc, fa, pt, random.Random(f"{seed or SEED}/{pair.calc}/{t}"), dict(values or {}) if t < trials // 2 else {}, w, fsize)
            except BaseException as e:
                os.write(w, json.dumps(dict(error=repr(e)[:300])).encode() + b"\n")
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        lines = [json.loads(x) for x in data.decode().splitlines()]
        inp = next((x["input"] for x in reversed(lines) if "input" in x), None)
        err = next((x["error"] for x in lines if "error" in x), None)
        if err:
            raise Unsupported("native run: " + err)
        k = next((i for i, x in enumerate(lines) if "fail" in x), None)
        what = None
        if k is not None:
            what = lines[k]["fail"]
            inp = next(x["input"] for x in reversed(lines[:k]) if "input" in x)
        elif os.WIFSIGNALED(status):
            sg = os.WTERMSIG(status)
            if sg == signal.SIGALRM or inp is None or "size" not in lines[-1]:
                raise Unsupported("native run: signal %d" % sg)
            what = {signal.SIGABRT: "an assertion of acados failed (the carved memory exceeds the size, or a misaligned pointer)", signal.SIGILL: "access through a misaligned pointer",
                    signal.SIGTRAP: "access through a misaligned pointer"}.get(sg, f"crashed with signal {sg}")
        if what:
            return dict(input=inp, what=what, mode=["real mem.c, asserts on", "gaps between arrays"][mode])
    return None


def child(prog, types, L, mode, pair, fc, fa, pt, rng, values, w, fsize):
    from .cmem import norm
    L.vf_reset(mode)
    L.vf_range.argtypes = [ctypes.c_void_p] * 2
    W = World(prog, types, rng, values, lambda a, n: L.vf_range(a, a + n))
    args, T = {}, types

    def arg(n, t):
        k = pair.ren.get(norm(n), norm(n))
        if k not in args:
            ty = pt.get(norm(n), pt.get(k, t)) if t == "void *" else t
            if tkind(t) in ("int", "bool"):
                args[k] = W.num(k, norm(n), t)
                W.input[k] = args[k]
            elif t == "char *" or t == "void *" and ty == "void *":
                args[k] = W.raw(4096)
            else:
                args[k] = W.ptr(ty, k, 0)
                if tkind(pointee(ty)) == "record" and T.rec(pointee(ty)):
                    W.roots[k] = (T.ct(pointee(ty)), args[k])
        return args[k]

    def call(f, special):
        fn = getattr(L, f["name"])
        ret = tstr(f["type"]).split("(")[0].strip()
        fn.restype = None if ret == "void" else ctypes.c_void_p if tkind(ret) == "ptr" else ctypes.c_size_t
        a, at = [], []
        for n, t, _ in fname_params(f):
            v = special if n == pair.raw and f is fa else arg(n, t)
            a.append(v)
            at.append(ctypes.c_void_p if tkind(t) in ("ptr", "fptr", "array") else ctypes.c_long)
        fn.argtypes = at
        return fn(*a)
    for n, t, _ in fname_params(fa):
        if n != pair.raw:
            arg(n, t)
    for n, t, _ in fname_params(fc):
        arg(n, t)
    os.write(w, json.dumps(dict(input={k: v for k, v in W.input.items()})).encode() + b"\n")
    size = call(fc, None)
    os.write(w, json.dumps(dict(size=size)).encode() + b"\n")
    for k, (c, a) in W.roots.items():
        for f, ct in c._fields_:
            if f == "workspace_size":
                setattr(c.from_address(a), f, size)
            if f == "sim_workspace_size" and all(x in W.roots for x in ("config", "dims", "opts")):
                g = lambda r, f: getattr(W.roots[r][0].from_address(W.roots[r][1]), f) or 0
                setattr(c.from_address(a), f, hsz("sim_config.workspace_calculate_size", (g("config", "sim_solver"), g("dims", "sim"), g("opts", "sim_solver"))))
    if "config" in W.roots:
        r = T.rec(pointee(pt.get("config", "x *")))
        for f, ft in (r[1] if r else ()):
            if tkind(tstr(ft)) == "fptr" and pair.calc.endswith("_" + f):
                W.answer[r[0] + "." + f] = size
    if size > 10 ** 8:
        raise Unsupported("size")
    extra = 1 << 20 if mode else 8192
    b = ctypes.create_string_buffer(size + extra + 256)
    base = (ctypes.addressof(b) + 63) // 64 * 64 + 8
    ctypes.memset(base, CANARY, size + extra)
    special = base
    if mode:
        lo = ctypes.cast(getattr(L, fa["name"]), ctypes.c_void_p).value
        ctypes.c_void_p.in_dll(L, "vf_lo").value = lo
        ctypes.c_void_p.in_dll(L, "vf_hi").value = lo + fsize
    ret = call(fa, special)
    if ctypes.c_int.in_dll(L, "vf_neg").value:
        os.write(w, json.dumps(dict(skip=1)).encode() + b"\n")
        return                      # a negative number of elements: not a consistent set of dimensions
    n = ctypes.c_int.in_dll(L, "vf_n").value
    rng_t = (ctypes.c_void_p * (2 * n)).in_dll(L, "vf_log")
    rs = sorted((rng_t[2 * i], rng_t[2 * i + 1]) for i in range(n))
    fail = None
    if mode == 0:
        t = placed(fa, pair.raw)
        if t and T.rec(t) and ret and base <= ret < base + 64:
            z = ctypes.sizeof(T.ct(t))
            if ret + z > base + size:
                fail = f"{pair.assign} places {t} ({z} bytes) at byte {ret - base} of a block whose size is {size}"
        for (a1, b1), (a2, b2) in zip(rs, rs[1:]):
            if a2 < b1 and base <= a1 < base + size:
                fail = f"two ranges handed out overlap: bytes {a1 - base}..{b1 - base} and {a2 - base}..{b2 - base}"
        for a1, b1 in rs:
            if base <= a1 <= base + size + extra and b1 > base + size:
                fail = f"bytes {a1 - base}..{b1 - base} were handed out, the size is {size}"
        tail = ctypes.string_at(base + size, extra)
        if tail.strip(bytes([CANARY])):
            i = next(i for i, c in enumerate(tail) if c != CANARY)
            fail = fail or f"byte {size + i} was written, the size is {size}"
    else:
        ng = ctypes.c_int.in_dll(L, "vf_ng").value
        g = (ctypes.c_void_p * (2 * ng)).in_dll(L, "vf_gaps")
        for i in range(ng):
            if ctypes.string_at(g[2 * i], 64).strip(bytes([CANARY])):
                fail = f"memory behind the end of an array (range {i} handed out) was written"
                break
    if fail:
        os.write(w, json.dumps(dict(fail=fail)).encode() + b"\n")
