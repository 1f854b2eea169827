"""C01: memory of every module: the size function covers what the assign function hands out."""
import ctypes, os, random, re, subprocess, time
import z3
from vf.core import Check, REPO, TIER, SEED, Unsupported, HOME
from vf.cast import Program, fname_params
from vf import cmem, cmemrun, memhelp
from vf.cmem import Sizes, Pair
from vf.par import run_tasks

SKIP = ("ooqp", "qore", "qpoases", "daqp", "hpmpc", "clarabel", "osqp", "qpdunes")      # need headers of absent libraries
BACK = "vf/cmem.py (symbolic size polynomials)"


def files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "acados")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".c") and not any(s in f for s in SKIP):
                if re.search(r"calculate_size|_struct_size", open(p, errors="replace").read()):
                    out.append(os.path.relpath(p, REPO))
    m = "acados/utils/mem.c"
    return sorted(x for x in out if x != m) + [m]


def name_key(c, what):
    return f"{c}/{what}"[:120]


def main():
    chk = Check("C01", "vf/cmem.py (symbolic execution of size and assign functions over polynomials in the dimensions), vf/memhelp.py + z3 %s" % z3.get_version_string(),
                trusted=["clang AST", "vf/cmem.py", "vf/memhelp.py", "z3"],
                assumptions=["the block handed over is aligned to 8 bytes", "dimensions and numbers of elements are nonnegative, N >= 1",
                             "a size function called twice with the same arguments returns the same value; calls that leave the program return any value with the alignment their own obligations give",
                             "HPIPM and BLASFEO size functions cover what their create functions use and return multiples of 64 (external libraries, not in the tree)",
                             "GNSF dimensions: nx >= nx1, nz >= nz1", "sizes stay below 2^62 (no wrap-around)",
                             "sources of QP solver interfaces whose external headers are absent are not read: " + ", ".join(SKIP)])
    fl = files()
    try:
        prog = Program(fl)
    except Exception as e:
        chk.note(f"sources do not parse: {e}")
        chk.bounded("parse", e, "none", 0)
        return chk.finish(min_obligations=1)
    S = Sizes(prog)
    pairs = list(S.pairs())
    trials = 60 if TIER == "quick" else 400
    no = [c for c, a in pairs if a is None or a == c]
    todo = [(c, a) for c, a in pairs if not (a is None or a == c)]
    chk.extra["size functions without a carving function (their callers hand out nothing)"] = no

    tasks, failed = [], []

    def prove(c, a):
        def f(rec):
            t = time.time()
            obl = Pair(S, c, a).obligations()
            rec.fn(c, a)
            bad = {}
            for i, (nm, r) in enumerate(obl):
                if r is True:
                    rec.discharged(f"{c} / {a}: {nm}", BACK, 0)
                else:
                    bad.setdefault(nm, r)
            if not obl:
                rec.discharged(f"{c} / {a}: hands out nothing", BACK, 0)
            rec.solver_s += time.time() - t
            if bad:
                rec.note(f"NATIVE {c} {a} " + "; ".join(f"{k}: {v}" for k, v in bad.items())[:250])
        return f

    def lost(c, a):
        def g(rec, e):
            rec.note(f"NATIVE {c} {a} outside the verifier's reach: {str(e)[:200]}")
        return g
    for c, a in todo:
        tasks.append((c, prove(c, a), lost(c, a)))
    run_tasks(chk, tasks)
    # pairs whose obligations were not all accepted run natively
    native, keep = [], []
    for n in chk.notes:
        m = re.match(r"NATIVE (\S+) (\S+) (.*)", n)
        if m:
            native.append(m.groups())
            keep.append("not accepted: " + " ".join(m.groups()))
    chk.notes[:] = keep
    if native:
        why0 = None
        secs = max(2, min(60, 350 * 8 / len(native)) if TIER == "quick" else 400)
        try:
            cmemrun.build(prog, fl)
        except Unsupported as e:
            why0 = e

        def run(c, a, why):
            def f(rec):
                if why0:
                    raise why0
                pr = Pair(S, c, a)
                r = cmemrun.run_pair(prog, fl, pr, trials=trials, secs=secs)
                nm = f"{c} / {a}"
                cx = None
                if r is None and "outside the verifier's reach" not in why:
                    try:
                        pr.obligations()
                        cx = cmem.counterexample(pr)
                    except Unsupported:
                        pass
                if r is None and cx:
                    rec.undecided(nm, f"{cx[0]} bytes are missing for the dimensions in the replay file; symbolic: {why}", str(cx[1]))
                elif r is None:
                    rec.bounded(nm, why, f"{trials} random sets of dimensions, two instrumented runs each", 2 * trials)
                else:
                    rec.refuted(nm, f"{r['what']}; symbolic: {why}", dict(pair=[c, a], dimensions=r["input"], observed=r["what"], run=r["mode"], obligation=why), key=name_key(c, a))
            return f
        run_tasks(chk, [(c, run(c, a, w), None) for c, a, w in native])
    helpers(chk, prog)
    chk.cover("pairs found", len(todo) >= 145)
    return chk.finish(min_obligations=1000)


def helpers(chk, prog):
    lib = None
    for fn, go in memhelp.contracts(prog, cmemrun.HELPERS):
        chk.fn(fn)
        t = time.time()
        try:
            res = go()
        except (Unsupported, memhelp.Ret, z3.Z3Exception, KeyError) as e:
            res = [("contract", None)]
            chk.note(f"{fn}: {e}")
        for nm, r in res:
            if r is True:
                chk.discharged(f"{fn}: {nm}", "z3 (64-bit vectors)", 0)
                continue
            try:
                lib = lib or native_mem()
                bad = helper_run(lib, fn, prog, r)
            except Exception as e:
                bad = None
                chk.note(f"native {fn}: {e}")
            if bad:
                chk.refuted(f"{fn}: {nm}", bad["observed"], bad, key=fn)
            else:
                chk.bounded(f"{fn}: {nm}", "not accepted by the verifier", "sizes 0..64 and a few large ones", 70)
        chk.solver_s += time.time() - t


def native_mem():
    from vf.cnative import INC, tmpdir
    so = os.path.join(tmpdir(), "mem.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-DNDEBUG", *INC, os.path.join(REPO, "acados/utils/mem.c"), os.path.join(HOME, "stubs/src/blasfeo_ref.c"), "-o", so, "-lm"],
                   check=True, capture_output=True, timeout=120)
    return ctypes.CDLL(so)


def helper_run(L, fn, prog, model):
    """contract of a helper on concrete numbers, on the real code"""
    f = getattr(L, fn)
    buf = ctypes.create_string_buffer(1 << 22)
    base = (ctypes.addressof(buf) + 63) // 64 * 64
    P, Z = ctypes.c_void_p, ctypes.c_size_t
    if fn == "make_int_multiple_of":
        for k in (2, 4, 8, 16, 32, 64):
            for s in list(range(0, 200)) + [10 ** 6 + 1, 2 ** 31 - 1, 2 ** 32 + 5]:
                x = Z(s)
                f(Z(k), ctypes.byref(x))
                if x.value != -(-s // k) * k:
                    return dict(num=k, size=s, observed=f"make_int_multiple_of({k}) turned {s} into {x.value}")
        return None
    if fn == "align_char_to":
        for k in (2, 4, 8, 16, 32, 64):
            for s in range(0, 200):
                x = P(base + s)
                f(ctypes.c_int(k), ctypes.byref(x))
                if x.value != -(-(base + s) // k) * k:
                    return dict(num=k, offset=s, observed=f"align_char_to({k}) moved the pointer from offset {s} to {x.value - base}")
        return None
    what = fn[len("assign_and_advance_"):]
    for n in list(range(0, 65)) + [1000, 2000]:
        p = P(base)
        if what in cmem.ADV:
            v = P(0)
            es = memhelp.Ev(prog, prog.funcs[fn]).sizeof(cmem.ADV[what])
            f(ctypes.c_int(n), ctypes.byref(v), ctypes.byref(p))
            if v.value != base or p.value != base + n * es:
                return dict(n=n, observed=f"{fn}({n}): handed out offset {(v.value or 0) - base}, advanced by {p.value - base} bytes, {n * es} expected")
        else:
            x = ctypes.create_string_buffer(256)
            m = n if n < 100 else 10
            need = None
            if "dvec" in what:
                f(ctypes.c_int(n), x, ctypes.byref(p))
                L.blasfeo_memsize_dvec.restype = Z
                need = L.blasfeo_memsize_dvec(ctypes.c_int(n))
            else:
                f(ctypes.c_int(m + 1), ctypes.c_int(m), x, ctypes.byref(p))
                L.blasfeo_memsize_dmat.restype = Z
                need = L.blasfeo_memsize_dmat(ctypes.c_int(m + 1), ctypes.c_int(m))
            if p.value != base + need:
                return dict(n=n, observed=f"{fn}({n}): advanced by {p.value - base} bytes, {need} expected")
    return None
