"""Function contracts for the project's C code: obligations, proof, replay.

A contract names the locations a function may write and the value each holds afterwards (a z3 term
over initial values); everything else must be unchanged.  `verify` interprets the real function,
proves every obligation with z3, and replays failures on the compiled real code."""
import itertools, re, time, random, traceback, ctypes
import z3
from . import csym, contracts, cast, cnative
from .core import Unsupported, SEED, TIER
from .csym import consts_of, Interp, Ptr, I, R, IV, State, num, real, is_num, UNINIT, NULL, FRef
from .cast import tstr, tkind, pointee, fname_params


def nonneg_ints(key, idx, t):
    """dimensions and index lists hold nonnegative numbers (idxs_rev may hold -1)"""
    if t.sort() != z3.IntSort():
        return ()
    names = [k for k in key if k not in ("*", "[]", "[,]")]
    if "dim" in names or "dims" in names or any(n.endswith(("dims", "dims_")) for n in names) or names[-1] in ("idxb", "idxs", "idxe", "N"):
        return [t >= 0]
    return ()


class Post:
    def __init__(self, name, key, idx, vars_, kind, when, value, check=True):
        self.name, self.key, self.idx, self.vars, self.kind, self.when, self.value, self.check = name, key, idx, vars_, kind, when, value, check


class Spec:
    """initial values and postconditions of one function call"""

    def __init__(self, it, prog, roots, casts):
        self.it, self.prog, self.roots, self.casts = it, prog, roots, casts
        self.st = State()
        self.posts, self.scratch, self.ret = [], [], None
        self.pre = []
        self.may_exit = z3.BoolVal(False)
        self.scalars = {}

    # -- locations --------------------------------------------------------------
    def loc(self, path, **ix):
        """'out->ux[i].pa[k]' -> (key, idx, C type)"""
        toks = re.findall(r"[A-Za-z_]\w*|->|\.|\[[^\]]*\]", path)
        root = toks[0]
        key, idx = [root], []
        ty = self.casts.get((root,), None)
        rt = self.roots[root]
        ptr = True
        ty = ty or pointee(rt)
        i = 1
        while i < len(toks):
            t = toks[i]
            if t == "->":
                if ptr:
                    key.append("[]")
                    idx.append(I(0))
                    ptr = False
                elif tkind(ty) == "ptr":
                    key += ["*", "[]"]
                    idx.append(I(0))
                    ty = self.casts.get(tuple(key[:-1]), pointee(ty))
                else:
                    raise KeyError(path)
                i += 1
                key.append(toks[i])
                ty = self.ftype(ty, toks[i])
            elif t == ".":
                i += 1
                key.append(toks[i])
                ty = self.ftype(ty, toks[i])
            else:
                e = t[1:-1].strip()
                v = self.index(e, ix)
                if ptr:
                    key.append("[]")
                    ptr = False
                elif tkind(ty) == "array":
                    key.append("[]")
                    ty = pointee(ty)
                else:
                    key += ["*", "[]"]
                    ty = self.casts.get(tuple(key[:-1]), pointee(ty))
                idx.append(v)
            i += 1
        return tuple(key), tuple(idx), ty

    def index(self, e, ix):
        v = eval(e, {}, {k: (w if isinstance(w, z3.ExprRef) else I(w)) for k, w in ix.items()})
        return z3.simplify(v) if isinstance(v, z3.ExprRef) else I(v)

    def ftype(self, ty, f):
        r = cnative.Types(self.prog).rec(ty)
        if r is None:
            raise KeyError(f"{ty} has no members")
        for n, t in r[1]:
            if n == f:
                return tstr(t)
        raise Unsupported(f"{ty} has no member {f}")

    def kind(self, ty):
        k = self.it.kind(ty)
        return k

    # -- initial values ----------------------------------------------------------
    def num(self, path, **ix):
        key, idx, ty = self.loc(path, **ix)
        return self.it.load(self.st, key, idx, self.kind(ty))

    def vec(self, path, **ix):
        key, idx, ty = self.loc(path, **ix)
        return lambda k: self.it.load(self.st, key + ("pa", "*", "[]"), idx + (z3.simplify(num(k)),), "float")

    def mat(self, path, **ix):
        key, idx, ty = self.loc(path, **ix)
        return lambda i, j: self.it.load(self.st, key + ("pA", "*", "[,]"), idx + (I(0), z3.simplify(num(i)), z3.simplify(num(j))), "float")

    def sum(self, n, f, lo=0):
        lo = num(lo)
        n = num(n)
        j = self.it.fresh("j")
        with self.it.local([j >= lo, j < n]):
            b = f(j)
        return self.it.sum_term(z3.simplify(b), j, lo, n)

    def max(self, n, f, init=None, lo=0):
        init = csym.NINF if init is None else init
        j = self.it.fresh("j")
        n = num(n)
        with self.it.local([j >= lo, j < n]):
            b = f(j)
        return self.it.max_term(z3.simplify(b), j, num(lo), n, init)

    def last(self, n, f, lo=0):
        """-> (there is a k in [lo, n) with f(k), the last such k)"""
        lo, n = num(lo), num(n)
        j = self.it.fresh("j")
        with self.it.local([j >= lo, j < n]):
            b = f(j)
        r = self.it.last_term(z3.simplify(b), j, lo, n)
        return z3.And(r >= lo, r < n, z3.substitute(b, (j, r))), r

    # -- postconditions ----------------------------------------------------------
    def post(self, name, path, when=None, value=None, vars="", check=True):
        """after the call, for all index variables: when => path == value"""
        vs = [z3.Int("q!" + v) for v in vars.split()]
        ix = dict(zip(vars.split(), vs))
        if path.endswith(".vec[k]"):
            key, idx, ty = self.loc(path[:-7], **ix)
            key, idx, kind = key + ("pa", "*", "[]"), idx + (ix["k"],), "float"
        elif path.endswith(".mat[r,c]"):
            key, idx, ty = self.loc(path[:-9], **ix)
            key, idx, kind = key + ("pA", "*", "[,]"), idx + (I(0), ix["r"], ix["c"]), "float"
        else:
            key, idx, ty = self.loc(path, **ix)
            kind = self.kind(ty)
        if not vs:
            pass
        w = when(*vs) if when is not None else z3.BoolVal(True)
        w = z3.And(*w) if isinstance(w, (list, tuple)) else w
        with self.it.local([w]):
            v = value(*vs) if value is not None else None
        if v is not None and not isinstance(v, z3.ExprRef):
            v = R(v) if kind == "float" else I(v)
        self.posts.append(Post(name, key, idx, vs, kind, w, v, check))

    def fresh_scratch(self, *paths):
        """locations the function may leave in any state"""
        for p in paths:
            self.scratch.append(p)

    def is_scratch(self, key):
        k = re.sub(r"\.(\*|\[\]|\[,\])", "", ".".join(key))
        return any(k == s or k.startswith(s + ".") for s in self.scratch)


class CheckC:
    def __init__(self, chk, files, contracts_=None, axioms=nonneg_ints, indirect=None, defs=(), libfiles=None, callbacks=None, nocall=(), **kw):
        self.callbacks = dict(callbacks or {})
        self.nocall = tuple(nocall)
        self.chk, self.files = chk, files
        self.prog = cast.Program(files, defs)
        self.contracts = dict(contracts.C)
        self.contracts.update(contracts_ or {})
        for n_ in self.nocall:              # replaced by nothing, also in the native library
            self.contracts[n_] = lambda it, st, a, n: I(0)
        self.axioms, self.indirect, self.kw, self.defs = axioms, indirect or {}, kw, defs
        self.libfiles = libfiles or files
        self.types = cnative.Types(self.prog)

    def interp(self, **kw):
        d = dict(contracts=self.contracts, axioms=self.axioms, indirect=self.indirect)
        d.update(self.kw)
        d.update(kw)
        return Interp(self.prog, **d)

    # ------------------------------------------------------------------
    def T(self, *a, **k):
        """verify, then also execute the real code on random inputs against the same contract"""
        if not self.verify(*a, **k):
            return False
        if k.get("native", True) is False:
            return True
        r = self.native_test(6 if TIER == "quick" else 60)
        if r[0] in ("fail", "crash"):
            self.chk.refuted((k.get("name") or a[0]) + ": execution", str(r[1]), dict(replay=r[1]))
            return False
        if isinstance(r[1], int) and r[1]:
            self.chk.bounded_evals += r[1]
        else:
            print(f"note: {k.get('name') or a[0]}: proved, but not executed natively: {str(r)[:200]}")
        return True

    # ------------------------------------------------------------------
    def verify(self, fname, spec, casts=None, scalars=None, strs=None, null=(), alias=None, gen=None, fix=None, norm=None, name=None, cases=None,
               native=True, call=None, min_paths=1, setup=None, sum_nonneg=False, timeout=10000, instances=None, K=4, KD=48, matdim=(14, 14),
               interp_kw=None, lib_extra=("blasfeo_ref.c",), nullp=None, tol=1e-9, bounded_only=None):
        """spec(sp, A): declares posts; A: dict of scalar arguments.
        strs: {param: literal} for char* arguments;  null: pointer parameters passed as NULL."""
        chk, name, alias = self.chk, name or fname, dict(alias or {})
        casts, strs = dict(casts or {}), dict(strs or {})
        fn = self.prog.lookup(fname)
        t0 = time.time()
        self._native = dict(fname=fname, spec=spec, casts=casts, strs=strs, null=set(null), gen=gen, fix=fix, norm=norm, K=K, KD=KD, matdim=matdim, fn=fn,
                            interp_kw=interp_kw or {}, lib_extra=lib_extra, nullp=nullp, setup=setup, call=call, tol=tol, scalars=scalars or {}, alias=alias)
        n_cases = cases or (60 if TIER == "quick" else 600)
        if fn is None:
            chk.undecided(name, f"{fname} is not defined any more")
            return False
        chk.fn(fname)
        if bounded_only:
            return self._bounded(name, bounded_only, n_cases)
        params = fname_params(fn)
        roots = {p: ty for p, ty, _ in params}
        try:
            it = self.interp(**(interp_kw or {}))
            it.sum_nonneg = sum_nonneg
            A, args = {}, []
            for p, ty, _ in params:
                k = it.kind(ty)
                if p in strs:
                    args.append(csym.Str(strs[p]))
                elif p in null:
                    args.append(NULL)
                elif k in ("ptr", "array"):
                    args.append(Ptr((alias.get(p, p),)))
                elif k == "fptr":
                    args.append(csym.FPtr((p,), ()))
                else:
                    A[p] = z3.Real(p) if k == "float" else z3.Int(p)
                    args.append(A[p])
            it.ctx = csym.Ctx(None, [], [])
            sp = Spec(it, self.prog, roots, casts)
            sp.A = A
            for p, ty, _ in params:
                if it.kind(ty) == "bool":
                    sp.pre.append(z3.Or(A[p] == 0, A[p] == 1))
            spec(sp, A)
            it.ctx = None
            paths = it.run(fname, args, pre=sp.pre, setup=setup)
            for f in it.funcs_seen:
                chk.fn(f)
        except Unsupported as e:
            return self._bounded(name, f"outside the verifier's fragment: {e}", n_cases) if native else self._nb(name, e)
        except (KeyError, z3.Z3Exception, AttributeError, TypeError, IndexError, RecursionError) as e:
            chk.note(f"{name}: engine {type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
            return self._bounded(name, f"engine: {type(e).__name__}: {e}", n_cases) if native else self._nb(name, e)
        finally:
            try:
                it.ctx = None
            except UnboundLocalError:
                pass
        ok = True
        failures = []
        live = 0
        try:
            for pi, (conds, st, out) in enumerate(paths):
                tag = f"{name}" + (f"/path{pi}" if len(paths) > 1 else "")
                ok_p = self._path(tag, it, sp, conds, st, out, failures, timeout, instances)
                live += 1
            for ev in it.events:
                if ev[0] == "assert":
                    g = z3.And(*ev[1]) if isinstance(ev[1], (list, tuple)) else ev[1]
                    self._prove(f"{name}/assert unreachable", it, list(sp.pre), z3.Not(g), failures, timeout, instances, "an assertion of the code can fail")
        except Unsupported as e:
            return self._bounded(name, f"outside the verifier's fragment: {e}", n_cases) if native else self._nb(name, e)
        chk.solver_s += it.solver_s
        chk.cover(f"{name}: some path returns", live >= min_paths)
        for a in sorted(it.assumed):
            if a not in chk.assumptions:
                chk.assumptions.append(a)
        if failures:
            ok = self._fail(name, it, sp, failures, n_cases, native)
        return ok

    def _nb(self, name, e):
        self.chk.bounded(name, e, "none (no executable stand-in)")
        return True

    # ------------------------------------------------------------------
    def _path(self, tag, it, sp, conds, st, out, failures, timeout, instances):
        if out[0] == "exit":
            self._prove(f"{tag}: terminates the program only when allowed", it, conds, sp.may_exit, failures, timeout, instances, "exit() is reached")
            return
        for p in sp.posts:
            if p.value is None or not p.check:
                continue
            with it.in_path(conds + [p.when]):
                v = it.load(st, p.key, p.idx, p.kind)
                extra = it.ctx.all()[len(conds) + 1:]
            if isinstance(v, z3.ExprRef):
                v = real(v) if p.kind == "float" else num(v)
            w = p.value
            if p.kind == "float" and isinstance(w, z3.ExprRef):
                w = real(w)
            if not isinstance(v, z3.ExprRef):
                goal = z3.BoolVal(repr(v) == repr(w))
            else:
                goal = v == w
            self._prove(f"{tag}: {p.name}", it, conds + [p.when] + extra, goal, failures, timeout, instances, f"{'.'.join(p.key)} differs from its specification", p)
        # frame
        for key in sorted(st.store):
            if key[0] in sp.roots and not sp.is_scratch(key) and st.store[key]:
                ents = [e for e in st.store[key] if e.barrier is None]
                barrier = len(ents) != len(st.store[key])
                if not ents and not barrier:
                    continue
                ar = len(ents[0].comps) if ents else None
                if ar is None:
                    self._prove(f"{tag}: frame of {'.'.join(key)}", it, conds, z3.BoolVal(False), failures, timeout, instances, "unknown writes")
                    continue
                idx = tuple(z3.Int(f"q!f{j}") for j in range(ar))
                allowed = []
                for p in sp.posts:
                    if p.key == key:
                        # exists vars: idx == p.idx and when
                        sub, cs = [], []
                        for a, b in zip(idx, p.idx):
                            if any(b.eq(v) for v in p.vars) and not any(b.eq(s[0]) for s in sub):
                                sub.append((b, a))
                            else:
                                cs.append((a, b))
                        w = [a == z3.substitute(b, *sub) if sub else a == b for a, b in cs]
                        allowed.append(z3.And(*w, z3.substitute(p.when, *sub) if sub else p.when))
                hyp = conds + [z3.Not(a) for a in allowed]
                kind = "float" if ents and isinstance(ents[-1].val, z3.ExprRef) and ents[-1].val.sort() == z3.RealSort() else "int"
                if any(not isinstance(e.val, z3.ExprRef) for e in ents):
                    # a pointer or aggregate was written: never allowed unless declared
                    goal = z3.BoolVal(False)
                    with it.in_path(hyp):
                        goal = z3.And(*[z3.Not(e.match(idx)) for e in ents])
                    self._prove(f"{tag}: frame of {'.'.join(key)}", it, hyp, goal, failures, timeout, instances, "writes outside its frame")
                    continue
                with it.in_path(hyp):
                    v = it.load(st, key, idx, kind)
                    b = it.base(key, idx, kind)
                    extra = it.ctx.all()[len(hyp):]
                goal = (real(v) == real(b)) if kind == "float" else num(v) == num(b)
                self._prove(f"{tag}: frame of {'.'.join(key)}", it, hyp + extra, goal, failures, timeout, instances, "writes outside its frame")
        if sp.ret is not None:
            v = out[1]
            goal = z3.BoolVal(False) if not isinstance(v, z3.ExprRef) else \
                (real(v) == real(sp.ret) if sp.ret.sort() == z3.RealSort() else num(v) == num(sp.ret))
            self._prove(f"{tag}: returned value", it, conds, goal, failures, timeout, instances, "wrong return value")

    # ------------------------------------------------------------------
    def lemmas(self, it, goals, hyps=None, depth=3):
        """equality of sums and maxima whose bodies are equal at every index of the range"""
        hyps = self._hyp if hyps is None else hyps
        apps, seen = {}, set()
        for g in goals:
            csym._collect_apps(g, it.sums, it.maxs, apps, seen)
        out = []
        S = [a for a in apps.values() if a.decl().name() in it.sums]
        M = [a for a in apps.values() if a.decl().name() in it.maxs]
        k = z3.Int(f"k!lem{depth}")

        def body(tab, a, n):
            f, tt, ps = tab[a.decl().name()]
            return z3.substitute(tt, (z3.Int("@k"), k), *zip(ps, a.children()[:-n]))

        def same(ba, bb, lo, hi):
            key = ("lem", ba.get_id(), bb.get_id(), lo.get_id(), hi.get_id()) + tuple(x.get_id() for x in hyps)
            if key in self._lem:
                return self._lem[key][0]
            h = list(hyps) + [lo <= k, k < hi]
            ex = self.lemmas(it, [ba == bb], h, depth - 1) if depth > 0 else []
            it.instantiate([ba, bb] + h)
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*it.gax, *h, *ex, *it.reduction_axioms([ba == bb]), ba != bb)
            r = s.check() == z3.unsat
            self._lem[key] = (r, ba, bb, lo, hi, list(hyps))
            return r
        for i, a in enumerate(M):
            for b in M[i + 1:]:
                ca, cb = a.children(), b.children()
                if a.sort() == b.sort() and ca[-1].eq(cb[-1]) and ca[-2].eq(cb[-2]) and not a.eq(b):
                    if same(body(it.maxs, a, 2), body(it.maxs, b, 2), ca[-2], ca[-1]):
                        out.append(a == b)
        # sums: pairs of prefix values of the same body
        groups = {}
        for a in S:
            ch = a.children()
            groups.setdefault((a.decl().name(),) + tuple(c.get_id() for c in ch[:-1]), []).append(a)
        ranges = {}
        held = []

        def bound_id(t):                # x + y and y + x are one bound
            t = z3.simplify(t, som=True)
            held.append(t)
            return tuple(sorted(c.get_id() for c in t.children())) if t.decl().kind() == z3.Z3_OP_ADD else (t.get_id(),)
        for g in groups.values():
            for a in g:
                for b in g:
                    if not a.eq(b):
                        ranges.setdefault((bound_id(a.children()[-1]), bound_id(b.children()[-1])), []).append((a, b))
        for lst in ranges.values():
            for i, (a, b) in enumerate(lst):
                for c, d in lst[i + 1:]:
                    if a.sort() != c.sort():
                        continue
                    lo, hi = a.children()[-1], b.children()[-1]
                    if z3.is_int_value(lo) and not (z3.is_int_value(hi)) or z3.is_int_value(z3.simplify(hi - lo)) is False and not z3.is_int_value(hi):
                        if same(body(it.sums, a, 1), body(it.sums, c, 1), lo, hi):
                            out.append(z3.Implies(lo <= hi, b - a == d - c))
        return out

    def _prove(self, name, it, hyps, goal, failures, timeout, instances, msg, post=None):
        t = time.time()
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            self.chk.discharged(name, "simplifier")
            return
        it.instances = tuple(instances(hyps, goal)) if instances else tuple(c for c in {n: c for t in list(hyps) + [goal] for n, c in consts_of(t).items()}.values() if c.sort() == z3.IntSort() and c.decl().name().startswith("q!"))
        self._hyp = list(hyps)
        base = [h for h in hyps if not z3.is_true(h)]
        red = it.reduction_axioms(base + [goal])
        it.instantiate(base + [goal] + red)
        res, model = None, None
        self._lem = {}
        for attempt in range(3):
            s = z3.Solver()
            s.set("timeout", timeout if attempt else min(timeout, 4000))
            if attempt == 1:
                extra = self.lemmas(it, base + [goal])
                if not extra:
                    continue
            elif attempt == 0:
                extra = []
            else:
                if res != z3.unknown:
                    break
                s.set("random_seed", 7)
                extra = self.lemmas(it, base + [goal])
            s.add(*base, *it.gax, *red, *extra, z3.Not(goal))
            res = s.check()
            if res == z3.unsat:
                self.chk.discharged(name, "z3", time.time() - t)
                return
            if res == z3.sat:
                model = s.model()
        self.chk.solver_s += time.time() - t
        small = None
        if res == z3.sat:
            s2 = z3.Solver()
            s2.set("timeout", 5000)
            s2.add(*base, *it.gax, *red, *extra, z3.Not(goal))
            ints = {}
            for a in base + [goal] + red:
                _int_apps(a, ints)
            for x in ints.values():
                s2.add(x >= -3, x <= 3)
            if s2.check() == z3.sat:
                model = s2.model()
                small = True
        apps = {}
        csym._collect_apps(goal, it.sums, it.maxs, apps, set())
        for h in base:
            csym._collect_apps(h, it.sums, it.maxs, apps, set())
        exact = not apps and not it.imprecise and not (csym_has(goal, base, "havoc") or csym_has(goal, base, "uninit"))
        failures.append(dict(name=name, msg=msg, res=str(res), model=model, exact=exact, goal=str(goal)[:600], pc=[str(h)[:200] for h in base[:12]], post=post))

    # ------------------------------------------------------------------
    def _fail(self, name, it, sp, failures, n_cases, native):
        chk = self.chk
        r = None
        if native:
            models = [f["model"] for f in failures if f["model"] is not None][:6]
            r = self._run_native(n_cases * 3, models)
            if r[0] in ("fail", "crash"):
                f = failures[0]
                chk.refuted(f["name"], f"{f['msg']}; {r[1]}", dict(obligation=f["name"], goal=f["goal"], path_condition=f["pc"], replay=r[1],
                                                                   all_failed=[x["name"] for x in failures]))
                return False
        for f in failures:
            why = f"{f['msg']} ({f['res']})"
            definite = f["res"] == "sat" and f["exact"]
            if definite:
                chk.undecided(f["name"], why, output=dict(goal=f["goal"], pc=f["pc"], model=str(f["model"])[:3000], native=str(r)[:500]))
            else:
                chk.bounded(f["name"], why + f"; goal {f['goal'][:150]}", f"{r[1] if r else 0} random executions of the real code against the same contract",
                            r[1] if r and isinstance(r[1], int) else 0)
        return False

    def _bounded(self, name, why, n_cases):
        r = self._run_native(n_cases * 2, [])
        if r[0] in ("fail", "crash"):
            self.chk.refuted(name, f"bounded execution: {r[1]}", dict(obligation=name, replay=r[1], why_bounded=str(why)))
            return False
        self.chk.bounded(name, why, f"{r[1]} random executions of the real code against the same contract (dimensions at most 3) [{r[0]}]", r[1] if isinstance(r[1], int) else 0)
        return True

    def native_test(self, n=60, **kw):
        return self._run_native(n, [])

    def _run_native(self, n, models):
        nt = self._native
        prog = self.prog

        def go():
            L = cnative.lib(self.libfiles, self.defs, nt["lib_extra"], self.nocall)
            rng = random.Random(SEED * 1000 + 7)
            done, skipped = 0, {}
            fails = []
            for c in range(n + len(models)):
                m = models[c] if c < len(models) else None
                try:
                    r = self._case(L, rng, m, c)
                except cnative.EvalError as e:
                    skipped[str(e)[:120]] = skipped.get(str(e)[:120], 0) + 1
                    continue
                if r is None:
                    skipped["precondition"] = skipped.get("precondition", 0) + 1
                    continue
                done += 1
                if r:
                    return dict(done=done, fail=r, from_model=m is not None)
            return dict(done=done, skipped=skipped)
        # build before forking so that the library cache is shared
        try:
            cnative.lib(self.libfiles, self.defs, nt["lib_extra"], self.nocall)
        except Unsupported as e:
            return ("nobuild", str(e))
        kind, v = cnative.forked(go, 240)
        if kind == "crash":
            if v == 14:
                return ("timeout", 0)
            if v == 127:        # the dynamic linker did not find a function of another file
                return ("nobuild", "a function of another source file is needed")
            return ("crash", f"the real code terminated abnormally (signal or exit {v}) on an input satisfying the precondition")
        if kind == "error":
            self.chk.note(f"{nt['fname']}: stand-in error {v}")
            return ("error", v)
        if "fail" in v:
            return ("fail", v["fail"])
        if v.get("skipped"):
            self.chk.note(f"{nt['fname']}: skipped cases {v['skipped']}")
        return ("pass", v["done"])

    def _case(self, L, rng, model, case):
        nt = self._native
        prog, fn = self.prog, nt["fn"]
        params = fname_params(fn)
        roots = {p: ty for p, ty, _ in params}
        gen = nt["gen"]

        def values(key, idx, ty):
            if gen is not None:
                v = gen(rng, key, idx, ty)
                if v is not None:
                    return v
            k = tkind(ty)
            if k == "float":
                return rng.choice([0, 0.5, 1, -1, 2]) if rng.random() < 0.3 else rng.randint(-32, 32) / 8
            if k == "fptr":
                return next((self.callbacks[f"{e}.{key[-1]}"] for e in key if f"{e}.{key[-1]}" in self.callbacks), self.callbacks.get(key[-1]))
            if ty == "char":
                return 0
            if k == "bool":
                return rng.randint(0, 1)
            return rng.randint(0, 2)
        sroots = {p: t for p, t in roots.items() if p not in nt["strs"] and p not in nt["null"] and p not in nt["alias"]}
        mem = cnative.Memory(self.types, {p: (t if tkind(t) != "array" else pointee(t) + "*") for p, t in sroots.items()}, nt["casts"], K=nt["K"], KD=nt["KD"], nullp=nt["nullp"], values=values, matdim=nt["matdim"])
        sc = {}
        it = self.interp(**nt["interp_kw"])
        for p, ty, _ in params:
            if p in sroots and tkind(ty) not in ("ptr", "array", "fptr"):
                k = it.kind(ty)
                g = gen(rng, (p,), (), ty) if gen else None
                sc[p] = g if g is not None else (rng.randint(-16, 16) / 8 if k == "float" else rng.randint(0, 1) if k == "bool" else rng.randint(0, 2))
        if nt["fix"]:
            nt["fix"](mem, sc, rng)
        if model is not None:
            self._impose(mem, sc, model, roots)
        if nt["norm"]:
            nt["norm"](mem, sc)
        mem.freeze()
        it.ctx = csym.Ctx(None, [], [])
        sp = Spec(it, prog, roots, nt["casts"])
        sp.A = {p: (z3.Real(p) if it.kind(ty) == "float" else z3.Int(p)) for p, ty, _ in params if p in sc}
        nt["spec"](sp, sp.A)
        ev = cnative.Eval(mem, it, sc)
        for p in sp.pre:
            if not ev(p):
                return None
        if ev(sp.may_exit):
            return None
        expect = []
        allowed = {}
        for p in sp.posts:
            rngs = [range(nt["KD"] if p.key[-1] in ("[]", "[,]") and v.eq(p.idx[-1]) or v.decl().name() in ("q!k", "q!r", "q!c") else max(nt["K"], 6)) for v in p.vars]
            rngs = [range(min(len(r), nt["matdim"][0])) if p.key[-1] == "[,]" else r for r in rngs]
            for tup in itertools.product(*rngs):
                env = {v.decl().name(): x for v, x in zip(p.vars, tup)}
                try:
                    if not ev(p.when, env):
                        continue
                except cnative.EvalError:
                    continue
                idx = tuple(ev(t, env) for t in p.idx)
                allowed.setdefault(p.key, set()).add(idx)
                if p.value is not None:
                    expect.append((p, idx, ev(p.value, env)))
        ret = ev(sp.ret) if sp.ret is not None else None
        f = getattr(L, nt["fname"])
        kret = tstr(fn["type"]).split("(")[0].strip()
        f.restype = None if kret == "void" else self.types.ct(kret)
        f.argtypes = None
        cargs = []
        for p, ty, _ in params:
            if p in nt["strs"]:
                cargs.append(ctypes.c_char_p(nt["strs"][p].encode()))
            elif p in nt["null"]:
                cargs.append(ctypes.c_void_p(0))
            elif tkind(ty) in ("ptr", "array"):
                cargs.append(ctypes.c_void_p(mem.args[nt["alias"].get(p, p)]))
            else:
                cargs.append(self.types.ct(ty)(sc[p]))
        oob = ctypes.c_int.in_dll(L, "vf_oob")
        oob.value = 0
        got = f(*cargs) if nt["call"] is None else nt["call"](L, f, cargs, mem)
        inp = lambda: dict(scalars=sc, ints=_ints(mem))
        if oob.value:
            return dict(what="access outside a matrix or vector", input=inp())
        for p, idx, w in expect:
            v = mem.current(p.key, idx)
            if not cnative.close(v, w, nt["tol"]):
                return dict(what=f"{p.name}: {'.'.join(p.key)}{list(idx)} is {v}, the specification says {w}", input=inp())
        for key, idx, ty, a, b in mem.changed():
            if idx in allowed.get(key, ()) or sp.is_scratch(key):
                continue
            return dict(what=f"{'.'.join(key)}{list(idx)} changed from {a} to {b} but is not in the function's frame", input=inp())
        if ret is not None and not cnative.close(got, ret, nt["tol"]):
            return dict(what=f"returned {got}, the specification says {ret}", input=inp())
        return {}

    def _impose(self, mem, sc, model, roots):
        for d in model.decls():
            n = d.name()
            nm = n[:-2] if n.endswith(":r") else n
            key = tuple(nm.split("."))
            if d.arity() == 0:
                if n in sc:
                    sc[n] = _pyval(model[d], isinstance(sc[n], float))
                    continue
                if key[0] in roots and len(key) > 1:
                    try:
                        mem.set(key, (), _pyval(model[d]))
                    except Exception:
                        pass
                continue
            if key[0] not in roots:
                continue
            fi = model[d]
            if not isinstance(fi, z3.FuncInterp):
                continue
            ev = fi.else_value()
            if ev is not None and (z3.is_int_value(ev) or z3.is_rational_value(ev)):
                for ix in itertools.product(range(4 if d.arity() <= 3 else 1), repeat=d.arity()):
                    try:
                        mem.set(key, ix, _pyval(ev))
                    except Exception:
                        pass
            for e in range(fi.num_entries()):
                en = fi.entry(e)
                try:
                    ix = [en.arg_value(j).as_long() for j in range(en.num_args())]
                    if all(0 <= x < 64 for x in ix):
                        mem.set(key, ix, _pyval(en.value()))
                except Exception:
                    pass


def _ints(mem):
    out = {}
    for addr, buf, key, idx, ty, n in mem.blocks:
        if ty in ("int",):
            out[".".join(key) + str(list(idx))] = list(buf)[:5]
        elif mem.T.rec(ty) is not None and len(out) < 80:
            r = mem.T.rec(ty)
            for i in range(min(n, 3)):
                v = {f: getattr(buf[i], f) for f, t in r[1] if tstr(t) in ("int", "double", "_Bool", "bool")}
                if v:
                    out[".".join(key) + str(list(idx) + [i])] = v
    return dict(list(out.items())[:60])


def _pyval(v, fl=False):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return f.numerator / f.denominator
    if z3.is_algebraic_value(v):
        return float(v.approx(10).as_fraction())
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return 0


def _int_apps(t, acc, seen=None):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith(("S_", "M_", "sizeof")):
            acc[x.get_id()] = x
        todo += x.children()


def csym_has(goal, base, stem):
    for t in [goal] + list(base):
        for n in csym.consts_of(t):
            if n.startswith(stem):
                return True
    return False
