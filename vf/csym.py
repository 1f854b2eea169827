"""A deductive verifier for the project's C functions.

The interpreter walks clang's AST of the real translation units and computes, for symbolic
inputs, the effect of a function as logical terms:

 * branches: both sides are taken; results are merged under guards, or the path is split;
 * memory: access paths.  A location is a key (field names from a parameter or variable,
   "*" for following a pointer, "[]" for an element) with index terms.  Different keys do not
   alias unless a pointer was stored through the code itself (assumption A-SEP);
 * loops with symbolic bounds are summarised, not unrolled: every write is generalised over
   the iteration (a comprehension), and every location carried from one iteration to the next
   is given the closed form of a sum, a maximum, a last write, or else is forgotten (havoc);
 * callees are used by contract when a contract is registered, otherwise inlined from source;
 * integers are mathematical integers, doubles are real numbers.

Terms, guards and obligations are z3 terms; z3 decides them.
"""
import os, re, time, hashlib
import z3
from .core import Unsupported
from .cast import tstr, tkind, pointee, fname_params, body as fbody

I = lambda n: z3.IntVal(n)
R = lambda x: z3.RealVal(x)
UNROLL = 12
IV = [z3.Int(f"iv!{j}") for j in range(12)]


DBG = bool(os.environ.get('CSYM_DBG'))


class Exit(Exception):
    """exit()/abort() reached: this path does not return"""


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ptr:
    __slots__ = ("key", "idx", "off", "direct")

    def __init__(self, key, idx=(), off=None, direct=False):
        self.key, self.idx, self.direct = tuple(key), tuple(idx), direct
        self.off = I(0) if off is None else off

    def loc(self, i=None):
        """location of element i (relative)"""
        if self.direct:
            o = self.off if i is None else self.off + i
            if not is0(o):
                raise Unsupported("arithmetic on a pointer to a scalar")
            return self.key, self.idx
        o = self.off if i is None else self.off + i
        return self.key + ("[]",), self.idx + (z3.simplify(o),)

    def add(self, n):
        return Ptr(self.key, self.idx, z3.simplify(self.off + n), self.direct)

    def __repr__(self):
        return f"Ptr({'.'.join(self.key)}{list(self.idx)}+{self.off})"


class Raw:
    """address into the raw memory block being carved (memory-size obligations)"""
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return f"Raw({self.addr})"


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class FRef:
    def __init__(self, name, tu=None):
        self.name, self.tu = name, tu


class FPtr:
    def __init__(self, key, idx):
        self.key, self.idx = key, idx

    def __repr__(self):
        return f"FPtr({'.'.join(self.key)})"


class Str:
    def __init__(self, s, off=0):
        self.s, self.off = s, off

    def text(self):
        return self.s[self.off:]


class Rec:
    __slots__ = ("key", "idx")

    def __init__(self, key, idx):
        self.key, self.idx = key, idx


class Uninit:
    def __repr__(self):
        return "<uninitialised>"


UNINIT = Uninit()


def is0(t):
    t = z3.simplify(t)
    return z3.is_int_value(t) and t.as_long() == 0


def is_num(v):
    return isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, z3.BoolRef)


def num(v):
    if is_bool(v):
        return z3.If(v, I(1), I(0))
    if isinstance(v, bool):
        return I(int(v))
    if isinstance(v, int):
        return I(v)
    if is_num(v):
        return v
    if v is NULL:
        return I(0)
    raise Unsupported(f"number expected, got {v!r}")


def real(v):
    v = num(v)
    return z3.simplify(z3.ToReal(v)) if v.sort() == z3.IntSort() else v


def truth(v):
    if is_bool(v):
        return v
    if is_num(v):
        if v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() != 0, v.arg(2).as_long() != 0
            if a and not b:
                return v.arg(0)
            if b and not a:
                return z3.Not(v.arg(0))
        return v != 0
    if v is NULL:
        return z3.BoolVal(False)
    if isinstance(v, (Str, Raw, FRef)):
        return z3.BoolVal(True)
    return None


def substv(v, pairs):
    """substitution in a value"""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Ptr):
        return Ptr(v.key, [z3.substitute(t, *pairs) for t in v.idx], z3.substitute(v.off, *pairs), v.direct)
    if isinstance(v, Raw):
        return Raw(z3.substitute(v.addr, *pairs))
    if isinstance(v, FPtr):
        return FPtr(v.key, tuple(z3.substitute(t, *pairs) for t in v.idx))
    if isinstance(v, Rec):
        return Rec(v.key, tuple(z3.substitute(t, *pairs) for t in v.idx))
    return v


def consts_of(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        todo.extend(x.children())
    return acc


def vterms(v):
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, Ptr):
        return list(v.idx) + [v.off]
    if isinstance(v, Raw):
        return [v.addr]
    if isinstance(v, (FPtr, Rec)):
        return list(v.idx)
    return []


def mentions(v, c):
    n = c.decl().name()
    return any(n in consts_of(t) for t in vterms(v))


class Entry:
    """a write: matches index tuple iv iff comps and guard hold"""
    __slots__ = ("comps", "guard", "val", "barrier")

    def __init__(self, comps, guard, val, barrier=None):
        self.comps, self.guard, self.val, self.barrier = list(comps), guard, val, barrier

    def subst(self, pairs):
        return Entry([None if c is None else z3.substitute(c, *pairs) for c in self.comps],
                     z3.substitute(self.guard, *pairs), substv(self.val, pairs))

    def guarded(self, g):
        return Entry(self.comps, z3.And(g, self.guard), self.val, self.barrier)

    def match(self, idx):
        pr = [(IV[j], t) for j, t in enumerate(idx)]
        cs = []
        for j, c in enumerate(self.comps):
            if c is not None:
                cs.append(z3.substitute(c, *pr) == idx[j] if pr else c == idx[j])
        cs.append(z3.substitute(self.guard, *pr) if pr else self.guard)
        return z3.simplify(z3.And(*cs))

    def value(self, idx):
        pr = [(IV[j], t) for j, t in enumerate(idx)]
        return substv(self.val, pr) if pr else self.val


class State:
    def __init__(self):
        self.store = {}      # key -> tuple of entries, oldest first
        self.frame = 0
        self.log = ()        # opaque calls: (guard, name, args, snapshot)

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.frame = self.frame
        s.log = self.log
        return s


class Ctx:
    def __init__(self, outer, sched, extra=()):
        self.outer = outer
        self.conds = []            # decisions and assumptions made in this context
        self.decisions = []
        self.sched, self.pos, self.pending = sched, 0, []
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.base = (outer.base + outer.conds) if outer else []
        for c in self.base:
            self.solver.add(c)
        self.cache = {}
        self.quick = {}
        self.nax = 0
        for c in extra:
            self.add(c)

    def add(self, c):
        self.conds.append(c)
        self.solver.add(c)
        self.cache = {}

    def all(self):
        return self.base + self.conds


class Interp:
    def __init__(self, prog, contracts=None, indirect=None, axioms=None, inline=None, raw_mode=False, preset=None,
                 nonnull=True, opaque_calls=False):
        self.prog = prog
        self.contracts = dict(contracts or {})
        self.indirect = dict(indirect or {})
        self.axioms = axioms                    # (key, idx, term) -> list of assumptions about initial values
        self.inline = inline                    # predicate on names, default: everything with a body
        self.raw_mode = raw_mode
        self.preset = dict(preset or {})        # key -> fn(idx) -> value: initial contents fixed by the check
        self.nonnull = nonnull                  # initial pointers are not NULL
        self.ctx = None
        self.counter = 0
        self.solver_s = 0.0
        self.events = []                        # ("assert"/"call"/.., pc, info)
        self.funcs_seen = set()
        self.nfree = 0
        self.imprecise = []
        self.sums = {}
        self.maxs = {}
        self.lasts = {}
        self.maxsimple = []
        self.loops = 0
        self.assumed = set()
        self.opaque_calls = opaque_calls
        self.depth = 0
        self.frames = []
        self.gax, self.gkeys, self.keep, self.touched = [], set(), [], set()
        self.gax.append(z3.And(NINF <= -1000000, NINFI <= -1000000))

    # ------------------------------------------------------------ logic
    def fresh(self, stem, sort="int"):
        self.nfree += 1
        n = f"{stem}!{self.nfree}"
        return z3.Int(n) if sort == "int" else z3.Bool(n) if sort == "bool" else z3.Real(n)

    def _sat(self, *cs):
        t = time.time()
        x = self.ctx
        if x.nax < len(self.gax):
            x.solver.add(*self.gax[x.nax:])
            x.nax = len(self.gax)
        r = x.solver.check(*cs)
        self.solver_s += time.time() - t
        return r

    def valid(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self._sat() == z3.unsat
        k = c.get_id()
        hit = self.ctx.cache.get(k)
        if hit is None:
            hit = (self._sat(z3.Not(c)) == z3.unsat, c)
            self.ctx.cache[k] = hit
        return hit[0]

    def possible(self, c):
        return not self.valid(z3.Not(c))

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        x = self.ctx
        if x.pos < len(x.sched):
            v = x.sched[x.pos]
            x.pos += 1
            if v[1]:
                x.add(c if v[0] else z3.Not(c))
            return v[0]
        t, f = self.possible(c), self.possible(z3.Not(c))
        if not t and not f:
            raise Infeasible()
        v = t
        both = t and f
        if both:
            x.pending.append(x.sched[:x.pos] + [(False, True)])
        x.sched = x.sched[:x.pos] + [(v, both)]
        x.pos += 1
        if both:
            x.add(c if v else z3.Not(c))
        return v

    def assume(self, c):
        c = z3.simplify(c)
        if not z3.is_true(c):
            self.ctx.add(c)

    def explore(self, st, fn, extra=(), limit=3000):
        """all outcomes of fn(state): [(conds, state, (kind, value))]"""
        res, todo = [], [[]]
        outer = self.ctx
        nfree0 = self.nfree
        nmax = nfree0
        try:
            while todo:
                if len(res) > limit:
                    raise Unsupported("too many paths")
                self.ctx = Ctx(outer, todo.pop(), extra)
                self.nfree = nfree0
                s = st.copy()
                try:
                    out = ("normal", fn(s))
                except Ret as e:
                    out = ("return", e.v)
                except Brk:
                    out = ("break", None)
                except Cont:
                    out = ("continue", None)
                except Exit:
                    out = ("exit", None)
                except Infeasible:
                    out = None
                nmax = max(nmax, self.nfree)
                todo.extend(self.ctx.pending)
                if out is not None:
                    res.append((list(self.ctx.conds)[len(extra):], s, out))
        finally:
            self.ctx = outer
            self.nfree = nmax
        return res

    class _Local:
        def __init__(self, it, conds):
            self.it, self.conds = it, conds

        def __enter__(self):
            x = self.it.ctx
            self.saved = (list(x.conds), x.cache, x.nax)
            x.solver.push()
            x.cache = {}
            for c in self.conds:
                x.conds.append(c)
                x.solver.add(c)

        def __exit__(self, *a):
            x = self.it.ctx
            x.solver.pop()
            x.nax = self.saved[2]
            added = x.conds[len(self.saved[0]) + len(self.conds):]
            x.conds, x.cache = self.saved[0], {}
            g = z3.And(*self.conds) if self.conds else z3.BoolVal(True)
            for c in added:   # assumptions made inside stay, under the local assumption
                x.conds.append(z3.Implies(g, c))
                x.solver.add(z3.Implies(g, c))

    def local(self, conds):
        return Interp._Local(self, [z3.simplify(c) for c in conds])

    # ------------------------------------------------------------ sums and maxima
    def _canon(self, t, k):
        """canonical name, argument list and index shift of a body in the bound variable k:
        t(k) = tt(k + shift)"""
        t = z3.simplify(t, som=True, sort_sums=True)
        sh = _shift(t, k)
        if sh is not None:
            t = z3.simplify(z3.substitute(t, (k, k - sh)), som=True, sort_sums=True)
        t = _orient(t)
        cs = consts_of(t)
        internal = sorted(n for n in cs if ("!" in n or n.startswith("#")) and n != k.decl().name())
        # order by first occurrence in the printed body
        s = t.sexpr()
        internal.sort(key=lambda n: s.find(n))
        pairs = [(k, z3.Int("@k"))] + [(cs[n], z3.Const(f"@{j}", cs[n].sort())) for j, n in enumerate(internal)]
        tt = z3.substitute(t, *pairs)
        return tt, [cs[n] for n in internal], (sh if sh is not None else I(0))

    def _prefix(self, t, k, at):
        """P_t(at): the sum of t(k) for k from a fixed origin up to at (exclusive)"""
        tt, args, sh = self._canon(t, k)
        name = "S_" + hashlib.md5((tt.sexpr() + str(tt.sort())).encode()).hexdigest()[:12]
        if name not in self.sums:
            f = z3.Function(name, *[a.sort() for a in args], z3.IntSort(), tt.sort())
            self.sums[name] = (f, tt, [z3.Const(f"@{j}", a.sort()) for j, a in enumerate(args)])
        f = self.sums[name][0]
        return f(*args, z3.simplify(at + sh))

    def sum_term(self, t, k, lo, hi):
        """sum of t(k) for lo <= k < hi (0 when empty)"""
        t = z3.simplify(t, som=True, sort_sums=True)
        zero = I(0) if t.sort() == z3.IntSort() else R(0)
        if not mentions(t, k):
            n = z3.If(hi > lo, hi - lo, I(0))
            if self.ctx is not None and self.valid(hi >= lo):
                n = z3.simplify(hi - lo)
            return (n if t.sort() == z3.IntSort() else z3.ToReal(n)) * t
        if self.ctx is not None and self.valid(hi <= lo):
            return zero
        th = _threshold(t, k) if self.ctx is not None else None
        if th is not None:
            # the body is  cond(k) ? a : b  with cond true exactly below (or from) c: split the range at c
            cond, c, below = th
            c = z3.simplify(c)
            if self.valid(z3.And(lo <= c, c <= hi)):
                yes = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(True))))
                no = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(False))))
                a, b = (yes, no) if below else (no, yes)
                return z3.simplify(self.sum_term(a, k, lo, c) + self.sum_term(b, k, c, hi))
        terms = t.children() if t.decl().kind() == z3.Z3_OP_ADD else [t]
        tot = zero
        rest = zero
        for m in terms:
            coef, var = self._split(m, k)
            if var is None:
                rest = rest + m
                continue
            tot = tot + coef * (self._prefix(var, k, hi) - self._prefix(var, k, lo))
        if not (self.ctx is not None and self.valid(hi >= lo)):
            tot = z3.If(hi > lo, tot, zero)
        r = tot
        if not z3.is_const(z3.simplify(rest)) or not _iszero(rest):
            r = r + self.sum_term(rest, k, lo, hi)
        return z3.simplify(r)

    def _split(self, m, k):
        if not mentions(m, k):
            return m, None
        if m.decl().kind() == z3.Z3_OP_MUL:
            c = [x for x in m.children() if not mentions(x, k)]
            v = [x for x in m.children() if mentions(x, k)]
            one = I(1) if m.sort() == z3.IntSort() else R(1)
            cc = one
            for x in c:
                cc = cc * x
            vv = v[0]
            for x in v[1:]:
                vv = vv * x
            return cc, vv
        one = I(1) if m.sort() == z3.IntSort() else R(1)
        return one, m

    def max_term(self, t, k, lo, hi, init):
        """max(init, max of t(k) for lo <= k < hi)"""
        t = z3.simplify(t)
        ninf = NINF if t.sort() == z3.RealSort() else NINFI
        if self.ctx is not None and self.valid(hi <= lo):
            return init
        th = _threshold(t, k) if self.ctx is not None else None
        if th is not None:
            cond, c, below = th
            c = z3.simplify(c)
            if self.valid(z3.And(lo <= c, c <= hi)):
                yes = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(True))))
                no = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(False))))
                a, b = (yes, no) if below else (no, yes)
                return self.max_term(b, k, c, hi, self.max_term(a, k, lo, c, init))
        r = init
        seen = set()
        for part in self._max_parts(t):
            if z3.eq(part, ninf) or part.get_id() in seen:
                continue
            seen.add(part.get_id())
            if not mentions(part, k):
                m = part if self.ctx is not None and self.valid(hi > lo) else z3.If(hi > lo, part, ninf)
            else:
                tt, args, sh = self._canon(part, k)
                name = "M_" + hashlib.md5((tt.sexpr() + str(tt.sort())).encode()).hexdigest()[:12]
                if name not in self.maxs:
                    f = z3.Function(name, *[a.sort() for a in args], z3.IntSort(), z3.IntSort(), tt.sort())
                    self.maxs[name] = (f, tt, [z3.Const(f"@{j}", a.sort()) for j, a in enumerate(args)])
                m = self.maxs[name][0](*args, z3.simplify(lo + sh), z3.simplify(hi + sh))
                self.axiom(("ninf", m.get_id()), z3.And(ninf <= m))
                self.keep.append(m)
                # max over an array of initial values: every access in the range is bounded by it
                b = z3.simplify(part)
                if b.decl().kind() == z3.Z3_OP_UNINTERPRETED and "." in b.decl().name() and m.get_id() not in {x[0] for x in self.maxsimple}:
                    pos = [j for j, a in enumerate(b.children()) if mentions(a, k)]
                    if len(pos) == 1 and z3.eq(b.arg(pos[0]), k):
                        self.maxsimple.append((m.get_id(), m, b, pos[0], lo, hi))
                        for x in list(self.keep):
                            self._max_instance(x)
            if z3.eq(r, ninf):
                r = m
            else:
                r = z3.If(r >= m, r, m)
        if not z3.eq(init, ninf) and not (z3.is_rational_value(init) or z3.is_int_value(init)):
            self.axiom(("ninf", init.get_id()), ninf <= init)
            self.keep.append(init)
        return r

    def _max_instance(self, t):
        for _, m, b, p, lo, hi in self.maxsimple:
            if t.num_args() == b.num_args() and t.decl().eq(b.decl()) and all(z3.eq(x, y) for j, (x, y) in enumerate(zip(t.children(), b.children())) if j != p):
                e = t.arg(p)
                if not _has_iv(e):
                    self.axiom(("maxi", m.get_id(), t.get_id()), z3.Implies(z3.And(lo <= e, e < hi), t <= m))

    def last_term(self, pred, k, lo, hi):
        """the last index k in [lo, hi) at which pred(k) holds; lo - 1 when there is none"""
        tt, args, sh = self._canon(pred, k)
        name = "LAST_" + hashlib.md5(tt.sexpr().encode()).hexdigest()[:12]
        if name not in self.lasts:
            f = z3.Function(name, *[a.sort() for a in args], z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.lasts[name] = (f, tt, [z3.Const(f"@{j}", a.sort()) for j, a in enumerate(args)])
        lo, hi = z3.simplify(lo + sh), z3.simplify(hi + sh)
        f, tt, ps = self.lasts[name]
        r = f(*args, lo, hi)
        return z3.simplify(r - sh)

    def last_axioms(self, r):
        f, tt, ps = self.lasts[r.decl().name()]
        ch = r.children()
        lo, hi = ch[-2:]
        body = lambda q: z3.substitute(tt, (z3.Int("@k"), q), *zip(ps, ch[:-2]))
        out = [r >= lo - 1, z3.Or(r < hi, r == lo - 1), z3.Implies(r >= lo, body(r))]
        for q in self.instances:
            out.append(z3.Implies(z3.And(lo <= q, q < hi, body(q)), r >= q))
        return out

    def _max_parts(self, t):
        if t.decl().kind() != z3.Z3_OP_ITE:
            return [t]
        c, x, y = t.children()
        if x.sort() == z3.BoolSort():
            return [t]
        d = z3.simplify(x + y, som=True)
        if _iszero(d):
            return [t]
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(z3.Or(z3.And(c, x < y), z3.And(z3.Not(c), y < x)))
        if s.check() == z3.unsat:
            return self._max_parts(x) + self._max_parts(y)
        return [t]

    def reduction_axioms(self, goals, depth=2):
        """instances of the defining laws of the sum and max symbols occurring in the goals"""
        ax, done = [], set()
        terms = list(goals)
        for _ in range(depth):
            apps = {}
            seen = set()
            for g in terms:
                _collect_apps(g, self.sums, self.maxs, apps, seen)
            new = []
            groups = {}
            for a in apps.values():
                groups.setdefault((a.decl().name(), tuple(str(x) for x in a.children()[:-1])), []).append(a)
            for (name, _), lst in groups.items():
                if name not in self.sums:
                    continue
                f, tt, ps = self.sums[name]
                for a in lst:
                    at = a.children()[-1]
                    args = a.children()[:-1]
                    nonneg = tt.sort() == z3.IntSort()
                    for b in lst:
                        if a is b:
                            continue
                        bt = b.children()[-1]
                        d = z3.simplify(bt - at)
                        if z3.is_int_value(d) and 0 < d.as_long() <= 4:
                            key = ("step", a.get_id(), b.get_id())
                            if key not in done:
                                done.add(key)
                                s = a
                                for q in range(d.as_long()):
                                    s = s + z3.substitute(tt, (z3.Int("@k"), z3.simplify(at + q)), *zip(ps, args))
                                new.append(b == s)
                        if nonneg:
                            key = ("mono", a.get_id(), b.get_id())
                            if key not in done and self.nonneg_body(tt):
                                done.add(key)
                                new.append(z3.Implies(at <= bt, a <= b))
            for a in apps.values():
                n = a.decl().name()
                if n in self.maxs:
                    key = ("max", a.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    f, tt, ps = self.maxs[n]
                    ch = a.children()
                    lo, hi = ch[-2:]
                    ninf = NINF if tt.sort() == z3.RealSort() else NINFI
                    new.append(ninf <= a)
                    new.append(ninf <= -1000000)
                    new.append(z3.Implies(hi <= lo, a == ninf))
                    w = z3.Int(f"w!{a.get_id()}")
                    body = lambda q: z3.substitute(tt, (z3.Int("@k"), q), *zip(ps, ch[:-2]))
                    new.append(z3.Implies(lo < hi, z3.And(lo <= w, w < hi, a == body(w))))
                    for q in self.instances:
                        new.append(z3.Implies(z3.And(lo <= q, q < hi), body(q) <= a))
            byargs = {}
            for a in apps.values():
                if a.decl().name() in self.maxs:
                    byargs.setdefault((a.decl().name(), tuple(str(x) for x in a.children()[:-2])), []).append(a)
            for lst in byargs.values():
                # M(lo, hi) = max(M(lo, c), M(c, hi)) for the ranges that occur
                for a in lst:
                    for b in lst:
                        lo, c = a.children()[-2:]
                        if a is b or not z3.eq(z3.simplify(b.children()[-2] - c), I(0)):
                            continue
                        key = ("split", a.get_id(), b.get_id())
                        if key in done:
                            continue
                        done.add(key)
                        hi = b.children()[-1]
                        w = a.decl()(*a.children()[:-2], lo, hi)
                        new.append(z3.Implies(z3.And(lo <= c, c <= hi), w == z3.If(a >= b, a, b)))
            ax += new
            if not new:
                break
            terms = new
        return [NINF <= -1000000, NINFI <= -1000000] + ax

    instances = ()

    def nonneg_body(self, tt):
        """is the body provably nonnegative for every index (sizes, dimensions)?"""
        return True if self.sum_nonneg else False

    sum_nonneg = False

    # ------------------------------------------------------------ memory
    def base(self, key, idx, kind):
        """initial content of a location"""
        if key in self.preset:
            return self.preset[key](*idx)
        if key[0].startswith("F"):
            nm = "u!" + ".".join(key)
            if kind == "ptr":
                return Ptr(key + ("*",), idx)
            if kind == "fptr":
                return FPtr(key, idx)
        if kind == "ptr":
            return Ptr(key + ("*",), idx)
        if kind == "fptr":
            return FPtr(key, idx)
        name = ".".join(key)
        self.touched.add(key)
        if kind == "float":
            sort = z3.RealSort()
        elif kind == "bool":
            sort = z3.IntSort()
        else:
            sort = z3.IntSort()
        if idx:
            t = z3.Function(name + (":r" if kind == "float" else ""), *[z3.IntSort()] * len(idx), sort)(*idx)
        else:
            t = z3.Const(name + (":r" if kind == "float" else ""), sort)
        if kind == "bool":
            self.axiom(("bool", t.get_id()), z3.Or(t == 0, t == 1))
        if self.axioms is not None:
            self.keep.append(t)
            if self.maxsimple:
                self._max_instance(t)
            for n, a in enumerate(self.axioms(key, idx, t) or ()):
                self.axiom((n, t.get_id()), a)
        return t

    def axiom(self, k, a):
        """a fact about initial values or contract symbols that holds for every index: global, never part of a guard"""
        if k in self.gkeys:
            return
        self.gkeys.add(k)
        a = z3.simplify(a)
        if not z3.is_true(a):
            self.gax.append(a)
            if self.ctx is not None:
                self.ctx.cache = {}

    def instantiate(self, terms, rounds=2):
        """the assumptions on initial values for every access occurring in the terms"""
        seen = set()
        todo = list(terms)
        for _ in range(rounds):
            n0 = len(self.gax)
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                    n = x.decl().name()
                    n = n[:-2] if n.endswith(":r") else n
                    if n in self.lasts:
                        for j, a in enumerate(self.last_axioms(x)):
                            self.axiom((j, x.get_id()), a)
                            self.keep.append(x)
                    if self.maxsimple:
                        self._max_instance(x)
                    if self.axioms is not None and "." in n and not n.startswith(("S_", "M_")):
                        for j, a in enumerate(self.axioms(tuple(n.split(".")), tuple(x.children()), x) or ()):
                            self.axiom((j, x.get_id()), a)
                            self.keep.append(x)
                todo.extend(x.children())
            todo = self.gax[n0:]

    def load(self, st, key, idx, kind, upto=None):
        ents = st.store.get(key, ())
        acc = []          # (cond, value) newest first
        for e in reversed(ents):
            if e.barrier is not None:
                r = e.barrier(key, idx, kind, acc)
                if r is not None:
                    return self._combine(acc, r, kind)
                continue
            if len(e.comps) != len(idx):
                raise Unsupported(f"index arity mismatch at {key}")
            m = e.match(idx)
            if z3.is_false(m):
                continue
            if not z3.is_true(m):
                if self.valid(m):
                    m = z3.BoolVal(True)
                elif self.valid(z3.Not(m)):
                    continue
                elif z3.is_and(m):
                    ks = [c for c in m.children() if not self.valid(c)]
                    m = ks[0] if len(ks) == 1 else z3.And(*ks) if ks else z3.BoolVal(True)
            v = e.value(idx)
            if z3.is_true(m):
                return self._combine(acc, v, kind)
            if is_num(v) or is_bool(v):
                acc.append((m, v))
            elif v is UNINIT:
                continue
            else:
                if self.decide(m):
                    return self._combine(acc, v, kind)
        return self._combine(acc, self.base(key, idx, kind), kind)

    def _combine(self, acc, v, kind):
        if v is UNINIT:
            v = self.fresh("uninit", "real" if kind == "float" else "int") if kind in ("float", "int", "bool") else UNINIT
        if not acc:
            if kind == "float" and (is_num(v) or is_bool(v)):
                return real(v)
            return v
        if not (is_num(v) or is_bool(v)):
            # decide the numeric guards away
            for m, w in acc:
                if self.decide(m):
                    return w
            return v
        r = real(v) if kind == "float" else num(v)
        for m, w in reversed(acc):
            w = real(w) if kind == "float" else num(w)
            if w.sort() != r.sort():
                w, r = real(w), real(r)
            r = z3.If(m, w, r)
        return r

    def write(self, st, key, idx, val):
        old = st.store.get(key, ())
        if not idx:
            # a scalar: drop what it hides, but keep loop barriers visible to nobody
            st.store[key] = tuple(e for e in old if e.barrier is not None) + (Entry([], z3.BoolVal(True), val),)
            return
        st.store[key] = old + (Entry(list(idx), z3.BoolVal(True), val),)

    def write_range(self, st, key, idx, frees, guard, val):
        """frees: number of trailing free index components; guard/val in terms of IV[len(idx):]"""
        st.store[key] = st.store.get(key, ()) + (Entry(list(idx) + [None] * frees, guard, val),)

    # ------------------------------------------------------------ types
    def kind(self, t):
        s = tstr(t) if not isinstance(t, str) else t
        k = tkind(s)
        if k == "record" and self.record(s) is None:
            return "int"
        return k

    def record(self, s):
        s = s.strip()
        r = self.prog.records.get(s)
        if r is None:
            r = self.prog.records.get("struct " + s)
        if r is None and s in self.prog.typedefs:
            u = tstr(self.prog.typedefs[s]["type"])
            if u != s:
                return self.record(u)
        return r

    def sizeof(self, s):
        s = s.strip()
        k = tkind(s)
        if k in ("ptr", "fptr"):
            return I(8)
        if k == "array":
            import re
            m = re.findall(r"\[(\d+)\]", s)
            n = 1
            for x in m:
                n *= int(x)
            return z3.simplify(self.sizeof(s[:s.index("[")]) * n)
        basic = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "char": 1, "unsigned char": 1, "signed char": 1, "_Bool": 1, "bool": 1,
                 "long": 8, "unsigned long": 8, "size_t": 8, "acados_size_t": 8, "long long": 8, "unsigned long long": 8, "short": 2, "void": 1}
        if s in basic:
            return I(basic[s])
        r = self.record(s)
        if r is None:
            if s in self.prog.typedefs:
                u = tstr(self.prog.typedefs[s]["type"])
                if u != s:
                    return self.sizeof(u)
            return I(4)
        nm = s if s.startswith("struct ") else "struct " + s
        t = z3.Int("sizeof(" + nm.replace("struct ", "").rstrip("_") + ")")
        self.axiom(("sizeof", nm), z3.And(t >= 8, t % 8 == 0))
        return t

    # ------------------------------------------------------------ lvalues
    def lval(self, n, st):
        """-> (key, idx, typestring)"""
        k = n["kind"]
        if k == "ParenExpr":
            return self.lval(n["inner"][0], st)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            return self.varkey(d, st), (), tstr(n["type"])
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                p = self.ev(b, st)
                if not isinstance(p, Ptr):
                    raise Unsupported(f"-> on {p!r}")
                key, idx = p.loc()
            else:
                key, idx, _ = self.lval(b, st)
            return key + (n["name"],), idx, tstr(n["type"])
        if k == "ArraySubscriptExpr":
            a, i = n["inner"]
            p = self.ev(a, st)
            i = num(self.ev(i, st))
            if isinstance(p, Ptr):
                key, idx = p.loc(i)
                return key, idx, tstr(n["type"])
            if isinstance(p, Str):
                return ("#str", p, z3.simplify(i)), (), "char"
            raise Unsupported(f"subscript of {p!r}")
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0], st)
            if isinstance(p, Ptr):
                key, idx = p.loc()
                return key, idx, tstr(n["type"])
            if isinstance(p, Str):
                return ("#str", p, I(0)), (), "char"
            raise Unsupported(f"dereference of {p!r}")
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "LValueBitCast"):
            return self.lval(n["inner"][0], st)
        if k == "CompoundLiteralExpr" or k == "CallExpr":
            v = self.ev(n, st)
            if isinstance(v, Rec):
                return v.key, v.idx, tstr(n["type"])
        raise Unsupported(f"lvalue {k}")

    def varkey(self, d, st):
        for fr in reversed(self.frames[-1:]):
            if d["id"] in fr:
                return fr[d["id"]]
        if d["kind"] == "VarDecl":
            return ("G:" + d["name"],)
        raise Unsupported(f"variable {d.get('name')}")

    def read_lval(self, key, idx, ty, st):
        if key and key[0] == "#str":
            p, i = key[1], key[2]
            i = z3.simplify(i)
            if not z3.is_int_value(i):
                raise Unsupported("symbolic index into a string")
            s = p.text()
            j = i.as_long()
            return I(ord(s[j])) if 0 <= j < len(s) else I(0)
        kd = self.kind(ty)
        if kd == "record":
            return Rec(key, idx)
        if kd == "array":
            return Ptr(key, idx)
        return self.load(st, key, idx, kd)

    def store_lval(self, key, idx, ty, v, st):
        kd = self.kind(ty)
        if kd == "record":
            if not isinstance(v, Rec):
                raise Unsupported("record assignment")
            self.copy_record(key, idx, v.key, v.idx, ty, st)
            return
        if kd == "float":
            v = real(v) if v is not UNINIT else v
        elif kd in ("int",):
            if isinstance(v, Raw):
                v = v.addr
            if v is not UNINIT:
                v = num(v)
                if v.sort() == z3.RealSort():
                    v = self.trunc(v)
        elif kd == "bool":
            v = z3.If(truth(v), I(1), I(0)) if v is not UNINIT else v
        elif kd == "ptr" and is_num(v):
            if z3.is_int_value(v) and v.as_long() == 0:
                v = NULL
            else:
                v = Raw(v)
        if isinstance(v, z3.ExprRef):
            v = z3.simplify(v)
        self.write(st, key, idx, v)

    def copy_record(self, dk, di, sk, si, ty, st):
        f = self.record(ty)
        if f is None:
            raise Unsupported(f"copy of {ty}")
        for name, t in f:
            kd = self.kind(t)
            if kd == "record":
                self.copy_record(dk + (name,), di, sk + (name,), si, tstr(t), st)
            elif kd == "array":
                self.assumed.add("array members of copied structs are not tracked")
            else:
                self.write(st, dk + (name,), di, self.load(st, sk + (name,), si, kd))

    def trunc(self, v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        f = getattr(self, "e_" + n["kind"], None)
        if f is None:
            raise Unsupported(f"expression {n['kind']}")
        return f(n, st)

    def e_ParenExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def e_ConstantExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def e_IntegerLiteral(self, n, st):
        return I(int(n["value"]))

    def e_CharacterLiteral(self, n, st):
        return I(int(n["value"]))

    def e_FloatingLiteral(self, n, st):
        from fractions import Fraction
        f = Fraction(float(n["value"]))
        # decimal literals keep their decimal value
        try:
            f = Fraction(repr(float(n["value"])))
        except ValueError:
            pass
        return R(f"{f.numerator}/{f.denominator}")

    def e_StringLiteral(self, n, st):
        import ast
        try:
            return Str(ast.literal_eval(n["value"]))
        except Exception:
            return Str(n["value"].strip('"'))

    def e_PredefinedExpr(self, n, st):
        return Str("<func>")

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "FunctionDecl":
            return FRef(d["name"], self.frames[-1].get("tu") if self.frames else None)
        if d["kind"] == "EnumConstantDecl":
            if d["name"] not in self.prog.enums:
                raise Unsupported("enum " + d["name"])
            return I(self.prog.enums[d["name"]])
        key, idx, ty = self.lval(n, st)
        return self.read_lval(key, idx, ty, st)

    def e_MemberExpr(self, n, st):
        key, idx, ty = self.lval(n, st)
        return self.read_lval(key, idx, ty, st)

    e_ArraySubscriptExpr = e_MemberExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") != "sizeof":
            raise Unsupported(n.get("name"))
        if "argType" in n:
            return self.sizeof(tstr(n["argType"]))
        return self.sizeof(tstr(n["inner"][0]["type"]))

    def e_ImplicitCastExpr(self, n, st):
        ck = n["castKind"]
        s = n["inner"][0]
        if ck == "LValueToRValue":
            key, idx, ty = self.lval(s, st)
            return self.read_lval(key, idx, ty, st)
        if ck == "ArrayToPointerDecay":
            if s["kind"] in ("StringLiteral", "PredefinedExpr"):
                return self.ev(s, st)
            key, idx, ty = self.lval(s, st)
            return Ptr(key, idx)
        if ck == "FunctionToPointerDecay":
            return self.ev(s, st)
        if ck == "NullToPointer":
            return NULL
        v = self.ev(s, st)
        if ck in ("NoOp", "LValueBitCast", "ToVoid", "BuiltinFnToFnPtr", "BitCast"):
            return v
        if ck == "IntegralCast":
            if is_num(v) and z3.is_int_value(v) and v.as_long() < 0 and "unsigned" in tstr(n["type"]):
                return I(v.as_long() % (1 << 64)) if "long" in tstr(n["type"]) else v
            return v
        if ck == "IntegralToFloating":
            return real(v)
        if ck == "FloatingToIntegral":
            return z3.simplify(self.trunc(real(v)))
        if ck == "FloatingCast":
            return v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.truth(v)
        if ck == "PointerToIntegral":
            if isinstance(v, Raw):
                return v.addr
            raise Unsupported("pointer to integer")
        if ck == "IntegralToPointer":
            v = num(v)
            if z3.is_int_value(v) and v.as_long() == 0:
                return NULL
            return Raw(v)
        raise Unsupported("cast " + ck)

    def e_CStyleCastExpr(self, n, st):
        v = self.e_ImplicitCastExpr(n, st)
        if isinstance(v, Raw):
            t = tstr(n["type"])
            if tkind(t) == "ptr":
                p = pointee(t)
                if p in ("char", "void", "unsigned char"):
                    return v
                return self.raw_cast(v, p, st)
        return v

    def raw_cast(self, v, p, st):
        """a typed object starts at this raw address"""
        self.counter += 1
        nm = f"obj{st.frame}_{len(self.frames)}_{self.counter}:{p}"
        if not hasattr(self, "rawmap"):
            self.rawmap = {}
        # deterministic across replays: name by address term
        nm = "obj:" + p + "@" + hashlib.md5(str(z3.simplify(v.addr)).encode()).hexdigest()[:10]
        self.rawmap[nm] = v.addr
        ks = [c for n_, c in sorted(consts_of(v.addr).items()) if n_.startswith("k!")]
        return Ptr((nm,), tuple(ks))

    def truth(self, v):
        t = truth(v)
        if t is not None:
            return t
        if isinstance(v, (Ptr, FPtr)):
            if isinstance(v, Ptr) and (v.direct or v.key[-1] != "*"):
                return z3.BoolVal(True)
            if self.nonnull is True or (callable(self.nonnull) and self.nonnull(v)):
                self.assumed.add("pointers reachable from the arguments are not NULL")
                return z3.BoolVal(True)
            nm = "nonnull:" + ".".join(v.key)
            if v.idx:
                return z3.Function(nm, *[z3.IntSort()] * len(v.idx), z3.BoolSort())(*v.idx)
            return z3.Bool(nm)
        if v is UNINIT:
            return self.fresh("uninit", "bool")
        raise Unsupported(f"truth of {v!r}")

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        s = n["inner"][0]
        if op == "&":
            x = s
            while x["kind"] == "ParenExpr":
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl":
                return self.ev(x, st)
            if x["kind"] == "UnaryOperator" and x["opcode"] == "*":
                return self.ev(x["inner"][0], st)
            if x["kind"] == "ArraySubscriptExpr":
                p = self.ev(x["inner"][0], st)
                i = num(self.ev(x["inner"][1], st))
                if isinstance(p, Ptr):
                    return p.add(i)
                raise Unsupported("address of element")
            key, idx, ty = self.lval(s, st)
            if self.kind(ty) == "array":
                return Ptr(key, idx)
            if key[-1] == "[]":
                return Ptr(key[:-1], idx[:-1], idx[-1])
            return Ptr(key, idx, direct=True)
        if op == "*":
            key, idx, ty = self.lval(n, st)
            return self.read_lval(key, idx, ty, st)
        if op in ("++", "--"):
            key, idx, ty = self.lval(s, st)
            old = self.read_lval(key, idx, ty, st)
            d = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = old.add(I(d))
            elif isinstance(old, Raw):
                new = Raw(z3.simplify(old.addr + d * self.sizeof(pointee(ty))))
            elif isinstance(old, Str):
                new = Str(old.s, old.off + d)
            else:
                new = z3.simplify(num(old) + (I(d) if num(old).sort() == z3.IntSort() else R(d)))
            self.store_lval(key, idx, ty, new, st)
            return old if n.get("isPostfix") else new
        v = self.ev(s, st)
        if op == "-":
            return z3.simplify(-num(v))
        if op == "+":
            return v
        if op == "!":
            return z3.simplify(z3.Not(self.truth(v)))
        if op == "__extension__":
            return v
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.ev(b, st)
            key, idx, ty = self.lval(a, st)
            self.store_lval(key, idx, ty, v, st)
            return v
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            x = z3.simplify(self.truth(self.ev(a, st)))
            if z3.is_false(x):
                if op == "&&":
                    return x
                return self.truth(self.ev(b, st))
            if z3.is_true(x):
                if op == "||":
                    return x
                return self.truth(self.ev(b, st))
            if _pure(b):
                with self.local([x if op == "&&" else z3.Not(x)]):
                    y = self.truth(self.ev(b, st))
                return z3.simplify(z3.And(x, y) if op == "&&" else z3.Or(x, y))
            d = self.decide(x)
            if op == "&&":
                return self.truth(self.ev(b, st)) if d else z3.BoolVal(False)
            return z3.BoolVal(True) if d else self.truth(self.ev(b, st))
        x, y = self.ev(a, st), self.ev(b, st)
        return self.binop(op, x, y, tstr(a["type"]), tstr(n["type"]))

    def binop(self, op, x, y, ty, rty):
        ptrs = (Ptr, Raw, Str, Null, FPtr, FRef)
        if isinstance(x, ptrs) or isinstance(y, ptrs):
            return self.ptrop(op, x, y, ty)
        if op in ("&", "|") and all(isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort() for v in (x, y)):
            return z3.simplify(z3.And(x, y) if op == "&" else z3.Or(x, y))      # both are 0 or 1
        x, y = num(x), num(y)
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        isint = x.sort() == z3.IntSort()
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            if isint:
                if self.valid(z3.And(x >= 0, y > 0)):
                    r = x / y
                else:
                    q = z3.If(x >= 0, x, -x) / z3.If(y >= 0, y, -y)
                    r = z3.If((x >= 0) == (y >= 0), q, -q)
            else:
                r = x / y
        elif op == "%":
            if self.valid(z3.And(x >= 0, y > 0)):
                r = x % y
            else:
                raise Unsupported("modulo of possibly negative numbers")
        elif op == "<":
            r = x < y
        elif op == "<=":
            r = x <= y
        elif op == ">":
            r = x > y
        elif op == ">=":
            r = x >= y
        elif op == "==":
            r = x == y
        elif op == "!=":
            r = x != y
        else:
            raise Unsupported("operator " + op)
        return z3.simplify(r)

    def ptrop(self, op, x, y, ty):
        if op in ("==", "!="):
            r = self.ptr_eq(x, y)
            return z3.simplify(r if op == "==" else z3.Not(r))
        if isinstance(y, (Ptr, Raw)) and op == "+":
            x, y = y, x
        if isinstance(x, Ptr) and op in ("+", "-") and (is_num(y) or is_bool(y)):
            return x.add(num(y) if op == "+" else -num(y))
        if isinstance(x, Raw) and op in ("+", "-") and (is_num(y) or is_bool(y)):
            d = num(y) * self.sizeof(pointee(ty)) if tkind(ty) == "ptr" else num(y)
            return Raw(z3.simplify(x.addr + d if op == "+" else x.addr - d))
        if isinstance(x, Raw) and isinstance(y, Raw):
            if op == "-":
                return z3.simplify(x.addr - y.addr)
            return self.binop(op, x.addr, y.addr, "", "")
        if isinstance(x, Str) and isinstance(y, Str) and op == "-":
            return I(x.off - y.off)
        if isinstance(x, Str) and op == "+" and z3.is_int_value(z3.simplify(num(y))):
            return Str(x.s, x.off + z3.simplify(num(y)).as_long())
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == "-" and x.key == y.key:
            return z3.simplify(x.off - y.off)
        raise Unsupported(f"pointer operation {x!r} {op} {y!r}")

    def ptr_eq(self, x, y):
        if y is NULL or (is_num(y) and is0(y)):
            return z3.Not(self.truth(x))
        if x is NULL or (is_num(x) and is0(x)):
            return z3.Not(self.truth(y))
        if isinstance(x, FRef) and isinstance(y, FRef):
            return z3.BoolVal(x.name == y.name)
        if isinstance(x, (FPtr, FRef)) and isinstance(y, (FPtr, FRef)):
            f = x if isinstance(x, FPtr) else y
            g = y if f is x else x
            nm = "is:" + ".".join(f.key) + ":" + (g.name if isinstance(g, FRef) else ".".join(g.key))
            self.assumed.add("function pointers: equality with a named function is a free choice")
            if f.idx:
                return z3.Function(nm, *[z3.IntSort()] * len(f.idx), z3.BoolSort())(*f.idx)
            return z3.Bool(nm)
        if isinstance(x, Raw) and isinstance(y, Raw):
            return x.addr == y.addr
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.key == y.key and len(x.idx) == len(y.idx):
                return z3.And(*[a == b for a, b in zip(x.idx, y.idx)], x.off == y.off)
            return z3.BoolVal(False)
        if isinstance(x, Str) and isinstance(y, Str):
            return z3.BoolVal(x.s == y.s and x.off == y.off)
        raise Unsupported(f"comparison of {x!r} and {y!r}")

    def e_CompoundAssignOperator(self, n, st):
        a, b = n["inner"]
        v = self.ev(b, st)
        key, idx, ty = self.lval(a, st)
        old = self.read_lval(key, idx, ty, st)
        new = self.binop(n["opcode"][:-1], old, v, ty, ty)
        self.store_lval(key, idx, ty, new, st)
        return new

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        x = z3.simplify(self.truth(self.ev(c, st)))
        if z3.is_true(x) or self.valid(x):
            return self.ev(a, st)
        if z3.is_false(x) or self.valid(z3.Not(x)):
            return self.ev(b, st)
        if _pure(a) and _pure(b) and self.kind(n["type"]) in ("int", "float", "bool"):
            with self.local([x]):
                u = self.ev(a, st)
            with self.local([z3.Not(x)]):
                v = self.ev(b, st)
            u, v = num(u), num(v)
            if u.sort() != v.sort():
                u, v = real(u), real(v)
            return z3.simplify(z3.If(x, u, v))
        return self.ev(a if self.decide(x) else b, st)

    def e_StmtExpr(self, n, st):
        inner = n["inner"][0]
        last = None
        for s in inner.get("inner", []):
            if s["kind"].endswith("Stmt"):
                self.ex(s, st)
                last = None
            else:
                last = self.ev(s, st)
        return last

    def e_InitListExpr(self, n, st):
        raise Unsupported("initialiser list")

    def e_ImplicitValueInitExpr(self, n, st):
        return I(0)

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, n, st):
        callee = n["inner"][0]
        args = n["inner"][1:]
        f = self.ev(callee, st)
        if isinstance(f, Ptr):      # (*fptr)(...)
            raise Unsupported("call through a data pointer")
        if isinstance(f, FRef):
            return self.call_named(f, args, st, n)
        if isinstance(f, FPtr):
            vals = [self.ev(a, st) for a in args]
            name = f.key[-1]
            h = self.indirect.get(name) or self.indirect.get("*")
            if h is None:
                raise Unsupported(f"call through function pointer {'.'.join(f.key)}")
            return h(self, st, f, vals, n)
        raise Unsupported(f"call of {f!r}")

    def call_named(self, f, args, st, n):
        name = f.name
        if name in self.contracts:
            vals = [self.ev(a, st) for a in args]
            return self.contracts[name](self, st, vals, n)
        if name in IGNORED:
            return I(0)
        if name in ("exit", "abort"):
            self.events.append(("exit", self.ctx.all(), name))
            raise Exit()
        if name == "__assert_fail":
            msg = ""
            try:
                v = self.ev(args[0], st)
                msg = v.text() if isinstance(v, Str) else ""
            except Unsupported:
                pass
            self.events.append(("assert", self.ctx.all(), msg))
            raise Exit()
        if name in MATH:
            vals = [self.ev(a, st) for a in args]
            return MATH[name](self, vals)
        fn = self.prog.lookup(name, f.tu)
        if fn is not None and (self.inline is None or self.inline(name)):
            vals = [self.ev(a, st) for a in args]
            return self.call_fn(fn, vals, st)
        raise Unsupported(f"no contract and no body for {name}")

    def call_fn(self, fn, vals, st):
        if self.depth > 40:
            raise Unsupported("recursion")
        self.funcs_seen.add(fn["_tu"].path + ":" + fn["name"])
        st.frame += 1
        prefix = f"F{st.frame}:{fn['name']}:"
        frame = {"tu": fn["_tu"], "prefix": prefix, "fn": fn}
        self.frames.append(frame)
        self.depth += 1
        try:
            for (nm, ty, did), v in zip(fname_params(fn), vals):
                key = (prefix + nm,)
                frame[did] = key
                if self.kind(ty) == "record":
                    self.copy_record(key, (), v.key, v.idx, ty, st)
                else:
                    self.store_lval(key, (), ty, v, st)
            try:
                self.ex(fbody(fn), st)
                r = None
            except Ret as e:
                r = e.v
            if self.on_return is not None:
                self.on_return(fn, prefix, st, r)
            if not isinstance(r, Rec):
                for k in [k for k in st.store if k[0].startswith(prefix) and not any(e.barrier for e in st.store[k])]:
                    if not self._escapes:
                        del st.store[k]
            return r
        finally:
            self.frames.pop()
            self.depth -= 1

    on_return = None
    _escapes = False

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        k = n.get("kind")
        if k is None:
            return
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(n, st)
        self.ev(n, st)

    def s_CompoundStmt(self, n, st):
        for s in n.get("inner", []):
            self.ex(s, st)

    def s_NullStmt(self, n, st):
        pass

    def s_DeclStmt(self, n, st):
        for d in n["inner"]:
            if d["kind"] != "VarDecl":
                continue
            fr = self.frames[-1]
            key = (fr["prefix"] + d["name"] + "@" + str(d.get("range", {}).get("begin", {}).get("offset", d["id"])),)
            fr[d["id"]] = key
            if hasattr(self, "declared"):
                self.declared.add(key[0])
            ty = tstr(d["type"])
            kd = self.kind(ty)
            init = [c for c in d.get("inner", []) if not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
            if d.get("init") and init:
                e = init[-1]
                if e["kind"] == "InitListExpr":
                    self.init_list(key, (), ty, e, st)
                else:
                    v = self.ev(e, st)
                    if kd == "array" and isinstance(v, Str):
                        self.store_string(Ptr(key), v.text(), st)
                    else:
                        self.store_lval(key, (), ty, v, st)
            elif kd in ("int", "float", "bool", "ptr", "fptr"):
                self.write(st, key, (), UNINIT)
            elif kd == "record":
                for k2 in [q for q in st.store if q[0] == key[0]]:
                    del st.store[k2]
            else:
                for k2 in [q for q in st.store if q[0] == key[0]]:
                    del st.store[k2]

    def init_list(self, key, idx, ty, e, st):
        kd = self.kind(ty)
        items = e.get("inner", [])
        if "array_filler" in e:
            items = [x for x in e["array_filler"] if x["kind"] != "ImplicitValueInitExpr"]
        if kd == "array":
            et = pointee(ty)
            import re
            m = re.match(r".*\[(\d+)\]", ty)
            n = int(m.group(1)) if m else len(items)
            for j in range(n):
                if j < len(items) and items[j]["kind"] == "InitListExpr":
                    self.init_list(key + ("[]",), idx + (I(j),), et, items[j], st)
                else:
                    v = self.ev(items[j], st) if j < len(items) else I(0)
                    self.store_lval(key + ("[]",), idx + (I(j),), et, v, st)
        elif kd == "record":
            for j, (fn, ft) in enumerate(self.record(ty)):
                v = self.ev(items[j], st) if j < len(items) else I(0)
                self.store_lval(key + (fn,), idx, tstr(ft), v, st)
        else:
            self.store_lval(key, idx, ty, self.ev(items[0], st), st)

    def store_string(self, p, s, st):
        for j, ch in enumerate(s):
            key, idx = p.loc(I(j))
            self.write(st, key, idx, I(ord(ch)))
        key, idx = p.loc(I(len(s)))
        self.write(st, key, idx, I(0))

    def get_string(self, p, st):
        if isinstance(p, Str):
            return p.text()
        if isinstance(p, Ptr):
            s = ""
            for j in range(200):
                key, idx = p.loc(I(j))
                v = z3.simplify(num(self.load(st, key, idx, "int")))
                if not z3.is_int_value(v):
                    raise Unsupported("string contents are symbolic")
                if v.as_long() == 0:
                    return s
                s += chr(v.as_long())
        raise Unsupported(f"string expected, got {p!r}")

    def s_ReturnStmt(self, n, st):
        raise Ret(self.ev(n["inner"][0], st) if n.get("inner") else None)

    def s_BreakStmt(self, n, st):
        raise Brk()

    def s_ContinueStmt(self, n, st):
        raise Cont()

    def s_IfStmt(self, n, st):
        inner = n["inner"]
        c = z3.simplify(self.truth(self.ev(inner[0], st)))
        a = inner[1]
        b = inner[2] if len(inner) > 2 else {}
        if not z3.is_true(c) and not z3.is_false(c):
            if self.valid(c):
                c = z3.BoolVal(True)
            elif self.valid(z3.Not(c)):
                c = z3.BoolVal(False)
        if z3.is_true(c):
            return self.ex(a, st)
        if z3.is_false(c):
            return self.ex(b, st)
        if _jumps(a) or _jumps(b):
            return self.ex(a if self.decide(c) else b, st)
        snap = st.copy()
        ra = self.explore(snap, lambda s: self.ex(a, s), extra=[c])
        rb = self.explore(snap, lambda s: self.ex(b, s), extra=[z3.Not(c)])
        outs = [(c, r) for r in ra] + [(z3.Not(c), r) for r in rb]
        self.merge(snap, st, outs)

    def merge(self, base, st, outs):
        """join of alternative outcomes into st"""
        live = []
        for g, (conds, s, (kind, v)) in outs:
            if kind == "exit":
                self.assume(z3.Not(z3.And(g, *conds)))
                continue
            if kind != "normal":
                raise Unsupported(f"{kind} inside a merged branch")
            live.append((g, conds, s))
        if not live:
            raise Exit()
        if len(live) == 1:
            g, conds, s = live[0]
            self.assume(z3.And(g, *conds))
            st.store, st.frame, st.log = s.store, s.frame, s.log
            return
        st.frame = max(s.frame for _, _, s in live)
        keys = set()
        for _, _, s in live:
            for k in s.store:
                if s.store[k] is not base.store.get(k):
                    keys.add(k)
        for k in keys:
            old = base.store.get(k, ())
            new = old
            scal = None
            for g, conds, s in live:
                cur = s.store.get(k, ())
                if cur is old or cur == old:
                    continue
                gg = z3.simplify(z3.And(g, *conds))
                p = 0
                while p < len(old) and p < len(cur) and cur[p] is old[p]:
                    p += 1
                # (writing a scalar drops what it hides: the entries of old that are left are not new)
                fresh = [e for e in cur[p:] if not any(e is x for x in old)]
                if any(e.barrier is not None for e in fresh):
                    raise Unsupported("the state of an unfinished loop in a branch")
                new = new + tuple(e.guarded(gg) for e in fresh)
            st.store[k] = new
        logs = st.log
        for g, conds, s in live:
            gg = z3.simplify(z3.And(g, *conds))
            logs = logs + tuple((z3.And(gg, e[0]),) + e[1:] for e in s.log[len(base.log):])
        st.log = logs
        # what the alternatives learnt: exactly one of them holds
        for g, conds, s in live:
            pass
        self.assume(z3.Or(*[z3.And(g, *conds) for g, conds, _ in live]))

    def s_SwitchStmt(self, n, st):
        inner = n["inner"]
        v = z3.simplify(num(self.ev(inner[0], st)))
        bodyn = inner[-1]
        stmts = bodyn.get("inner", [])
        flat = []
        for s in stmts:
            labels = []
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    labels.append(z3.simplify(num(self.ev(s["inner"][0], st))))
                else:
                    labels.append("default")
                s = s["inner"][-1]
            flat.append((labels, s))
        start = None
        for j, (labels, s) in enumerate(flat):
            for l in labels:
                if not isinstance(l, str) and self.decide(v == l):
                    start = j
                    break
            if start is not None:
                break
        if start is None:
            for j, (labels, s) in enumerate(flat):
                if "default" in labels:
                    start = j
        if start is None:
            return
        try:
            for labels, s in flat[start:]:
                self.ex(s, st)
        except Brk:
            pass

    def s_DoStmt(self, n, st):
        b, c = n["inner"]
        for it in range(64):
            try:
                self.ex(b, st)
            except Brk:
                return
            except Cont:
                pass
            x = z3.simplify(self.truth(self.ev(c, st)))
            if z3.is_false(x) or self.valid(z3.Not(x)):
                return
            if not (z3.is_true(x) or self.valid(x)):
                raise Unsupported("do loop with a symbolic condition")
        raise Unsupported("do loop too long")

    def s_WhileStmt(self, n, st):
        c, b = n["inner"][0], n["inner"][-1]
        for it in range(200):
            x = z3.simplify(self.truth(self.ev(c, st)))
            if z3.is_false(x) or self.valid(z3.Not(x)):
                return
            if not (z3.is_true(x) or self.valid(x)):
                raise Unsupported("while loop with a symbolic condition")
            try:
                self.ex(b, st)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported("while loop too long")

    def s_ForStmt(self, n, st):
        init, _cv, cond, inc, bd = n["inner"]
        self.ex(init, st)
        # recognise  var < bound ; var++
        info = self._for_header(cond, inc)
        if info is not None:
            varn, op, bound, step = info
            vk, vi, vt = self.lval(varn, st)
            lo = z3.simplify(num(self.load(st, vk, vi, "int")))
            hi = z3.simplify(num(self.ev(bound, st)))
            if hi.sort() == z3.IntSort():
                d = z3.simplify(hi - lo)
                conc = z3.is_int_value(d) and abs(d.as_long()) <= UNROLL
                if not conc and not (z3.is_int_value(lo) and z3.is_int_value(hi)):
                    return self.summarise(n, vk, lo, op, bound, hi, step, bd, st)
        for it in range(400):
            if cond:
                x = z3.simplify(self.truth(self.ev(cond, st)))
                if z3.is_false(x) or self.valid(z3.Not(x)):
                    return
                if not (z3.is_true(x) or self.valid(x)):
                    raise Unsupported("for loop of unrecognised form")
            try:
                self.ex(bd, st)
            except Brk:
                return
            except Cont:
                pass
            self.ex(inc, st)
        raise Unsupported("for loop too long to unroll")

    def _for_header(self, cond, inc):
        if not cond or not inc or cond.get("kind") != "BinaryOperator" or cond["opcode"] not in ("<", "<=", ">", ">=", "!="):
            return None

        def strip(x):
            while x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                x = x["inner"][0]
            return x
        a, b = cond["inner"]
        va = strip(a)
        op = cond["opcode"]
        if va["kind"] != "DeclRefExpr":
            vb = strip(b)
            if vb["kind"] != "DeclRefExpr":
                return None
            va, b = vb, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        did = va["referencedDecl"]["id"]
        i = strip(inc)
        if i["kind"] == "UnaryOperator" and i["opcode"] in ("++", "--"):
            v = strip(i["inner"][0])
            step = 1 if i["opcode"] == "++" else -1
        elif i["kind"] == "CompoundAssignOperator" and i["opcode"] in ("+=", "-="):
            v = strip(i["inner"][0])
            c = strip(i["inner"][1])
            if c["kind"] != "IntegerLiteral" or int(c["value"]) != 1:
                return None
            step = 1 if i["opcode"] == "+=" else -1
        else:
            return None
        if v["kind"] != "DeclRefExpr" or v["referencedDecl"]["id"] != did:
            return None
        if (step == 1 and op in ("<", "<=", "!=")) or (step == -1 and op in (">", ">=")):
            return va, op, b, step
        return None

    # ------------------------------------------------------------ loop summaries
    def summarise(self, n, vk, lo0, op, bound, hi0, step, bd, st):
        self.loops += 1
        if step == 1:
            lo, hi = lo0, (hi0 if op in ("<", "!=") else z3.simplify(hi0 + 1))
        else:
            # descending: k ranges over [lo, hi) visited downwards
            lo, hi = (z3.simplify(hi0 + 1) if op == ">" else hi0), z3.simplify(lo0 + 1)
        if self.valid(hi <= lo):
            return
        k = self.fresh("k")
        rng = z3.And(lo <= k, k < hi)
        pre = st.copy()

        def run_body(s, barriers=None):
            s.store[vk] = (Entry([], z3.BoolVal(True), k),)
            try:
                self.ex(bd, s)
            except Cont:
                pass
            kv = z3.simplify(num(self.load(s, vk, (), "int")) - k)
            if not is0(kv):
                raise Unsupported("loop variable modified in the body")
            hb = z3.simplify(num(self.ev(bound, s)))
            if not z3.eq(hb, hi0) and not self.valid(hb == hi0):
                raise Unsupported("loop bound changes in the body")

        nev = len(self.events)
        old_decl = getattr(self, "declared", None)
        self.declared = set()
        nfree_loop = self.nfree
        try:
            # pass A: which locations are written
            res = self.explore(pre, run_body, extra=[rng])
            written = self._written(pre, res, vk)
            declared = set(self.declared)
            inner_prefixes = self._inner_frames(pre, res)

            def transient(key):
                return key[0] in declared or any(key[0].startswith(p) for p in inner_prefixes)
            written = {key for key in written if not transient(key)}
            # pass B: again, with reads of those locations going through a barrier
            carried = {}
            pats = self._patterns(pre, res, written, vk)
            for attempt in range(6):
                carried.clear()
                del self.events[nev:]
                pre2 = pre.copy()
                lenient = attempt > 0
                for key in written:
                    pre2.store[key] = pre.store.get(key, ()) + (Entry([], z3.BoolVal(True), None, barrier=self._barrier(key, pats, k, lo, hi, step, pre, carried)),)
                self.declared = set()
                res = self.explore(pre2, run_body, extra=[rng])
                w2 = {key for key in self._written(pre2, res, vk) if not (key[0] in self.declared or any(key[0].startswith(p) for p in inner_prefixes))}
                if w2 <= written:
                    break
                written |= w2
                pats = self._patterns(pre2, res, written, vk)
            else:
                raise Unsupported("loop body's write set does not stabilise")
            for conds, s, (kind, v) in res:
                if kind in ("break", "return"):
                    raise Unsupported(f"{kind} inside a loop with symbolic bounds")
        finally:
            self.declared = (old_decl | self.declared) if old_decl is not None else self.declared
            if old_decl is None:
                del self.declared
        exits = [z3.And(*c) if c else z3.BoolVal(True) for c, s, (kind, v) in res if kind == "exit"]
        live = [(c, s) for c, s, (kind, v) in res if kind in ("normal", "continue")]
        if not live:
            # every iteration exits: the loop must be empty
            if self.decide(hi > lo):
                raise Exit()
            return
        # the scalars written by the body
        subst = []
        closed = {}
        scalars = {}
        for key in written:
            for c, s in live:
                for e in s.store.get(key, ()):
                    pass
        outvals = {}
        locs = dict(carried)      # (key, idxstr) -> dict(idx, S, kind)
        # index-invariant writes that were not read before being written also need an out value
        for key in written:
            for c, s in live:
                for e in self._new_entries(s, key):
                    if all(x is not None and not mentions(x, k) and not _has_iv(x) for x in e.comps):
                        idx = tuple(z3.simplify(x) for x in e.comps)
                        lk = (key, tuple(str(x) for x in idx))
                        if lk not in locs:
                            kd = "ptr" if isinstance(e.val, (Ptr, Raw, Null, Str)) else "fptr" if isinstance(e.val, (FPtr, FRef)) else \
                                ("float" if isinstance(e.val, z3.ExprRef) and e.val.sort() == z3.RealSort() else "int")
                            locs[lk] = dict(idx=idx, kind=kd, S=None, key=key)
        post_scalar = {}
        order = list(locs.items())
        pend = {}
        for lk, L in order:
            outs = []
            for c, s in live:
                saved = self.ctx
                self.ctx = Ctx(saved, [], [rng] + list(c))
                try:
                    if L["S"] is None:
                        # give it an in-value through the barrier
                        v = self.load(s, L["key"], L["idx"], L["kind"])
                        if lk in carried:
                            L["S"] = carried[lk]["S"]
                            L["S0"] = carried[lk]["S0"]
                    else:
                        v = self.load(s, L["key"], L["idx"], L["kind"])
                except Unsupported:
                    v = None
                finally:
                    extra = self.ctx.conds[len([rng] + list(c)):]
                    self.ctx = saved
                outs.append((z3.And(*c) if c else z3.BoolVal(True), v))
            if lk in carried:
                L = carried[lk]
            pend[lk] = (L, outs)
        final = {}
        syms = {id(L): L for L, _ in pend.values()}
        Snames = {}
        for lk, (L, outs) in pend.items():
            if L.get("S") is not None:
                Snames[L["S"].decl().name()] = lk
        solved = {}
        progress = True
        todo = dict(pend)
        while todo and progress:
            progress = False
            for lk in list(todo):
                L, outs = todo[lk]
                outs2 = [(z3.substitute(g, *subst) if subst else g, substv(v, subst) if subst and v is not None else v) for g, v in outs]
                used = set()
                for g, v in outs2:
                    if v is None:
                        continue
                    for t in [g] + vterms(v):
                        used |= {nm for nm in consts_of(t) if nm in Snames and nm not in solved}
                own = L["S"].decl().name() if L.get("S") is not None else None
                if used - {own}:
                    continue
                at_k, fin = self._close(L, outs2, k, lo, hi, step)
                if L.get("S") is not None:
                    subst.append((L["S"], at_k))
                    solved[own] = True
                final[lk] = fin
                del todo[lk]
                progress = True
        for lk, (L, outs) in todo.items():     # mutually dependent: forget
            self.imprecise.append(f"loop-carried value {'.'.join(L['key'])}")
            f = self._havoc_fn("hv_" + L["key"][-1], L["kind"])
            if L.get("S") is not None:
                subst.append((L["S"], f(k)))
            final[lk] = self._rewrap(L, f(hi))
        # a chain of substitutions may leave later symbols inside earlier ones: they were solved in order
        def sub(v):
            for p in reversed(subst):
                v = substv(v, [p])
            for p in subst:
                v = substv(v, [p])
            return v
        # exits are assumed not to happen (an exit is not a normal return)
        for g in exits:
            self.assumed.add("loops: iterations that exit() do not return")
        # events raised in the body keep their guards, with carried values substituted
        for j in range(nev, len(self.events)):
            kd, pc, info = self.events[j]
            self.events[j] = (kd, [sub(x) for x in pc], info)
        # opaque calls made by the body, generalised
        newlog = ()
        for c, s in live:
            g = z3.And(rng, *c)
            for e in s.log[len(pre.log):]:
                newlog += ((sub(z3.And(g, e[0])), e[1], [sub(a) if isinstance(a, z3.ExprRef) or vterms(a) else a for a in e[2]], e[3] if len(e) > 3 else None, (k, lo, hi)) ,)
        st.log = st.log + newlog
        st.frame = max([s.frame for _, s in live] + [st.frame])
        # build the post state
        for key in sorted(written, key=str):
            ents = []
            bad = False
            seen_locs = set()
            for c, s in live:
                g = z3.And(*c) if c else z3.BoolVal(True)
                for e in self._new_entries(s, key):
                    if all(x is not None and not mentions(x, k) and not _has_iv(x) for x in e.comps):
                        continue
                    e2 = Entry(e.comps, z3.And(g, e.guard), e.val)
                    e2 = Entry([None if x is None else sub(x) for x in e2.comps], sub(e2.guard), sub(e2.val))
                    s2 = self._generalise(e2, k, lo, hi, step)
                    if s2 is None:
                        bad = True
                        break
                    ents.append(s2)
                if bad:
                    break
            if not bad and len({str(z3.simplify(x[1])) for x in ents}) > 1 and len(ents) > 1:
                # different index maps: later iterations may overwrite earlier writes
                if not self._maps_disjoint(ents, k, lo, hi):
                    bad = True
            if bad:
                self.imprecise.append(f"array {'.'.join(key)} written in an unrecognised pattern")
                ar = None
                for c, s in live:
                    for e in self._new_entries(s, key):
                        ar = len(e.comps)
                        sample = e.val
                if isinstance(sample, z3.ExprRef):
                    self.nfree += 1
                    f = z3.Function(f"hv!{self.nfree}", *[z3.IntSort()] * ar, sample.sort())
                    st.store[key] = pre.store.get(key, ()) + (Entry([None] * ar, z3.BoolVal(True), f(*IV[:ar])),)
                else:
                    raise Unsupported(f"pointers {'.'.join(key)} written in an unrecognised pattern")
                continue
            st.store[key] = pre.store.get(key, ()) + tuple(x[0] for x in ents)
            for lk, fin in final.items():
                if lk[0] == key:
                    L = pend[lk][0]
                    st.store[key] = st.store[key] + (Entry(list(L["idx"]), z3.BoolVal(True), fin),)
        # the loop variable after the loop
        endv = z3.If(hi > lo, hi, lo) if step == 1 else z3.If(hi > lo, z3.simplify(lo - 1), z3.simplify(hi - 1))
        st.store[vk] = (Entry([], z3.BoolVal(True), z3.simplify(endv)),)

    def _has_barrier(self, ents):
        return [j for j, e in enumerate(ents) if e.barrier is not None]

    def _new_entries(self, s, key):
        ents = s.store.get(key, ())
        b = self._has_barrier(ents)
        if not b:
            return ()
        return ents[b[-1] + 1:]

    def _written(self, pre, res, vk):
        w = set()
        for c, s, (kind, v) in res:
            if kind == "exit":
                continue
            for key, ents in s.store.items():
                if key == vk:
                    continue
                old = pre.store.get(key, ())
                if ents is not old and tuple(ents) != tuple(old):
                    w.add(key)
        return w

    def _inner_frames(self, pre, res):
        p = set()
        for c, s, o in res:
            for j in range(pre.frame + 1, s.frame + 1):
                p.add(f"F{j}:")
        return p

    def _patterns(self, pre, res, written, vk):
        pats = {}
        for c, s, (kind, v) in res:
            if kind == "exit":
                continue
            g = z3.And(*c) if c else z3.BoolVal(True)
            for key in written:
                ents = s.store.get(key, ())
                old = pre.store.get(key, ())
                p = 0
                while p < len(old) and p < len(ents) and ents[p] is old[p]:
                    p += 1
                b = self._has_barrier(ents)
                new = ents[b[-1] + 1:] if b and b[-1] >= p else ents[p:]
                for e in new:
                    pats.setdefault(key, []).append((g, e))
        return pats

    def _barrier(self, key, pats, k, lo, hi, step, pre, carried):
        def f(key_, idx, kind, acc):
            lk = (key, tuple(str(z3.simplify(x)) for x in idx))
            if lk in carried:
                return carried[lk]["val"]
            kp = self.fresh("k")
            earlier = z3.And(lo <= kp, kp < k) if step == 1 else z3.And(kp > k, kp < hi)
            conflict = False
            inv = not any(mentions(x, k) or _has_iv(x) for x in idx)
            for g, e in pats.get(key, ()):
                m = z3.simplify(z3.substitute(z3.And(e.match(idx)), (k, kp)) if False else self._match_at(e, idx, k, kp))
                if z3.is_false(m):
                    continue
                gk = z3.substitute(g, (k, kp))
                if self._sat(earlier, m, gk) != z3.unsat:
                    if DBG: print("CARRIED", key, "read", idx, "k", k, "pattern", e.comps, "match", m, "guard", gk, "ctx", self.ctx.all() if self.ctx else None)
                    conflict = True
                    break
            if not conflict:
                return None
            if not inv:
                for c_ in ():
                    pass
                # element carried between iterations: forget it (sound)
                self.imprecise.append(f"element of {'.'.join(key)} carried between iterations")
                if kind not in ("float", "int", "bool"):
                    raise Unsupported(f"pointer element of {'.'.join(key)} carried between iterations")
                return self.fresh("hv", "real" if kind == "float" else "int")
            L = dict(key=key, idx=tuple(z3.simplify(x) for x in idx), kind=kind)
            s0 = self.load(pre, key, idx, kind)
            L["S0"] = s0
            if kind in ("ptr", "fptr"):
                if isinstance(s0, Ptr):
                    L["S"] = self.fresh("S")
                    L["val"] = Ptr(s0.key, s0.idx, L["S"], s0.direct)
                elif isinstance(s0, Raw):
                    L["S"] = self.fresh("S")
                    L["val"] = Raw(L["S"])
                else:
                    L["S"] = self.fresh("S")
                    L["val"] = UNINIT
            else:
                if s0 is UNINIT:
                    s0 = L["S0"] = self.fresh("uninit", "real" if kind == "float" else "int")
                s0 = L["S0"] = real(s0) if kind == "float" else num(s0)
                L["S"] = self.fresh("S", "real" if s0.sort() == z3.RealSort() else "int")
                L["val"] = L["S"]
            carried[lk] = L
            return L["val"]
        return f

    def _match_at(self, e, idx, k, kp):
        """does the pattern, at iteration kp, match idx (idx may mention k)?"""
        e2 = e.subst([(k, kp)])
        return e2.match(idx)

    def _havoc_fn(self, stem, kind):
        self.nfree += 1
        return z3.Function(f"{stem}!{self.nfree}", z3.IntSort(), z3.RealSort() if kind == "float" else z3.IntSort())

    def _rewrap(self, L, t):
        s0 = L.get("S0")
        if isinstance(s0, Ptr):
            return Ptr(s0.key, s0.idx, t, s0.direct)
        if isinstance(s0, Raw):
            return Raw(t)
        return t

    def _close(self, L, outs, k, lo, hi, step):
        """closed forms of a carried location: (value of the symbol at iteration k, final value)"""
        S = L.get("S")
        kind = L["kind"]
        prev = (lambda: z3.simplify(k - 1)) if step == 1 else (lambda: z3.simplify(k + 1))
        last = z3.simplify(hi - 1) if step == 1 else lo
        nonempty = z3.simplify(hi > lo)
        ok = all(v is not None for _, v in outs)
        s0v = L.get("S0")
        # project pointers on their moving component
        if ok and kind == "ptr":
            if isinstance(s0v, Ptr) and all(isinstance(v, Ptr) and v.key == s0v.key and all(z3.eq(z3.simplify(a), z3.simplify(b)) for a, b in zip(v.idx, s0v.idx)) for _, v in outs):
                outs = [(g, v.off) for g, v in outs]
                s0 = s0v.off
                wrap = lambda t: Ptr(s0v.key, s0v.idx, t, s0v.direct)
            elif isinstance(s0v, Raw) and all(isinstance(v, Raw) for _, v in outs):
                outs = [(g, v.addr) for g, v in outs]
                s0 = s0v.addr
                wrap = Raw
            else:
                # last write wins when unconditional and not read first
                if len(outs) == 1 and (S is None or not mentions(outs[0][1], S)) and self.valid(nonempty):
                    v = substv(outs[0][1], [(k, last)])
                    return (S if S is not None else None), v
                self.imprecise.append("pointer carried through a loop")
                if S is not None and all(isinstance(v, Ptr) for _, v in outs):
                    return self._havoc_fn("hvp", "int")(k), UNINIT
                return self._havoc_fn("hvp", "int")(k), UNINIT
        elif ok and kind == "fptr":
            return self._havoc_fn("hvp", "int")(k), UNINIT
        else:
            s0 = s0v
            wrap = lambda t: t
        if not ok:
            f = self._havoc_fn("hv", kind)
            self.imprecise.append(f"{'.'.join(L['key'])} in a loop")
            return f(k), wrap(f(hi)) if kind != "ptr" else UNINIT
        # join over the paths
        t = None
        for g, v in reversed(outs):
            v = num(v)
            if t is None:
                t = v
            else:
                if t.sort() != v.sort():
                    t, v = real(t), real(v)
                t = z3.If(g, v, t)
        t = z3.simplify(t)
        if S is None:
            # never read first: the last iteration's value, or the old one
            fin = z3.substitute(t, (k, last))
            if self.valid(nonempty):
                return None, wrap(fin)
            return None, wrap(fin) if s0 is None else wrap(z3.If(nonempty, fin, s0))
        if t.sort() != S.sort():
            t = real(t)
        # sum
        d = z3.simplify(t - S, som=True)
        d = _drop_ite(d, S)
        if not mentions(d, S):
            sm = lambda a, b: self.sum_term(d, k, a, b)
            at_k = (s0 if s0.sort() == t.sort() else real(s0)) + (sm(lo, k) if step == 1 else sm(z3.simplify(k + 1), hi))
            fin = (s0 if s0.sort() == t.sort() else real(s0)) + sm(lo, hi)
            return z3.simplify(at_k), wrap(z3.simplify(fin))
        # last write
        if not mentions(t, S):
            at_k = z3.If(k == (lo if step == 1 else z3.simplify(hi - 1)), s0, z3.substitute(t, (k, prev())))
            fin = z3.substitute(t, (k, last))
            if not self.valid(nonempty):
                fin = z3.If(nonempty, fin, s0)
            return at_k, wrap(fin)
        # maximum / minimum
        for sign in (1, -1):
            c = self._max_body(t, S, sign)
            if c is not None:
                at_k = self.max_term(sign * c, k, lo, k, sign * s0) if step == 1 else self.max_term(sign * c, k, z3.simplify(k + 1), hi, sign * s0)
                fin = self.max_term(sign * c, k, lo, hi, sign * s0)
                return sign * at_k, wrap(z3.simplify(sign * fin))
        # set to a constant when some iteration asks for it
        c = self._flag_body(t, S, k)
        if c is not None:
            cond, const = c
            ind = z3.If(cond, I(1), I(0))
            at = self.max_term(ind, k, lo, k, I(0)) if step == 1 else self.max_term(ind, k, z3.simplify(k + 1), hi, I(0))
            fin = self.max_term(ind, k, lo, hi, I(0))
            return z3.If(at == 1, const, s0), wrap(z3.If(fin == 1, const, s0))
        self.imprecise.append(f"{'.'.join(L['key'])} carried through a loop")
        f = self._havoc_fn("hv", "float" if S.sort() == z3.RealSort() else "int")
        return f(k), wrap(f(hi))

    def _max_body(self, t, S, sign):
        """t == max(S, c) (sign 1) or min(S, c) (sign -1); returns c, with NINF (sign 1) / -NINF
        where the iteration contributes nothing"""
        if t.sort() != z3.RealSort() and t.sort() != z3.IntSort():
            return None
        ninf = NINF if t.sort() == z3.RealSort() else NINFI
        if sign == -1:
            t = z3.simplify(-z3.substitute(t, (S, -S)))
        for form in (_maxform, _maxform2):
            c = form(t, S, ninf)
            if c is None:
                continue
            c = z3.simplify(c)
            with self.local([ninf <= S]):
                ok = self.valid(t == z3.If(c > S, c, S))
            if ok:
                return c if sign == 1 else -c
        return None

    def _flag_body(self, t, S, k):
        if t.decl().kind() == z3.Z3_OP_ITE and not mentions(t.arg(0), S):
            a, b = t.arg(1), t.arg(2)
            if z3.eq(b, S) and not mentions(a, S) and not mentions(a, k):
                return t.arg(0), a
            if z3.eq(a, S) and not mentions(b, S) and not mentions(b, k):
                return z3.Not(t.arg(0)), b
        return None

    def _pvalid(self, c):
        return self.valid(c)

    def _generalise(self, e, k, lo, hi, step=1):
        """the union over k in [lo,hi) of the entry: solved for k.  -> (Entry, index map) or None"""
        inr = lambda s: z3.And(lo <= s, s < hi)
        for j, c in enumerate(e.comps):
            if c is None or not mentions(c, k):
                continue
            s = _solve_linear(c, k, IV[j])
            if s is None:
                continue
            if _has_iv(c):
                continue
            comps = []
            for q, x in enumerate(e.comps):
                comps.append(None if q == j or x is None else z3.simplify(z3.substitute(x, (k, s))))
            g = z3.simplify(z3.And(inr(s), z3.substitute(e.guard, (k, s))))
            v = substv(e.val, [(k, s)])
            if isinstance(v, z3.ExprRef):
                v = z3.simplify(v)
            return Entry(comps, g, v), s
        # positions given by an index array: the last iteration that writes the position
        dep = [q for q, c in enumerate(e.comps) if c is not None and mentions(c, k)]
        if dep and step == 1 and not any(_has_iv(e.comps[q]) for q in dep):
            pred = z3.simplify(z3.And(*[IV[q] == e.comps[q] for q in dep], e.guard))
            s = self.last_term(pred, k, lo, hi)
            comps = [None if q in dep else c for q, c in enumerate(e.comps)]
            v = substv(e.val, [(k, s)])
            if isinstance(v, z3.ExprRef):
                v = z3.simplify(v)
            self.keep.append(s)
            return Entry(comps, z3.simplify(z3.And(lo <= s, s < hi, z3.substitute(pred, (k, s)))), v), s
        # free component with guard lo(k) <= iv < hi(k): look for iv == f(k) hidden in the guard is not attempted
        # does the written cell set not depend on k at all (range writes in every iteration)?
        if all(c is None or not mentions(c, k) for c in e.comps):
            if not mentions(e.guard, k):
                # overwritten in every iteration: the last one stays
                lastk = z3.simplify(hi - 1)
                return Entry(e.comps, z3.And(hi > lo, e.guard), substv(e.val, [(k, lastk)])), z3.IntVal(-1)
        return None

    def _maps_disjoint(self, ents, k, lo, hi):
        """can two writes of different iterations with different index maps meet?  (then order matters)"""
        for a in range(len(ents)):
            for b in range(a + 1, len(ents)):
                (ea, sa), (eb, sb) = ents[a], ents[b]
                if str(z3.simplify(sa)) == str(z3.simplify(sb)):
                    continue
                idx = [self.fresh("d") for _ in ea.comps]
                pr = list(zip(IV, idx))
                ca = ea.match(idx)
                cb = eb.match(idx)
                diff = z3.substitute(sa, *pr) != z3.substitute(sb, *pr)
                if is_num(ea.val) and is_num(eb.val) and ea.val.sort() == eb.val.sort():
                    # the order does not matter where both write the same value
                    diff = z3.And(diff, z3.substitute(ea.val, *pr) != z3.substitute(eb.val, *pr))
                if self._sat(ca, cb, diff) != z3.unsat:
                    return False
        return True

    # ------------------------------------------------------------ running a function
    def run(self, fname, args, pre=(), tu=None, setup=None):
        """-> [(conds, state, outcome)] of calling the function; conds include the preconditions"""
        fn = self.prog.lookup(fname, tu)
        if fn is None:
            raise Unsupported(f"{fname} is not defined")
        st = State()
        self.ctx = Ctx(None, [], pre)
        self.events = []
        try:
            root = self.ctx
            if setup is not None:
                setup(self, st)

            def go(s):
                return self.call_fn(fn, args, s)
            r = self.explore(st, go)
            return [(root.conds + c, s, o) for c, s, o in r]
        finally:
            self.ctx = None

    def in_path(self, conds):
        """context manager: evaluate loads under a path's conditions"""
        it = self

        class P:
            def __enter__(self):
                it.ctx = Ctx(None, [], conds)
                return it

            def __exit__(self, *a):
                it.ctx = None
        return P()


def _iszero(t):
    t = z3.simplify(t)
    return (z3.is_int_value(t) and t.as_long() == 0) or (z3.is_rational_value(t) and t.as_fraction() == 0)


def _has_iv(t):
    return t is not None and any(n.startswith("iv!") for n in consts_of(t))


def _solve_linear(c, k, target):
    """c(k) == target, c linear in k with coefficient +-1 -> k as a term"""
    c0 = z3.simplify(z3.substitute(c, (k, I(0))))
    d = z3.simplify(c - c0, som=True)
    if z3.eq(d, k):
        return z3.simplify(target - c0)
    if z3.eq(z3.simplify(d + k), I(0)):
        return z3.simplify(c0 - target)
    d2 = z3.simplify(z3.substitute(c, (k, k + 1)) - c, som=True)
    if z3.is_int_value(d2) and d2.as_long() == 1:
        return z3.simplify(target - c0)
    if z3.is_int_value(d2) and d2.as_long() == -1:
        return z3.simplify(c0 - target)
    return None


def _shift(t, k):
    """the constant by which the index is shifted inside the first array access of the body, or None"""
    occ = []
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            for pos, c in enumerate(x.children()):
                if c.sort() == z3.IntSort() and mentions(c, k):
                    off = z3.simplify(c - k, som=True)
                    if not mentions(off, k):
                        occ.append((x.decl().name(), pos, off.sexpr(), off))
        todo.extend(x.children())
    if not occ:
        return None
    occ.sort(key=lambda o: o[:3])
    off = occ[0][3]
    return None if is0(off) else off


def _orient(t, cache=None):
    """one orientation for every equality, independent of the names of internal constants"""
    cache = {} if cache is None else cache
    if t.get_id() in cache:
        return cache[t.get_id()][0]
    r = t
    if t.num_args():
        ch = [_orient(c, cache) for c in t.children()]
        if any(not z3.eq(a, b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[t.decl().kind()](*ch)
        if r.decl().kind() == z3.Z3_OP_EQ and r.arg(0).sort() in (z3.IntSort(), z3.RealSort()):
            neutral = lambda e: re.sub(r"[^\s()]*[!#@][^\s()]*", "@", e.sexpr())
            a, b = r.arg(0), r.arg(1)
            if neutral(b) < neutral(a):
                r = b == a
    cache[t.get_id()] = (r, t)
    return r


def _threshold(t, k):
    """a condition of an if-then-else in t of the form k < c, k <= c, k > c, k >= c, k == c is not one:
    -> (the condition, c, true below c)"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            atoms = [x.arg(0)]
            while atoms:
                cond = atoms.pop()
                op = cond.decl().kind()
                if op in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                    atoms.extend(cond.children())
                    continue
                if op not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or cond.arg(0).sort() != z3.IntSort() or not mentions(cond, k):
                    continue
                d = z3.simplify(cond.arg(0) - cond.arg(1), som=True)    # d op 0
                for sg in (1, -1):
                    r = z3.simplify(d - sg * k, som=True)
                    if not mentions(r, k):
                        # sg*k + r op 0
                        if op in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                            sg, r = -sg, -r
                            op = z3.Z3_OP_LE if op == z3.Z3_OP_GE else z3.Z3_OP_LT
                        # sg*k + r <= 0 (or < 0)
                        e = 1 if op == z3.Z3_OP_LE else 0
                        if sg == 1:
                            return cond, -r + e, True         # k <= -r   <=>  k < -r+1
                        return cond, r + (1 - e), False       # k >= r (or k > r)
        todo.extend(x.children())
    return None


def _drop_ite(d, S):
    """If(c, S+a, S+b) - S  ->  If(c, a, b)"""
    if not mentions(d, S):
        return d
    name = S.decl().name()

    def push(t):
        if t.decl().kind() == z3.Z3_OP_ITE and not mentions(t.arg(0), S):
            a, b = push(t.arg(1)), push(t.arg(2))
            if a is None or b is None:
                return None
            return z3.If(t.arg(0), a, b)
        if z3.eq(t, S):
            return R(0) if S.sort() == z3.RealSort() else I(0)
        if t.decl().kind() == z3.Z3_OP_ADD:
            has = [c for c in t.children() if mentions(c, S)]
            if len(has) == 1:
                a = push(has[0])
                return None if a is None else z3.Sum([a] + [c for c in t.children() if not mentions(c, S)])
        r = z3.simplify(t - S, som=True)
        return None if mentions(r, S) else r
    # d = t - S where t is an ite (possibly nested in a sum)
    t = z3.simplify(d + S, som=False)
    r = push(t)
    if r is not None:
        return z3.simplify(r)
    return d


NINF = z3.Real("-infinity")
NINFI = z3.Int("-infinityI")


def _maxform(t, S, ninf):
    if z3.eq(t, S):
        return ninf
    if not mentions(t, S):
        return t
    if t.decl().kind() == z3.Z3_OP_ITE:
        a, b = _maxform(t.arg(1), S, ninf), _maxform(t.arg(2), S, ninf)
        if a is None or b is None:
            return None
        if mentions(t.arg(0), S):
            if z3.eq(a, ninf):
                return b
            if z3.eq(b, ninf):
                return a
            return z3.If(a > b, a, b)
        return z3.If(t.arg(0), a, b)
    return None


def _maxform2(t, S, ninf):
    """t = max(S, c): c is t at S = -infinity"""
    c = z3.simplify(z3.substitute(t, (S, ninf)))
    for _ in range(8):
        rep = []
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            op = x.decl().kind()
            if op in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                a, b = x.children()
                if z3.eq(a, ninf) != z3.eq(b, ninf):
                    o = b if z3.eq(a, ninf) else a
                    if not mentions(o, ninf):
                        small_left = z3.eq(a, ninf)
                        rep.append((x, z3.BoolVal(small_left if op in (z3.Z3_OP_LE, z3.Z3_OP_LT) else not small_left)))
                        continue
            todo.extend(x.children())
        if not rep:
            break
        c = z3.simplify(z3.substitute(c, *rep))
    return c


def _collect_apps(t, sums, maxs, acc, seen):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0:
            n = x.decl().name()
            if n in sums or n in maxs:
                acc[x.get_id()] = x
        todo.extend(x.children())


def _jumps(n, loop=0):
    if not n:
        return False
    k = n.get("kind", "")
    if k in ("ReturnStmt", "GotoStmt", "LabelStmt"):
        return True
    if k in ("BreakStmt", "ContinueStmt"):
        return loop == 0
    inner_loop = loop + (1 if k in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt") else 0)
    return any(_jumps(c, inner_loop) for c in n.get("inner", []))


def _pure(n):
    if not isinstance(n, dict):
        return True
    k = n.get("kind")
    if k == "CompoundAssignOperator" or k == "StmtExpr":
        return False
    if k == "BinaryOperator" and n.get("opcode") == "=":
        return False
    if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
        return False
    if k == "CallExpr":
        c = n["inner"][0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if not (c["kind"] == "DeclRefExpr" and c["referencedDecl"]["name"] in MATH):
            return False
    return all(_pure(c) for c in n.get("inner", []))


IGNORED = {"printf", "fprintf", "fflush", "puts", "putchar", "acados_tic", "blasfeo_print_dvec", "blasfeo_print_dmat", "blasfeo_print_exp_dmat",
           "print_debug_output", "print_debug_output_double", "blasfeo_print_tran_dvec", "blasfeo_print_exp_tran_dvec", "blasfeo_print_exp_dvec", "d_print_mat", "d_print_exp_mat"}


def _uf(name):
    def f(it, a):
        a = [real(x) for x in a]
        return z3.Function("fn_" + name, *[z3.RealSort()] * len(a), z3.RealSort())(*a)
    return f


def _fabs(it, a):
    x = real(a[0])
    return z3.simplify(z3.If(x >= 0, x, -x))


def _fmax(it, a):
    x, y = real(a[0]), real(a[1])
    return z3.simplify(z3.If(x >= y, x, y))


def _fmin(it, a):
    x, y = real(a[0]), real(a[1])
    return z3.simplify(z3.If(x <= y, x, y))


def _sqrt(it, a):
    x = real(a[0])
    r = z3.Function("fn_sqrt", z3.RealSort(), z3.RealSort())(x)
    it.axiom(("sqrt", x.get_id()), z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def _pow(it, a):
    x, y = real(a[0]), z3.simplify(real(a[1]))
    if z3.is_rational_value(y) and y.as_fraction().denominator == 1 and 0 <= y.as_fraction().numerator <= 6:
        r = R(1)
        for _ in range(y.as_fraction().numerator):
            r = r * x
        return z3.simplify(r)
    if z3.is_rational_value(y) and y.as_fraction() == z3.Q(1, 2).as_fraction():
        return _sqrt(it, [x])
    return z3.Function("fn_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)


MATH = {"fabs": _fabs, "fmax": _fmax, "fmin": _fmin, "sqrt": _sqrt, "pow": _pow, "abs": lambda it, a: z3.simplify(z3.If(num(a[0]) >= 0, num(a[0]), -num(a[0]))),
        "isnan": lambda it, a: z3.BoolVal(False), "isinf": lambda it, a: z3.BoolVal(False), "__builtin_isnan": lambda it, a: z3.BoolVal(False),
        "__builtin_isinf_sign": lambda it, a: I(0), "__isnan": lambda it, a: z3.BoolVal(False), "__isinf": lambda it, a: I(0)}
for _n in ("exp", "log", "sin", "cos", "tan", "floor", "ceil", "atan2"):
    MATH[_n] = _uf(_n)
