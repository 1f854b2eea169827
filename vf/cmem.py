"""Memory-size obligations: what X_assign / X_cast_workspace carves out of raw memory fits in X_calculate_size,
for all dimensions, options and loop bounds.

Both functions (clang AST of /repo's current source) are interpreted over symbolic integers kept in a normal form:
polynomials with integer coefficients over atoms (loads from the arguments, sizeof, contract calls such as
blasfeo_memsize_dvec(n), prefix sums of loop bodies, 0/1 indicators of conditions).  Loops are summed in closed form,
branches merged with indicators.  Pointers into the raw block carry an upper bound of their offset and their known
alignment; alignment padding is counted with its maximum."""
import re
from math import gcd
from .cast import Program, parse, body, fname_params, tstr, tkind, pointee
from .core import Unsupported

MAXAL = 64


# ---------------------------------------------------------------- normal form
class P:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    @staticmethod
    def c(v): return P({(): v} if v else {})

    @staticmethod
    def atom(a): return P({(a,): 1})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(((tuple(m), c) for m, c in self.t.items()), key=repr))
        return self._h

    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, P) and self.t == o.t
    def __repr__(self): return "P" + repr(self.key())
    def const(self): return self.t.get((), 0) if all(m == () for m in self.t) else None

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return P(t)

    def scale(self, k): return P({m: c * k for m, c in self.t.items()} if k else {})
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        t = {}
        for a, c in self.t.items():
            for b, d in o.t.items():
                m = _mono(a + b)
                s = t.get(m, 0) + c * d
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        return P(t)

    def atoms(self):
        for m in self.t:
            for a in m:
                yield a


def _mono(atoms):
    out = []
    for a in sorted(atoms, key=repr):
        if a[0] == "if" and out and out[-1] == a:
            continue
        out.append(a)
    return tuple(out)


ZERO, ONE = P(), P.c(1)


def deep(v, f):
    """all atoms inside a value"""
    if isinstance(v, P):
        for a in v.atoms():
            f(a)
            deep(a, f)
    elif isinstance(v, tuple):
        for x in v:
            deep(x, f)


def contains(v, atom):
    hit = []
    deep(v, lambda a: hit.append(1) if a == atom else None)
    return bool(hit)


def contains_kind(v, kind):
    hit = []
    deep(v, lambda a: hit.append(1) if a[0] == kind else None)
    return bool(hit)


def subst(v, atom, by):
    if isinstance(v, P):
        if not contains(v, atom):
            return v
        r = ZERO
        for m, c in v.t.items():
            q = P.c(c)
            for a in m:
                q = q * (by if a == atom else P.atom(a) if not contains(a, atom) else remake(a, atom, by))
            r = r + q
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, atom, by) for x in v)
    return v


def remake(a, atom, by):
    b = subst(a, atom, by)
    if b[0] == "sum":
        return prefix(b[1], b[2], b[3])
    if b[0] == "if":
        return cond_atom(b[1])
    return P.atom(b)


def level(v):
    m = [0]
    deep(v, lambda a: m.__setitem__(0, max(m[0], a[1])) if a[0] == "bv" else None)
    return m[0]


def decide_in_range(f, bv, b):
    """f with the comparisons decided that have one value for all 0 <= bv < b"""
    for a in list(f.atoms()):
        if a[0] == "if" and a[1][0] == "lt" and isinstance(a[1][1], P) and contains(a[1][1], bv):
            x = a[1][1]
            d = subst(x, bv, P.atom(bv) + ONE) - x
            if d.const() not in (1, -1):
                continue
            lo, hi = subst(x, bv, ZERO).const(), subst(x, bv, b - ONE).const()
            small, big = (lo, hi) if d.const() == 1 else (hi, lo)
            v = 0 if small is not None and small >= 0 else 1 if big is not None and big < 0 else None
            if v is not None:
                return decide_in_range(subst(f, a, P.c(v)), bv, b)
    return f


def prefix(f, lv, hi):
    """sum of f(k) for 0 <= k < hi, f a single monomial without factors independent of the bound variable"""
    c = hi.t.get((), 0)
    b = hi - P.c(c)
    bv = ("bv", lv)
    r = ZERO
    if b.t:
        g = decide_in_range(f, bv, b)
        if g is not f:
            var = ("lv", 0)
            return total(subst(g, bv, P.atom(var)), var, ZERO, hi)
    if not b.t:
        if abs(c) > 200:
            raise Unsupported("long constant loop")
        for j in range(c):
            r = r + subst(f, bv, P.c(j))
        return r
    r = P.atom(("sum", f, lv, b))
    for j in range(c):
        r = r + subst(f, bv, b + P.c(j))
    for j in range(-1, c - 1, -1):
        r = r - subst(f, bv, b + P.c(j))
    return r


def total(f, var, lo, hi):
    """sum of f for lo <= var < hi"""
    r = ZERO
    for m, c in f.t.items():
        ind = tuple(a for a in m if not contains(a, var) and a != var)
        dep = tuple(a for a in m if a == var or contains(a, var))
        if not dep:
            r = r + P({m: c}) * (hi - lo)
            continue
        g = P({dep: 1})
        lv = level(g) + 1
        g = subst(g, var, P.atom(("bv", lv)))
        r = r + P({_mono(ind): c}) * (prefix(g, lv, hi) - prefix(g, lv, lo))
    return r


def cond_atom(key):
    """0/1 polynomial of a condition ('nz'|'lt'|'eq', P or term); negations are folded"""
    op, x = key
    if isinstance(x, P):
        c = x.const()
        if c is not None:
            return P.c(int({"nz": c != 0, "lt": c < 0, "eq": c == 0}[op]))
        if op == "lt":                      # a < 0;   -a-1 < 0 is its negation
            y = -x - ONE
            if repr(y.key()) < repr(x.key()):
                return ONE - P.atom(("if", ("lt", y)))
        if op in ("nz", "eq"):
            if repr((-x).key()) < repr(x.key()):
                x = -x
            return ONE - P.atom(("if", ("eq", x))) if op == "nz" else P.atom(("if", ("eq", x)))
    elif op == "nz":
        return P.atom(("if", ("nz", x)))
    return P.atom(("if", (op, x)))


def al_atom(a, mult):
    if a[0] == "sz":
        return al_record(a[1])
    if a[0] == "round":
        return a[1]
    if a[0] == "call":
        n = a[1]
        if n.startswith(("blasfeo_memsize", "d_")) or n.endswith("_memsize"):
            return 64
        if n.endswith(("calculate_size", "calculate_size_self")):
            return mult(n)
        return 1
    if a[0] == "sum":
        return al_poly(a[1], mult)
    return 1


RECORDS = {}


def al_type(t):
    k = tkind(t)
    if k in ("ptr", "fptr"):
        return 8
    if k == "array":
        return al_type(t[:t.index("[")].strip())
    if t in BASIC:
        return BASIC[t]
    if t.startswith("enum "):
        return 4
    e = layout(t)
    return 8 if e is None else e[1]


def layout(t):
    """(size, alignment) of a type, None when its members are not known"""
    k = tkind(t)
    if k in ("ptr", "fptr"):
        return 8, 8
    if k == "array":
        e = layout(t[:t.index("[")].strip())
        n = 1
        for x in re.findall(r"\[(\d+)\]", t):
            n *= int(x)
        return e and (e[0] * n, e[1])
    if t in BASIC:
        return BASIC[t], BASIC[t]
    if t.startswith("enum "):
        return 4, 4
    for c in (t, "struct " + t, "struct " + t + "_", t + "_"):
        if c in RECORDS:
            off, al = 0, 1
            for _, ft in RECORDS[c]:
                e = layout(tstr(ft))
                if e is None:
                    return None
                off = -(-off // e[1]) * e[1] + e[0]
                al = max(al, e[1])
            return -(-off // al) * al, al
    return None


def al_record(name):
    """a power of two (at most 8) that divides the size of a structure"""
    e = layout(name.strip())
    return 8 if e is None else gcd(e[0], 8)


def al_poly(p, mult):
    g = MAXAL
    for m, c in p.t.items():
        k = gcd(c, MAXAL)
        for a in m:
            k = min(MAXAL, k * al_atom(a, mult))
        g = gcd(g, k)
    return g


# ---------------------------------------------------------------- values
class Obj:
    """pointer to (an element of) an object named by a path"""
    __slots__ = ("path", "off")

    def __init__(self, path, off=ZERO):
        self.path, self.off = path, off

    def canon(self):
        return ("obj", self.path, self.off)


class RawP:
    """pointer into the block: upper bound of the offset, alignment; base: an earlier position from which the distance is exact"""
    __slots__ = ("off", "al", "base")

    def __init__(self, off, al, base=None):
        self.off, self.al, self.base = off, al, base or (off, al)

    def plus(self, d, mult):
        off = self.off + d
        b, al = self.base
        return RawP(off, max(gcd(al, al_poly(off - b, mult)), gcd(self.al, al_poly(d, mult))), self.base)

    def canon(self):
        return ("raw",)


def position(I, v):
    """place in the block of a typed pointer into it"""
    r = v.path[0]
    if isinstance(r, tuple) and r[0] == "carved" and v.path[1] == "" and r[1] != "void" and isinstance(r[2], P):
        return RawP(r[2] + v.off * I.sizeof(r[1]), al_type(r[1]))
    return None


class LRef:
    """address of a location"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def canon(self):
        return ("ref", self.key)


class Str:
    def __init__(self, s): self.s = s
    def canon(self): return ("str", self.s)


class Unk:
    """value that is not followed"""
    def __init__(self, tag): self.tag = tag
    def canon(self): return ("unk", self.tag)


def canon(v):
    return v if isinstance(v, P) else v.canon()


class Carve:
    """an array taken from the block: extent in bytes (polynomial), element type"""
    __slots__ = ("key", "elem", "ext", "open")

    def __init__(self, key, elem):
        self.key, self.elem, self.ext, self.open = key, elem, ZERO, True


class State:
    def __init__(self):
        self.mem = {}
        self.carves = {}
        self.last = None
        self.pend = None
        self.maps = {}

    def copy(self):
        s = State()
        s.maps = dict(self.maps)
        s.pend = self.pend
        s.mem = dict(self.mem)
        s.carves = dict(self.carves)
        s.last = self.last
        return s


class Ret(Exception):
    def __init__(self, v): self.v = v


class Dead(Exception):
    pass


ADV = {"double": "double", "int": "int", "char": "char", "bool": "_Bool", "double_ptrs": "double *", "int_ptrs": "int *", "blasfeo_dvec_structs": "struct blasfeo_dvec",
       "blasfeo_dmat_structs": "struct blasfeo_dmat", "blasfeo_dmat_ptrs": "struct blasfeo_dmat *"}
BASIC = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "char": 1, "unsigned char": 1, "signed char": 1, "_Bool": 1, "bool": 1, "long": 8, "unsigned long": 8, "size_t": 8,
         "acados_size_t": 8, "long long": 8, "unsigned long long": 8, "short": 2, "void": 1, "real_t": 8}


class Mem:
    def __init__(self, prog, mult=lambda n: 8, inline_sizes=False, hp=True):
        self.prog, self.mult, self.inline_sizes, self.hp = prog, mult, inline_sizes, hp
        self.need = []        # (kind, what, ok)
        self.ctr = 0
        self.depth = 0
        self.loops = []       # (var atom, lo, hi) being executed symbolically
        self.path = []        # conditions (0/1 polynomials) of the branches being executed
        self.rawobj = None    # typed parameter that is the block itself
        self.used = set()
        self.follow = True

    def want(self, kind, info, n):
        self.need.append((kind, info, (n, tuple(self.path))))

    def branch(self, c, stmts, st):
        self.path.append(c)
        try:
            return self.block(stmts, st)
        finally:
            self.path.pop()

    def opaque(self, tag=""):
        self.ctr += 1
        return P.atom(("opaque", f"{tag}{self.ctr}"))

    # -------------------------------------------------------- types
    def sizeof(self, s):
        s = s.strip()
        k = tkind(s)
        if k in ("ptr", "fptr"):
            return P.c(8)
        if k == "array":
            n = 1
            for x in re.findall(r"\[(\d+)\]", s):
                n *= int(x)
            return self.sizeof(s[:s.index("[")]).scale(n)
        if s in BASIC:
            return P.c(BASIC[s])
        if s.startswith("enum "):
            return P.c(4)
        nm = s[7:] if s.startswith("struct ") else s
        td = self.prog.typedefs.get(s)
        if td is not None and "struct " + nm not in self.prog.records and s not in self.prog.records:
            u = tstr(td["type"])
            if u != s:
                return self.sizeof(u)
            return P.c(4)
        if td is not None:
            u = tstr(td["type"])
            if u.startswith("struct "):
                nm = u[7:]
            elif u.startswith("enum "):
                return P.c(4)
        return P.atom(("sz", nm.rstrip("_")))

    # -------------------------------------------------------- memory
    def get(self, st, key, ty):
        if key in st.mem:
            return st.mem[key]
        root, path, idx = key
        m = st.maps.get((root, path))
        if m is not None:
            tmpl, var, lo, hi, val = m
            if len(tmpl) == len(idx):
                k = [i for i in range(len(idx)) if tmpl[i] == P.atom(var)]
                if len(k) == 1 and all(tmpl[i] == idx[i] for i in range(len(idx)) if i != k[0]):
                    for v2, lo2, hi2 in self.loops:
                        if idx[k[0]] == P.atom(v2) and lo2 == lo and hi2 == hi:
                            return subst(val, var, P.atom(v2))
        # an aliasing write to the same array with another index: not followed
        for k in st.mem:
            if k[0] == root and k[1] == path and idx and k[2] != idx:
                return self.deflt(("?", key), ty, True)
        return self.deflt(key, ty, False)

    def deflt(self, key, ty, unk):
        k = tkind(ty)
        if k in ("ptr", "array", "record", "fptr"):
            return Obj(key) if not unk else Unk(key)
        return P.atom(("ld",) + key) if not unk else self.opaque("rd")

    def write(self, st, key, v):
        st.maps.pop(key[:2], None)
        st.mem[key] = v

    # -------------------------------------------------------- expressions
    def key_of(self, base):
        """location key of the object a pointer points to"""
        if isinstance(base, LRef):
            return base.key
        if isinstance(base, Obj):
            root, path, idx = base.path if isinstance(base.path, tuple) and len(base.path) == 3 else (base.path, "", ())
            return (root, path + "*", idx + (base.off,))
        raise Unsupported("pointer target")

    def lv(self, n, st):
        """location key of an lvalue expression"""
        k = n["kind"]
        if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr"):
            return self.lv(n["inner"][0], st)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            return self.var(d, st)
        if k == "MemberExpr":
            if n.get("isArrow"):
                b = self.ev(n["inner"][0], st)
                self.index(n["inner"][0], st, ZERO, n)
                if isinstance(b, RawP):
                    b = Obj(("raw", "", ()))
                key = self.key_of(b) if not isinstance(b, Unk) else (("unk", b.tag), "", ())
            else:
                key = self.lv(n["inner"][0], st)
            return (key[0], key[1] + "." + n["name"], key[2])
        if k == "ArraySubscriptExpr":
            b, i = self.ev(n["inner"][0], st), self.ev(n["inner"][1], st)
            if not isinstance(i, P):
                i = self.opaque("ix")
            self.index(n["inner"][0], st, i, n)
            if isinstance(b, Obj):
                return self.key_of(Obj(b.path, b.off + i))
            if isinstance(b, (Unk, RawP)):
                return (("unk", canon(b)), "*", (i,))
            raise Unsupported("subscript")
        if k == "UnaryOperator" and n["opcode"] == "*":
            b = self.ev(n["inner"][0], st)
            if isinstance(b, (Unk, RawP)):
                return (("unk", canon(b)), "*", (ZERO,))
            return self.key_of(b)
        raise Unsupported("lvalue " + k)

    def var(self, d, st):
        return (("var", self.frame, d["id"] if d["kind"] != "VarDecl" or True else 0), "", ())

    def index(self, bn, st, i, n):
        """an array taken from the block in this function is indexed"""
        try:
            key = self.lv(bn, st)
        except Unsupported:
            return
        c = st.carves.get(key)
        if c is None or c.elem is None:
            return
        es = self.sizeof(c.elem)
        self.want("index", (key, c, (i + ONE) * es, tuple(self.loops)), n)

    def ev(self, n, st):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return Unk(("expr", k, self._fresh()))
        return m(n, st)

    def _fresh(self):
        self.ctr += 1
        return self.ctr

    def e_ParenExpr(self, n, st): return self.ev(n["inner"][0], st)
    def e_ConstantExpr(self, n, st): return self.ev(n["inner"][0], st)
    def e_IntegerLiteral(self, n, st): return P.c(int(n["value"]))
    def e_CharacterLiteral(self, n, st): return P.c(int(n["value"]))
    def e_StringLiteral(self, n, st): return Str(n.get("value", ""))
    def e_FloatingLiteral(self, n, st): return Unk(("float", n["value"]))
    def e_CXXBoolLiteralExpr(self, n, st): return P.c(int(bool(n["value"])))

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return P.c(self.prog.enums.get(d["name"], 0)) if d["name"] in self.prog.enums else P.atom(("enum", d["name"]))
        if d["kind"] == "FunctionDecl":
            return Unk(("fn", d["name"]))
        key = self.var(d, st)
        if key not in st.mem:
            if tkind(tstr(d["type"])) in ("array", "record"):
                return Obj(key)
            return self.deflt((("global", d["name"]), "", ()), tstr(d["type"]), False)
        return st.mem[key]

    def e_MemberExpr(self, n, st):
        key = self.lv(n, st)
        ty = tstr(n["type"])
        if tkind(ty) in ("array", "record"):
            return Obj(key)
        return self.get(st, key, ty)

    def e_ArraySubscriptExpr(self, n, st):
        key = self.lv(n, st)
        ty = tstr(n["type"])
        if tkind(ty) in ("array", "record"):
            return Obj(key)
        return self.get(st, key, ty)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") != "sizeof":
            return self.opaque("al")
        t = tstr(n["argType"]) if "argType" in n else tstr(n["inner"][0]["type"])
        return self.sizeof(t)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            return self.ev(n["inner"][0], st)
        if ck == "NullToPointer":
            return P.c(0)
        return self.ev(n["inner"][0], st)

    def e_CStyleCastExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        t = tstr(n["type"])
        if isinstance(v, Obj) and v.path == self.rawobj and v.off == ZERO and t in ("char *", "unsigned char *"):
            return RawP(ZERO, 8)
        if isinstance(v, RawP) and tkind(t) == "ptr" and pointee(t) not in ("char", "void", "unsigned char"):
            return ("typed", v, pointee(t))
        if isinstance(v, Obj) and t in ("char *", "unsigned char *", "void *"):
            r = position(self, v)
            return v if r is None else r
        return v

    def obj(self, v):
        """a typed pointer into the block, as an object"""
        if isinstance(v, tuple) and v[0] == "typed":
            return Obj((("carved", v[2], v[1].off), "", ()))
        return v

    def truth(self, v):
        if isinstance(v, P):
            if len(v.t) == 1 and all(len(m) == 1 and m[0][0] == "if" and c == 1 for m, c in v.t.items()):
                return v
            if all(a[0] == "if" for a in v.atoms()) and v.t:
                return v          # 0/1 combinations of conditions
            return cond_atom(("nz", v))
        if isinstance(v, tuple):
            return ONE
        if isinstance(v, RawP):
            return ONE
        return cond_atom(("nz", canon(v)))

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "&":
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl":
                return Unk(("fn", x["referencedDecl"]["name"]))
            return LRef(self.lv(x, st))
        if op == "*":
            key = self.lv(n, st)
            ty = tstr(n["type"])
            if tkind(ty) in ("array", "record"):
                return Obj(key)
            return self.get(st, key, ty)
        if op in ("++", "--"):
            key = self.lv(x, st)
            old = self.get(st, key, tstr(x["type"]))
            new = self.plus(old, ONE if op == "++" else -ONE, tstr(x["type"]), st, key)
            self.write(st, key, new)
            return old if n.get("isPostfix") else new
        v = self.ev(x, st)
        if op == "-":
            return -v if isinstance(v, P) else self.opaque("neg")
        if op == "+":
            return v
        if op == "!":
            return ONE - self.truth(v)
        return self.opaque("un")

    def plus(self, v, d, ty, st, key=None):
        v = self.obj(v) if isinstance(v, tuple) else v
        if isinstance(v, RawP):
            es = self.sizeof(pointee(ty)) if pointee(ty) not in ("char", "void") else ONE
            dd = d * es
            if key is not None and st.pend is not None:
                self.want("room", (st.pend, v.off, dd, tuple(self.loops)), st.pend[4])
                st.pend = st.last = None
            if key is not None and st.last is not None:
                c = st.carves.get(st.last)
                if c is not None and c.open:
                    c2 = Carve(c.key, c.elem)
                    c2.ext = c.ext + dd
                    st.carves[st.last] = c2
            return v.plus(dd, self.mult)
        if isinstance(v, Obj):
            return Obj(v.path, v.off + d)
        if isinstance(v, P):
            return v + d
        return Unk(("plus", canon(v), d))

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.ev(b, st)
            key = self.lv(a, st)
            self.assign(st, key, v, tstr(a["type"]))
            return v
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            x = self.truth(self.ev(a, st))
            if x.const() is not None:
                if (op == "&&") == (x.const() == 0):
                    return x
                return self.truth(self.ev(b, st))
            y = self.truth(self.ev(b, st))
            return x * y if op == "&&" else x + y - x * y
        x, y = self.ev(a, st), self.ev(b, st)
        return self.binop(op, x, y, tstr(a["type"]), tstr(b["type"]), st, a)

    def binop(self, op, x, y, tx, ty, st, an=None):
        x = self.obj(x) if isinstance(x, tuple) else x
        y = self.obj(y) if isinstance(y, tuple) else y
        if op in ("+", "-"):
            if isinstance(x, P) and isinstance(y, P) and tkind(tx) != "ptr" and tkind(ty) != "ptr":
                return x + y if op == "+" else x - y
            if isinstance(y, P) and tkind(tx) in ("ptr", "array"):
                if an is not None and op == "+" and pointee(tx) not in ("char", "void"):
                    self.index(an, st, y, an)
                return self.plus(x, y if op == "+" else -y, tx, st)
            if isinstance(x, P) and tkind(ty) in ("ptr", "array"):
                return self.plus(y, x, ty, st)
        if isinstance(x, P) and isinstance(y, P):
            if op == "*":
                return x * y
            if op in ("/", "%"):
                cx, cy = x.const(), y.const()
                if cy:
                    if cx is not None and cx >= 0 and cy > 0:
                        return P.c(cx // cy if op == "/" else cx % cy)
                    if op == "/" and all(c % cy == 0 for c in x.t.values()):
                        return P({m: c // cy for m, c in x.t.items()})
                return P.atom((op, x, y))
            if op == "<": return cond_atom(("lt", x - y))
            if op == ">": return cond_atom(("lt", y - x))
            if op == "<=": return ONE - cond_atom(("lt", y - x))
            if op == ">=": return ONE - cond_atom(("lt", x - y))
            if op == "==": return cond_atom(("eq", x - y))
            if op == "!=": return ONE - cond_atom(("eq", x - y))
        if op in ("==", "!="):
            r = cond_atom(("nz", (("eq",) + tuple(sorted((canon(x), canon(y)), key=repr)))))
            if isinstance(y, P) and y.const() == 0:
                r = ONE - self.truth(x)
            elif isinstance(x, P) and x.const() == 0:
                r = ONE - self.truth(y)
            return r if op == "==" else ONE - r
        if op in ("<", ">", "<=", ">="):
            return cond_atom(("nz", (op, canon(x), canon(y))))
        return self.opaque("bin")

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.ev(b, st)
        key = self.lv(a, st)
        x = self.get(st, key, tstr(a["type"]))
        if isinstance(x, tuple):
            x = self.obj(x)
        if isinstance(x, RawP):
            if not isinstance(y, P):
                raise Unsupported("block pointer advanced by something that is not followed")
            r = self.plus(x, y if op == "+" else -y, tstr(a["type"]), st, key)
        else:
            r = self.binop(op, x, y, tstr(a["type"]), tstr(b["type"]), st)
        self.write(st, key, r)
        return r

    def e_ConditionalOperator(self, n, st):
        c = self.truth(self.ev(n["inner"][0], st))
        if c.const() is not None:
            return self.ev(n["inner"][1 if c.const() else 2], st)
        s1, s2 = st.copy(), st.copy()
        a, b = self.ev(n["inner"][1], s1), self.ev(n["inner"][2], s2)
        if isinstance(a, P) and isinstance(b, P):
            return c * a + (ONE - c) * b
        if canon_eq(a, b):
            return a
        return Unk(("cond", c, self._fresh()))

    def e_StmtExpr(self, n, st):
        for s in n["inner"][0].get("inner", []):
            try:
                self.ex(s, st)
            except Dead:
                pass
        return ZERO

    def e_InitListExpr(self, n, st): return Unk(("init", self._fresh()))

    def assign(self, st, key, v, ty):
        if isinstance(v, tuple) and v[0] == "typed":
            al = al_type(v[2])
            self.want("align", (v[2], al, v[1].al), None)
            # a typed pointer into the block is stored: an array starts here
            v2 = self.obj(v)
            st.carves = dict(st.carves)
            st.carves[key] = Carve(key, v[2])
            st.last = key
            self.write(st, key, Obj(v2.path))
            return
        if isinstance(v, RawP) and tkind(ty) == "ptr" and pointee(ty) not in ("char", "void", "unsigned char"):
            return self.assign(st, key, ("typed", v, pointee(ty)), ty)
        if isinstance(v, RawP) and key[0][0] != "var" and tkind(ty) == "ptr":
            # e.g. void *field = c_ptr
            st.carves = dict(st.carves)
            st.carves[key] = Carve(key, None)
            st.last = key
            self.write(st, key, Obj((("carved", "void", v.off), "", ())))
            return
        if isinstance(v, P) and tkind(ty) in ("int", "bool") and False:
            pass
        self.write(st, key, v)

    # -------------------------------------------------------- calls
    def e_CallExpr(self, n, st):
        callee = n["inner"][0]
        while callee["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            callee = callee["inner"][0]
        args_n = n["inner"][1:]
        if callee["kind"] == "DeclRefExpr" and callee["referencedDecl"]["kind"] == "FunctionDecl":
            name = callee["referencedDecl"]["name"]
        else:
            v = self.ev(callee, st)
            nm = path_name(v)
            if callee["kind"] == "MemberExpr":
                nm = owner(callee) + nm
            return self.extern(nm, canon(v), args_n, st, tstr(n["type"]))
        if name in ("__assert_fail", "exit", "abort", "_exit"):
            raise Dead()
        if name in ("printf", "fprintf", "puts", "fflush", "acados_warning"):
            return ZERO
        if name == "align_char_to":
            k = self.ev(args_n[0], st).const()
            ref = self.ev(args_n[1], st)
            p = self.get(st, ref.key, "char *")
            if not isinstance(p, RawP) or not k:
                return self.opaque("al")
            pad = max(0, k - p.al)
            self.write(st, ref.key, RawP(p.off + P.c(pad), max(k, p.al)) if pad else p)
            return ZERO
        if name == "make_int_multiple_of":
            k = self.ev(args_n[0], st).const()
            ref = self.ev(args_n[1], st)
            p = self.get(st, ref.key, "size_t")
            if isinstance(p, P) and k:
                if al_poly(p, self.mult) % k:
                    self.write(st, ref.key, P.atom(("round", k, p)))
            return ZERO
        if name.startswith("assign_and_advance_"):
            return self.advance(name[len("assign_and_advance_"):], args_n, st, n)
        if name in ("max", "min", "fmax", "fmin", "imax", "imin"):
            pass
        fn = self.prog.lookup(name, getattr(self, "tu", None))
        if fn is not None and self.inlinable(name, fn, args_n, st):
            ret = tstr(fn["type"]).split("(")[0].strip()
            if tkind(ret) in ("int", "bool") and not any("*" in t and not t.startswith("const") and ("size_t" in t or "char *" in t) for _, t, _ in fname_params(fn)):
                s2 = st.copy()
                n0 = len(self.need)
                try:
                    r = self.inline(fn, args_n, s2)
                    st.__dict__.update(s2.__dict__)
                    return r
                except Unsupported:
                    del self.need[n0:]         # a pure function of its arguments
            else:
                return self.inline(fn, args_n, st)
        return self.extern(name, None, args_n, st, tstr(n["type"]))

    def advance(self, what, args_n, st, n):
        ref = self.ev(args_n[-1], st)
        p = self.get(st, ref.key, "char *")
        if not isinstance(p, RawP):
            raise Unsupported("assign_and_advance on a pointer that is not followed")
        dims = [self.ev(a, st) for a in args_n[:-2]]
        if not all(isinstance(d, P) for d in dims):
            raise Unsupported("size that is not followed")
        tgt = self.ev(args_n[-2], st)
        if what in ADV:
            es = self.sizeof(ADV[what])
            amount = dims[0] * es
            al = {"double": 8, "int": 4, "bool": 1, "char": 1}.get(what, 8)
            tkey = self.key_of(tgt) if not isinstance(tgt, (Unk, RawP, tuple)) else None
            if tkey is not None:
                st.carves = dict(st.carves)
                c = Carve(tkey, ADV[what])
                c.ext, c.open = amount, False
                st.carves[tkey] = c
                self.write(st, tkey, Obj((("carved", ADV[what], p.off), "", ())))
        elif what == "blasfeo_dvec_mem":
            amount = P.atom(("call", "blasfeo_memsize_dvec", (dims[0],)))
            al = 8
        elif what == "blasfeo_dmat_mem":
            amount = P.atom(("call", "blasfeo_memsize_dmat", (dims[0], dims[1])))
            al = 64 if self.hp else 8
        else:
            raise Unsupported("assign_and_advance_" + what)
        if al > 4:
            self.want("align", (what, al, p.al), n)
        st.last = None
        self.write(st, ref.key, p.plus(amount, self.mult))
        return ZERO

    def inlinable(self, name, fn, args_n, st):
        if self.depth > 6:
            return False
        if name.endswith(("_calculate_size", "_calculate_size_self")):
            return self.inline_sizes and self.depth < 4
        if name.endswith(("_assign", "_assign_self", "_create")) and not any(self.is_ref(a) for a in args_n):
            return False
        ret = tstr(fn["type"]).split("(")[0].strip()
        pts = any("char **" in t for _, t, _ in fname_params(fn))
        if tkind(ret) in ("int", "bool") or pts:
            return True
        # void helpers that get a size by reference
        return ret == "void" and any(t.endswith("size_t *") for _, t, _ in fname_params(fn))

    def is_ref(self, a):
        while a["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
            a = a["inner"][0]
        return a["kind"] == "UnaryOperator" and a["opcode"] == "&"

    def inline(self, fn, args_n, st):
        vals = [self.ev(a, st) for a in args_n]
        return self.run_fn(fn, vals, st)

    def run_fn(self, fn, vals, st):
        self.depth += 1
        save = (getattr(self, "frame", 0), getattr(self, "tu", None))
        self.nframe = getattr(self, "nframe", 0) + 1
        self.frame, self.tu = self.nframe, fn.get("_tu")
        try:
            for (nm, t, did), v in zip(fname_params(fn), vals):
                if isinstance(v, tuple):
                    v = self.obj(v)
                st.mem[(("var", self.frame, did), "", ())] = v
            self.used.add(fn["name"])
            try:
                r = self.block(body(fn).get("inner", []), st)
            except Ret as e:
                r = e.v
            return r if r is not None else ZERO
        finally:
            self.depth -= 1
            self.frame, self.tu = save

    def extern(self, name, who, args_n, st, rty):
        vals = [self.ev(a, st) for a in args_n]
        vals = [self.obj(v) if isinstance(v, tuple) else v for v in vals]
        # only pointers into the block matter as raw; refs to locals are outputs
        key = ("call", name, (() if who is None else (who,)) + tuple(canon(v) for v in vals if not isinstance(v, LRef)))
        for i, v in enumerate(vals):
            if isinstance(v, RawP) and name.endswith(("assign", "assign_self", "create")):
                self.want("align", (name, 8, v.al), args_n[i])
                st.pend = (name, who, tuple(canon(x) for x in vals if not isinstance(x, (LRef, RawP))), v.off, args_n[i])
            if isinstance(v, LRef):
                old = st.mem.get(v.key)
                if isinstance(old, RawP):
                    raise Unsupported(f"{name} gets the address of the block pointer")
                ty = tstr(args_n[i]["type"])
                a = args_n[i]
                while a["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
                    a = a["inner"][0]
                pt = pointee(tstr(a["type"]))
                if tkind(pt) in ("int", "bool"):
                    st.mem[v.key] = P.atom(key + (i,))
                elif tkind(pt) == "ptr":
                    st.mem[v.key] = Obj((("out", key, i), "", ()))
                else:
                    for q in [q for q in st.mem if q[0] == v.key[0] and q[1].startswith(v.key[1] + ".")]:
                        del st.mem[q]
        if name.startswith("d_") and name.endswith("_create") and len(vals) >= 2:
            tgt = vals[-2]            # HPIPM: X_create(..., x, mem) sets x->memsize = X_memsize(...)
            if isinstance(tgt, (Obj, LRef)):
                k = self.key_of(tgt)
                st.mem[(k[0], k[1] + ".memsize", k[2])] = P.atom(("call", name[:-6] + "memsize", tuple(canon(v) for v in vals[:-2])))
        if name == "ocp_nlp_res_assign":
            st.mem[(("ret", key), "*.memsize", (ZERO,))] = P.atom(("call", "ocp_nlp_res_calculate_size", (canon(vals[0]),)))
        if name in ("blasfeo_create_dvec", "blasfeo_create_dmat"):
            tgt = vals[-2]
            if isinstance(tgt, (Obj, LRef)):
                k = self.key_of(tgt)
                nm = "blasfeo_memsize_" + name[-4:]
                st.mem[(k[0], k[1] + ".memsize", k[2])] = P.atom(("call", nm, tuple(canon(v) for v in vals[:-2])))
        k = tkind(rty)
        if k in ("int", "bool"):
            return P.atom(key)
        if k == "ptr":
            return Obj((("ret", key), "", ()))
        return Unk(key)

    # -------------------------------------------------------- statements
    def block(self, stmts, st):
        """runs statements; returns the value of a return statement or None; early returns in branches are merged"""
        for i, s in enumerate(stmts):
            k = s["kind"]
            if k == "IfStmt":
                c, a, b = self.if_parts(s, st)
                if c.const() is not None:
                    br = a if c.const() else b
                    if br is not None:
                        r = self.block([br], st)
                        if r is not None:
                            return r
                    continue
                s1, s2 = st.copy(), st.copy()
                d1 = d2 = False
                r1 = r2 = None
                try:
                    r1 = self.branch(c, [a], s1)
                except Dead:
                    d1 = True
                try:
                    r2 = self.branch(ONE - c, [b], s2) if b is not None else None
                except Dead:
                    d2 = True
                if d1 and d2:
                    raise Dead()
                if d1 or d2:
                    st.__dict__.update((s2 if d1 else s1).__dict__)
                    r = r2 if d1 else r1
                    if r is not None:
                        return r
                    continue
                if r1 is not None or r2 is not None:
                    # one branch returns: run the rest for the other
                    rest = stmts[i + 1:]
                    if r1 is None:
                        r1 = self.branch(c, rest, s1)
                    if r2 is None:
                        r2 = self.branch(ONE - c, rest, s2)
                    self.merge(st, c, s1, s2)
                    if isinstance(r1, P) and isinstance(r2, P):
                        return c * r1 + (ONE - c) * r2
                    return r1 if r1 is not None else r2
                self.merge(st, c, s1, s2)
                continue
            if k == "CompoundStmt":
                r = self.block(s.get("inner", []), st)
                if r is not None:
                    return r
                continue
            if k == "ReturnStmt":
                if not s.get("inner"):
                    return ZERO
                v = self.ev(s["inner"][0], st)
                return self.obj(v) if isinstance(v, tuple) else v
            try:
                self.ex(s, st)
            except Unsupported:
                if self.depth != 1 or any(self.mentions_block(x, st) for x in stmts[i:]):
                    raise
                return None             # the block pointer is not used any more
        return None

    def mentions_block(self, n, st):
        if n.get("kind") == "DeclRefExpr" and isinstance(st.mem.get((("var", self.frame, n["referencedDecl"]["id"]), "", ())), RawP):
            return True
        return any(self.mentions_block(x, st) for x in n.get("inner", ()))

    def if_parts(self, s, st):
        inn = [x for x in s["inner"]]
        c = self.truth(self.ev(inn[0], st))
        return c, inn[1], (inn[2] if len(inn) > 2 else None)

    def merge(self, st, c, s1, s2):
        out = {}
        for key in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(key), s2.mem.get(key)
            if a is None or b is None:
                base = a if a is not None else b
                if key in st.mem:
                    out[key] = base
                elif isinstance(base, P) and key[0][0] != "var":
                    other = P.atom(("ld",) + key)
                    out[key] = c * base + (ONE - c) * other if a is not None else c * other + (ONE - c) * base
                else:
                    out[key] = base
                continue
            out[key] = self.merge_val(c, a, b)
        st.mem = out
        st.maps = {k: v for k, v in s1.maps.items() if s2.maps.get(k) == v}
        carv = {}
        for key in set(s1.carves) | set(s2.carves):
            a, b = s1.carves.get(key), s2.carves.get(key)
            if a is None or b is None:
                x = Carve(key, (a or b).elem)
                x.ext, x.open = (a or b).ext, False
            elif a is b:
                x = a
            else:
                x = Carve(key, a.elem)
                x.ext, x.open = c * a.ext + (ONE - c) * b.ext, a.open and b.open
            carv[key] = x
        st.carves = carv
        st.last = s1.last if s1.last == s2.last else None

    def merge_val(self, c, a, b):
        if a is b or canon_eq(a, b):
            if isinstance(a, RawP):
                return a if a.off == b.off and a.al == b.al else RawP(c * a.off + (ONE - c) * b.off, min(a.al, b.al))
            return a
        if isinstance(a, P) and isinstance(b, P):
            return c * a + (ONE - c) * b
        if isinstance(a, RawP) and isinstance(b, RawP):
            return RawP(c * a.off + (ONE - c) * b.off, min(a.al, b.al))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.path == b.path:
            return Obj(a.path, c * a.off + (ONE - c) * b.off)
        return Unk(("merge", self._fresh()))

    def ex(self, n, st):
        k = n["kind"]
        if k in ("NullStmt",):
            return
        if k == "DeclStmt":
            for d in n["inner"]:
                if d["kind"] != "VarDecl":
                    continue
                key = (("var", self.frame, d["id"]), "", ())
                ty = tstr(d["type"])
                init = d.get("inner")
                init = [x for x in init if not x["kind"].endswith("Attr")] if init else None
                for q in [q for q in st.mem if q[0] == key[0]]:
                    del st.mem[q]
                if init:
                    v = self.ev(init[-1], st)
                    self.assign(st, key, v, ty)
                elif tkind(ty) in ("int", "bool"):
                    st.mem[key] = self.opaque("uninit")
            return
        if k == "ForStmt":
            return self.for_loop(n, st)
        if k == "IfStmt" or k == "CompoundStmt" or k == "ReturnStmt":
            r = self.block([n], st)
            if r is not None:
                raise Ret(r)
            return
        if k == "SwitchStmt":
            return self.switch(n, st)
        if k in ("WhileStmt", "DoStmt"):
            return self.havoc_loop(n, st)
        if k in ("BreakStmt", "ContinueStmt", "GotoStmt"):
            raise Unsupported(k)
        if k == "LabelStmt":
            return self.ex(n["inner"][0], st)
        self.ev(n, st)

    def switch(self, n, st):
        v = self.ev(n["inner"][0], st)
        stm = n["inner"][-1].get("inner", [])
        groups, cur = [], None
        for s in stm:
            labels = []
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                labels.append(None if s["kind"] == "DefaultStmt" else self.ev(s["inner"][0], st))
                s = s["inner"][-1]
            if labels:
                cur = (labels, [s])
                groups.append(cur)
            elif cur is not None:
                cur[1].append(s)
        outs = []
        taken = ONE
        for labels, ss in groups:
            cond = ZERO
            for l in labels:
                e = taken if l is None else (self.binop("==", v, l, "int", "int", st) if isinstance(v, P) else self.opaque("case"))
                cond = cond + e - cond * e
            outs.append((cond, ss))
        def flat(ss):
            r, done = [], False
            for s in ss:
                if s["kind"] == "BreakStmt":
                    return r
                if s["kind"] == "CompoundStmt":
                    inner = s.get("inner", [])
                    if inner and inner[-1]["kind"] == "BreakStmt":
                        return r + inner[:-1]
                r.append(s)
            return r
        rest = st.copy()
        results = []
        for cond, ss in outs:
            s = st.copy()
            try:
                r = self.branch(cond, flat(ss), s)
                if r is not None:
                    raise Unsupported("return in switch")
                results.append((cond, s))
            except Dead:
                pass
        acc = rest
        for cond, s in reversed(results):
            m = State()
            m.mem = dict(acc.mem)
            self.merge(m, cond, s, acc)
            acc = m
        st.__dict__.update(acc.__dict__)

    def havoc_loop(self, n, st):
        raise Unsupported("while loop")

    def for_loop(self, n, st):
        init, _, cond, inc, bd = (n["inner"] + [None] * 5)[:5]
        if init and init.get("kind"):
            self.ex(init, st)
        # header i < hi, i <= hi, i++ / descending
        c = cond
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        i = inc
        while i["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            i = i["inner"][0]
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">="):
            raise Unsupported("loop header")
        vk = self.lv(c["inner"][0], st)
        lo = self.get(st, vk, "int")
        bound = self.ev(c["inner"][1], st)
        if isinstance(lo, RawP) and isinstance(bound, RawP) and c["opcode"] == "<" and self.clears(bd, vk, st):
            return
        if not isinstance(lo, P) or not isinstance(bound, P):
            raise Unsupported("loop bounds")
        up = (i["kind"] == "UnaryOperator" and i["opcode"] == "++") or (i["kind"] == "CompoundAssignOperator" and i["opcode"] == "+=" and self.ev(i["inner"][1], st).const() == 1)
        down = (i["kind"] == "UnaryOperator" and i["opcode"] == "--") or (i["kind"] == "CompoundAssignOperator" and i["opcode"] == "-=" and self.ev(i["inner"][1], st).const() == 1)
        if up and c["opcode"] in ("<", "<="):
            first, end = lo, bound + (ONE if c["opcode"] == "<=" else ZERO)
        elif down and c["opcode"] in (">", ">="):
            first, end = bound + (ONE if c["opcode"] == ">" else ZERO), lo + ONE
        else:
            raise Unsupported("loop step")
        self.ctr += 1
        var = ("lv", self.ctr)
        raws = {k for k, v in st.mem.items() if isinstance(v, RawP)}
        als = {k: st.mem[k].al for k in raws}
        nneed = len(self.need)
        for _ in range(8):
            s = st.copy()
            s.last = None
            marks = {}
            # the values at the beginning of an iteration: offsets and integers relative to a mark
            for k2, v in list(s.mem.items()):
                if isinstance(v, RawP):
                    a = ("mark", k2)
                    marks[k2] = a
                    s.mem[k2] = RawP(P.atom(a), als[k2])
                elif isinstance(v, P) and k2 != vk:
                    a = ("mark", k2)
                    marks[k2] = a
                    s.mem[k2] = P.atom(a)
            s.mem[vk] = P.atom(var)
            del self.need[nneed:]
            changed = self.changed_first(bd, s, st, marks, vk, var, first, end)
            s, delta = changed
            ok = True
            for k2 in raws:
                v = s.mem.get(k2)
                if not isinstance(v, RawP):
                    raise Unsupported("block pointer lost in a loop")
                if v.al < als[k2]:
                    als[k2] = v.al
                    ok = False
            if ok:
                break
        # write back
        for k2, v in s.mem.items():
            if k2 == vk:
                continue
            if k2 in delta:
                d = delta[k2]
                old = st.mem[k2]
                if isinstance(old, RawP):
                    st.mem[k2] = RawP(old.off + total(d, var, first, end), als[k2])
                else:
                    st.mem[k2] = old + total(d, var, first, end)
            elif k2 in marks:
                old = st.mem[k2]
                if v == P.atom(marks[k2]):
                    continue
                # not an accumulation: a function of the loop, the same for the same body
                body_key = subst(canon(v), var, P.atom(("bv", 99)))
                st.mem[k2] = P.atom(("loop", subst(body_key, marks[k2], P.atom(("bv", 98))), old, first, end)) if isinstance(v, P) else Unk(("loop", self._fresh()))
            elif contains(k2, var):
                if isinstance(v, P) and not any(contains(v, a) for a in marks.values()) and not any(k3[:2] == k2[:2] and k3 != k2 for k3 in s.mem):
                    st.maps[k2[:2]] = (k2[2], var, first, end, v)
                continue
            else:
                if isinstance(v, P) and (contains(v, var) or any(contains(v, a) for a in marks.values())):
                    v = self.opaque("after")
                elif not isinstance(v, P) and contains(canon(v), var):
                    v = Unk(("after", self._fresh()))
                st.mem[k2] = v
        # arrays taken in every iteration
        for key, cv in s.carves.items():
            if key not in st.carves and not contains(key, var):
                st.carves = dict(st.carves)
                x = Carve(key, cv.elem)
                x.ext, x.open = ZERO, False
                if not contains(cv.ext, var):
                    x.ext = cv.ext
                    st.carves[key] = x
        st.last = None
        st.mem[vk] = end if up else first - ONE

    def clears(self, bd, vk, st):
        """the body is *p = constant for the loop's pointer p: it writes between the two block pointers only"""
        while bd["kind"] == "CompoundStmt" and len(bd.get("inner", ())) == 1:
            bd = bd["inner"][0]
        if bd["kind"] != "BinaryOperator" or bd["opcode"] != "=":
            return False
        l, r = bd["inner"]
        v = self.ev(r, st)
        return l["kind"] == "UnaryOperator" and l["opcode"] == "*" and self.lv(l["inner"][0], st) == vk and isinstance(v, P) and v.const() is not None

    def changed_first(self, bd, s, st, marks, vk, var, first, end):
        self.loops.append((var, first, end))
        try:
            r = self.block([bd], s)
        finally:
            self.loops.pop()
        if r is not None:
            raise Unsupported("return in a loop")
        delta = {}
        inv = set()
        for k2, a in marks.items():
            v = s.mem.get(k2)
            x = v.off if isinstance(v, RawP) else v
            if isinstance(x, P):
                d = x - P.atom(a)
                if not contains(d, a):
                    if not d.t and not (isinstance(v, RawP)):
                        inv.add(k2)
                    delta[k2] = d
        # increments may use other marked values that the loop leaves unchanged
        for k2 in list(delta):
            d = delta[k2]
            bad = False
            for k3, a in marks.items():
                if contains(d, a):
                    if k3 in inv:
                        d = subst(d, a, st.mem[k3])
                    else:
                        bad = True
            if bad:
                if isinstance(s.mem[k2], RawP):
                    raise Unsupported("advance depends on values changed in the loop")
                del delta[k2]
            else:
                delta[k2] = d
        # everything else the body wrote: replace invariant marks
        for k2, v in list(s.mem.items()):
            if isinstance(v, P) and k2 not in marks:
                for k3 in inv:
                    if contains(v, marks[k3]):
                        v = subst(v, marks[k3], st.mem[k3])
                s.mem[k2] = v
        for i, (kind, info, (nn, path)) in enumerate(self.need):
            for k3 in inv:
                if kind in ("index", "room"):
                    info = substneed(kind, info, marks[k3], st.mem[k3])
                path = subst(path, marks[k3], st.mem[k3])
            self.need[i] = (kind, info, (nn, path))
        for k2, v in list(s.carves.items()):
            e = v.ext
            for k3 in inv:
                e = subst(e, marks[k3], st.mem[k3])
            if e is not v.ext:
                c2 = Carve(v.key, v.elem)
                c2.ext, c2.open = e, v.open
                s.carves[k2] = c2
        return s, delta


def substneed(kind, info, a, by):
    if kind == "index":
        key, c, w, fs = info
        c2 = Carve(c.key, c.elem)
        c2.ext, c2.open = subst(c.ext, a, by), c.open
        return (key, c2, subst(w, a, by), subst(fs, a, by))
    pend, off, dd, fs = info
    return (subst(pend[:4], a, by) + pend[4:], off, subst(dd, a, by), subst(fs, a, by))


def canon_eq(a, b):
    try:
        return canon(a) == canon(b)
    except Exception:
        return False


def path_name(v):
    p = getattr(v, "path", None)
    if isinstance(p, tuple) and len(p) == 3:
        return p[1].split(".")[-1].strip("*")
    return "indirect"


# ---------------------------------------------------------------- deciding
def expand_round(p, sign=1):
    """lower bound of p in which rounded sizes are replaced by their bounds"""
    while any(a[0] == "round" for a in p.atoms()):
        r = ZERO
        for m, c in p.t.items():
            q = P.c(c)
            for a in m:
                if a[0] == "round":
                    q = q * (a[2] if c > 0 else a[2] + P.c(a[1] - 1))
                else:
                    q = q * P.atom(a)
            r = r + q
        p = r
    return p


def indicators(p):
    out = []
    def f(a):
        if a[0] == "if" and a not in out:
            out.append(a)
    for a in p.atoms():
        f(a)
    return out


def nonneg_atom(a):
    return a[0] in ("ld", "call", "sz", "sum", "round", "/", "%", "loop", "enum", "if") or (a[0] == "bv")


def prove_nonneg(p, limit=14, given=(), loops=()):
    """True, or the residual that may be negative; given: polynomials known to be >= 0; loops: bounds of loop variables"""
    p = extreme(p, loops)
    q = expand_round(p)
    if all(c >= 0 for c in q.t.values()) and all(nonneg_atom(a) for a in q.atoms()):
        return True
    ind = []

    def collect(x):
        for a in x.atoms():
            if a[0] == "if" and a not in ind:
                ind.append(a)
                if isinstance(a[1][1], P):
                    collect(a[1][1])
            if a[0] == "round":
                collect(a[2])
    collect(p)
    for g in given:
        collect(g)
    ind.reverse()          # conditions inside conditions first
    if len(ind) > limit:
        return p

    def case(j, sub, facts):
        if j == len(ind):
            return decide(sub(p), facts, [sub(g) for g in given], loops)
        a0 = ind[j]
        for on in (1, 0):
            def s2(x, on=on):
                return subst_if(sub(x), a0, sub, on)
            op, x = a0[1]
            r = case(j + 1, s2, facts + ([(op, sub(x), on)] if isinstance(x, P) else []))
            if r is not True:
                return r
        return True
    return case(0, lambda x: x, [])


def extreme(p, loops):
    """p at the end of the loops' ranges where it is smallest, for the loop variables it is monotone in"""
    for var, lo, hi in reversed(loops):
        if not contains(p, var):
            continue
        d = subst(p, var, P.atom(var) + ONE) - p        # growth in the loop variable
        if d.t and all(c >= 0 for c in d.t.values()) and all(nonneg_atom(a) for a in d.atoms()) and not contains(d, var):
            p = subst(p, var, lo)
        elif d.t and all(c <= 0 for c in d.t.values()) and all(nonneg_atom(a) for a in d.atoms()) and not contains(d, var):
            p = subst(p, var, hi - ONE)
    return p


def subst_if(x, a0, sub, on):
    op, y = a0[1]
    if isinstance(y, P):
        c = cond_atom((op, sub(y)))
        if c.const() is not None:
            return x
        a0 = next(iter(c.atoms()))
        if c != P.atom(a0):
            on = 1 - on
    return subst(x, a0, P.c(on))


def decide(q, facts, given, loops):
    r = decide1(q, facts, given, loops)
    if r is not True:
        e = extreme(q, loops)
        if e != q:
            r = decide1(e, facts, given, loops)
    return True if r is True else q


def decide1(q, facts, given, loops):
    import z3
    e = expand_round(q)
    if all(c >= 0 for c in e.t.values()) and all(nonneg_atom(a) for a in e.atoms()):
        return True
    names = {}
    s = z3.Solver()
    s.set("timeout", 5000)

    def lin(poly):
        e = z3.IntVal(0)
        for m, c in poly.t.items():
            if m == ():
                e = e + c
                continue
            if m not in names:
                names[m] = z3.Int(f"m{len(names)}")
                if all(nonneg_atom(a) for a in m):
                    s.add(names[m] >= 0)
                if len(m) == 1 and m[0][0] == "round":
                    b = lin(m[0][2])
                    s.add(names[m] >= b, names[m] <= b + (m[0][1] - 1))
            e = e + c * names[m]
        return e
    for var, lo, hi in loops:
        s.add(lin(P.atom(var) - lo) >= 0, lin(hi - ONE - P.atom(var)) >= 0)
    for g in given:
        s.add(lin(g) >= 0)
    for op, x, on in facts:
        e = lin(x)
        s.add({"lt": e < 0, "nz": e != 0, "eq": e == 0}[op] if on else {"lt": e >= 0, "nz": e == 0, "eq": e != 0}[op])
    s.add(lin(q) < 0)
    return True if s.check() == z3.unsat else q


def show(p):
    def sh(a):
        if isinstance(a, P):
            return show(a)
        if isinstance(a, tuple):
            if a and a[0] == "ld":
                (root, path, idx) = a[1:]
                r = path
                nm = root[1] if isinstance(root, tuple) and len(root) > 1 else root
                return f"{nm}{r}" + "".join(f"[{show(i)}]" for i in idx if i.t)
            if a and a[0] == "sz":
                return f"sizeof({a[1]})"
            if a and a[0] == "call":
                return f"{a[1]}({', '.join(sh(x) for x in a[2])})"
            if a and a[0] == "sum":
                return f"sum_{{k<{show(a[3])}}} {show(a[1])}"
            if a and a[0] == "bv":
                return "k" + str(a[1])
            if a and a[0] == "obj":
                return sh(("ld",) + tuple(a[1])) if isinstance(a[1], tuple) and len(a[1]) == 3 else str(a[1])
            if a and a[0] == "round":
                return f"round{a[1]}({show(a[2])})"
            if a and a[0] == "if":
                return f"[{a[1][0]} {sh(a[1][1])}]"
            return "(" + " ".join(sh(x) for x in a) + ")"
        return str(a)
    out = []
    for m, c in p.t.items():
        out.append((f"{c:+d}" if not m or abs(c) != 1 else "+" if c > 0 else "-") + "*".join(sh(a) for a in m))
    return " ".join(out) or "0"


RAWNAMES = ("raw_memory", "raw_memory_", "raw_mem", "memory", "ptr", "raw", "work", "work_", "c_ptr", "mem")


def norm(n):
    return n.strip("_")


PURE = {"sim_config.dims_calculate_size"}     # integrator interface: the implementations take no arguments (checked by Sizes)


class Sizes:
    """all size functions of the program: pairs, multiples, fields the memory functions set"""
    def __init__(self, prog):
        self.prog = prog
        self.calcs = sorted(n for n in prog.funcs if n.endswith(("calculate_size", "calculate_size_self")))
        self._mult, self._busy, self._req = {}, set(), {}
        RECORDS.clear()
        RECORDS.update(prog.records)
        self.slots = {}
        for f in prog.funcs.values():
            fills(f, self.slots)
        self.callers = {}
        for n, f in prog.funcs.items():
            for c in calls(f):
                self.callers.setdefault(c, set()).add(n)

    def pairs(self):
        for c in self.calcs:
            cand = [c.replace("calculate_size", "assign"), c.replace("workspace_calculate_size", "cast_workspace"), "assign_" + c.replace("_calculate_size", ""),
                    c.replace("memory_calculate_size", "assign_memory")]
            a = next((x for x in cand if x in self.prog.funcs and x != c), None)
            if a is None:
                tu = self.prog.funcs[c].get("_tu")
                more = [x for x in sorted(self.callers.get(c, ())) if self.prog.funcs[x].get("_tu") == tu and x != c and "calculate_size" not in x
                        and any(r in RAWNAMES for r, _, _ in fname_params(self.prog.funcs[x]))]
                more = [x for x in more if asserts(self.prog.funcs[x], c)] or more
                if not more and c.endswith("workspace_calculate_size") and "cast_workspace" in tu.funcs:
                    more = ["cast_workspace"]
                a = more[0] if len(more) == 1 else None
            yield c, a

    def mult(self, name):
        """every result of the size function(s) called through `name` is a multiple of this"""
        if name in self.prog.funcs:
            fs = [name]
        else:
            fs = [c for c in sorted(self.slots.get(name, ())) if c in self.prog.funcs] or ["?"]
        return min((self.mult1(f) for f in fs), default=1)

    def mult1(self, f):
        if f == "?":
            return 1
        if f not in self._mult:
            if f in self._busy:
                return 8
            self._busy.add(f)
            try:
                fc = self.prog.funcs[f]
                I = Mem(self.prog, self.mult)
                I.frame = 0
                st = State()
                r = I.run_fn(fc, [Pair.arg(None, n, t) for n, t, _ in fname_params(fc)], st)
                self._mult[f] = al_poly(r, self.mult) if isinstance(r, P) else 1
            except Unsupported:
                self._mult[f] = 1
            finally:
                self._busy.discard(f)
        return self._mult[f]

    def req(self, name):
        """alignment that a function taking memory needs for it"""
        if name not in self.prog.funcs:
            fs = [c for c in sorted(self.slots.get(name, ())) if c in self.prog.funcs]
            return max([self.req(f) for f in fs] or [8])
        if name not in self._req:
            self._req[name] = 8
            calc = next((c for c, a in self.pairs() if a == name), None)
            if calc:
                for al in (1, 4):
                    try:
                        if all(r is True for _, r in Pair(self, calc, name).obligations(al)):
                            self._req[name] = al
                            break
                    except Unsupported:
                        break
        return self._req[name]

    def written(self, field):
        """values that the program stores in an integer field of a function's memory argument: [(function, value)]"""
        out = []
        for n, f in sorted(self.prog.funcs.items()):
            if field not in stores(f):
                continue
            I = Mem(self.prog, self.mult)
            I.frame = 0
            st = State()
            I.run_fn(f, [Pair.arg(None, p, t) for p, t, _ in fname_params(f)], st)
            v = st.mem.get((("arg", "mem"), "*." + field, (ZERO,)))
            if isinstance(v, P):
                out.append((n, v))
        return out


def stores(f):
    """fields assigned in a function"""
    out = set()
    def walk(n):
        if n.get("kind") == "BinaryOperator" and n.get("opcode") == "=" and n["inner"][0]["kind"] == "MemberExpr":
            out.add(n["inner"][0]["name"])
        for x in n.get("inner", ()):
            walk(x)
    walk(f)
    return out


def owner(n):
    """structure a member belongs to"""
    t = tstr(n["inner"][0]["type"])
    t = pointee(t) if tkind(t) == "ptr" else t
    return re.sub(r"^struct ", "", t).strip("_ ") + "."


def fills(f, out):
    """function pointers stored in fields: field name -> functions"""
    def strip(n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") or (n["kind"] == "UnaryOperator" and n.get("opcode") == "&"):
            n = n["inner"][0]
        return n

    def walk(n):
        if n.get("kind") == "BinaryOperator" and n.get("opcode") == "=":
            a, b = strip(n["inner"][0]), strip(n["inner"][1])
            if a["kind"] == "MemberExpr" and b["kind"] == "DeclRefExpr" and b["referencedDecl"]["kind"] == "FunctionDecl":
                out.setdefault(owner(a) + a["name"], set()).add(b["referencedDecl"]["name"])
        for x in n.get("inner", ()):
            walk(x)
    walk(f)


def asserts(f, calc):
    """the function compares calc(...) with the end of its block"""
    def walk(n, inside):
        inside = inside or n.get("kind") == "BinaryOperator" and n.get("opcode") in (">=", "<=")
        if n.get("kind") == "DeclRefExpr" and inside and n.get("referencedDecl", {}).get("name") == calc:
            return True
        return any(walk(x, inside) for x in n.get("inner", ()))
    return walk(f, False)


def calls(f):
    out = set()
    def walk(n):
        if isinstance(n, dict):
            if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") == "FunctionDecl":
                out.add(n["referencedDecl"]["name"])
            for x in n.get("inner", ()):
                walk(x)
    walk(f)
    return out


class Pair:
    """X_calculate_size against the function that carves"""
    def __init__(self, sizes, calc, assign, raw=None):
        self.sizes, self.prog, self.calc, self.assign = sizes, sizes.prog, calc, assign
        fa = self.prog.lookup(assign)
        ps = [p for p, _, _ in fname_params(fa)]
        self.raw = raw or next((r for r in RAWNAMES if r in ps), ps[-1])
        self.ren = self.names(calc, assign) if calc else {}

    def names(self, calc, assign):
        """parameters of the size function that have another name in the carving function"""
        ren = {}
        pc = [norm(n) for n, _, _ in fname_params(self.prog.lookup(calc))]
        pa = [norm(n) for n, _, _ in fname_params(self.prog.lookup(assign)) if n != self.raw]
        free = [n for n in pa if n not in pc]
        for n in pc:
            if n not in pa and free:
                ren[n] = free.pop(0)
        return ren

    def arg(self, n, t, rename=None):
        nm = norm(n)
        nm = (rename or {}).get(nm, nm)
        if tkind(t) in ("int", "bool"):
            return P.atom(("ld", ("arg", nm), "", ()))
        return Obj((("arg", nm), "", ()))

    def size(self, inline=False):
        fc = self.prog.lookup(self.calc)
        I = Mem(self.prog, self.sizes.mult, inline)
        I.frame = 0
        vals = [self.arg(n, t, self.ren) for n, t, _ in fname_params(fc)]
        st = State()
        r = I.run_fn(fc, vals, st)
        if not isinstance(r, P):
            raise Unsupported("size is not followed")
        I.final = st
        return r, I

    def carve(self, inline=False, start=None, al=8):
        fa = self.prog.lookup(self.assign)
        I = Mem(self.prog, self.sizes.mult, inline)
        I.frame = 0
        st = State()
        for k, v in (start or {}).items():
            if k[0][0] == "arg":
                st.mem[k] = v
        vals = [RawP(ZERO, al) if n == self.raw else self.arg(n, t) for n, t, _ in fname_params(fa)]
        for i, (n, t, _) in enumerate(fname_params(fa)):
            if n == self.raw and pointee(t) not in ("void", "char", "unsigned char"):
                vals[i] = self.arg(n, t)
                I.rawobj = vals[i].path
        I.run_fn(fa, vals, st)
        top = [v for k, v in st.mem.items() if isinstance(v, RawP) and k[1] == "" and k[0][0] == "var"]
        adv = [position(I, v) for k, v in st.mem.items() if isinstance(v, Obj) and v.off.t and k[1] == "" and k[0][0] == "var"]
        return top + [v for v in adv if v is not None], I

    def obligations(self, al=8):
        """[(name, True | residual text)]; the memory handed over is aligned to al"""
        size, I = self.size()
        start = I.final.mem if self.calc.startswith("external_function") else None
        top, J = self.carve(start=start, al=al)
        ps = {norm(n) for n, _, _ in fname_params(self.prog.lookup(self.assign))}
        sub = {}
        if "mem" in ps and norm(self.raw) != "mem":
            for t in top:
                for a in t.off.atoms():
                    if a[0] == "ld" and a[1] == ("arg", "mem") and a[2].startswith("*.") and "." not in a[2][2:]:
                        vs = self.sizes.written(a[2][2:])
                        if vs and all(v == vs[0][1] for _, v in vs):
                            sub[a] = vs[0][1]

        def known(x):
            for a, v in sub.items():
                x = subst(x, a, v)
            return x
        given = []
        d = lambda f: P.atom(("ld", ("arg", "dims"), "*." + f, (ZERO,)))
        if "gnsf" in self.calc:
            given = [d("nx") - d("nx1"), d("nz") - d("nz1")]
            extra = [P.atom(("ld", ("arg", "opts"), "*.ns", (ZERO,)))]
            given += [g * e for g in given for e in extra]
        out = []
        inl = None
        self.residuals, self.given = [], given
        for t in top:
            if not t.off.t:
                continue
            self.residuals.append((drop(size - known(t.off)), ()))
            r = prove_nonneg(drop(size - known(t.off)), given=given)
            if r is not True and not inl:
                try:
                    inl = (self.size(True)[0], self.carve(True, start=start, al=al)[0])
                except Unsupported:
                    inl = None
            if r is not True and inl:
                r2 = [prove_nonneg(drop(inl[0] - known(u.off)), given=given) for u in inl[1] if u.off.t]
                bad = [x for x in r2 if x is not True]
                r = True if not bad else r
            out.append(("carved memory fits in the size", r if r is True else show(r)))
        for kind, info, (node, path) in J.need:
            under = ONE
            for c in path:
                under = under * known(c)
            if kind == "align":
                need = info[1]
                if info[0].endswith(("assign", "assign_self")) and info[2] < need:
                    need = self.sizes.req(info[0])
                out.append((f"alignment of {info[0]}", True if info[2] >= need else f"{info[2]} where {need} is needed"))
            elif kind == "index":
                key, c, w, loops = info
                r = prove_nonneg(under * known(c.ext - w), loops=loops)
                if r is not True:
                    self.residuals.append((under * known(c.ext - w), loops))
                out.append((f"accesses stay in {key_name(key)}", r if r is True else f"{show(c.ext)} bytes taken, {show(w)} used"))
            elif kind == "room":
                pend, off, dd, loops = info
                e = self.expected(pend)
                dd = known(dd)
                r = prove_nonneg(under * drop(dd - e), loops=loops)
                if r is not True:
                    self.residuals.append((under * drop(dd - e), loops))
                out.append((f"memory handed to {pend[0]}", r if r is True else f"{show(dd)} bytes reserved, {show(e)} needed"))
        self.J, self.I = J, I
        return out

    def expected(self, pend):
        """size a callee that takes memory needs, as a contract call"""
        name, who, args = pend[:3]
        if name.startswith("d_") and name.endswith("_create"):
            return P.atom(("call", name[:-6] + "memsize", args[:-1]))
        new = re.sub(r"assign(_self)?$", r"calculate_size\1", name)
        if who is not None:
            kind, (root, path, idx), off = who
            who = (kind, (root, path[:len(path) - len(name.split('.')[-1])] + new.split('.')[-1], idx), off)
            return P.atom(("call", new, (who,) + args))
        if name in self.prog.funcs and new in self.prog.funcs:
            pa = [norm(n) for n, _, _ in fname_params(self.prog.funcs[name])]
            pc = [norm(n) for n, _, _ in fname_params(self.prog.funcs[new])]
            q = Pair(self.sizes, new, name)
            pa2 = [n for n in pa if n != norm(q.raw)]
            args = tuple(args[pa2.index(q.ren.get(n, n))] for n in pc if q.ren.get(n, n) in pa2)
        return P.atom(("call", new, args))


def drop(p):
    """calls of functions without parameters: arguments do not matter"""
    r = ZERO
    for m, c in p.t.items():
        q = P.c(c)
        for a in m:
            if a[0] == "call" and a[1] in PURE:
                a = ("call", a[1], a[2][:1])
            q = q * P.atom(a)
        r = r + q
    return r


def key_name(key):
    return (key[1].split(".")[-1].strip("*") or "object") if isinstance(key, tuple) and len(key) == 3 else "object"


# ---------------------------------------------------------------- concrete evaluation
class NoValue(Exception):
    pass


def value(p, env, bound=()):
    """value of a polynomial; env(kind, key, args) gives the value of what is free"""
    if not isinstance(p, P):
        return conc(p, env, bound)
    r = 0
    for m, c in p.t.items():
        x = c
        for a in m:
            x *= atom_value(a, env, bound)
            if not x:
                break
        r += x
    return r


def conc(v, env, bound):
    if isinstance(v, P):
        return value(v, env, bound)
    if isinstance(v, tuple):
        return tuple(conc(x, env, bound) for x in v)
    return v


def atom_value(a, env, bound):
    k = a[0]
    if k == "ld":
        return env("ld", conc(a[1:], env, bound), None)
    if k == "sz":
        e = layout(a[1].strip())
        return e[0] if e else env("sz", a[1], None)
    if k == "round":
        x = value(a[2], env, bound)
        return -(-x // a[1]) * a[1]
    if k == "sum":
        return sum(value(a[1], env, ((a[2], j),) + bound) for j in range(value(a[3], env, bound)))
    if k in ("lv", "var"):
        return env("var", a, None)
    if k == "bv":
        for lv, j in bound:
            if lv == a[1]:
                return j
        raise NoValue()
    if k == "if":
        op, x = a[1]
        if isinstance(x, P):
            x = value(x, env, bound)
            return int({"nz": x != 0, "lt": x < 0, "eq": x == 0}[op])
        return env("if", (op, conc(x, env, bound)), None)
    if k == "call":
        ar = conc(a[2], env, bound)
        if a[1] == "blasfeo_memsize_dvec":
            return -(-8 * ar[0] // 64) * 64
        if a[1] == "blasfeo_memsize_dmat":
            return -(-8 * ar[0] // 64) * 64 * ar[1] + 64 * (-(-min(ar) // 8))
        return env("call", a[1], ar)
    if k in ("/", "%") and len(a) == 3:
        x, y = value(a[1], env, bound), value(a[2], env, bound)
        if y == 0:
            raise NoValue()
        return int(x / y) if k == "/" else x - y * int(x / y)
    raise NoValue()


def counterexample(pair, tries=400, seed=1):
    """dimensions for which the size is smaller than what is handed out, or None"""
    import random, zlib
    for p, loops in pair.residuals:
        for t in range(tries):
            rng = random.Random(f"{seed}/{pair.calc}/{t}")
            memo, style = {}, rng.randint(0, 2)

            def env(kind, key, args):
                k = (kind, key, args)
                if k not in memo:
                    if kind == "sz":
                        v = 8 * rng.randint(1, 20)
                    elif kind == "call":
                        m = al_atom(("call", key), pair.sizes.mult)
                        v = m * rng.randint(1, 30) if m > 1 else rng.choice([0, 1, 2, 5, 20])
                    elif kind == "var":
                        raise NoValue()
                    elif kind == "if":
                        v = rng.randint(0, 1)
                    elif key[1].endswith(".N") or key[0] == ("arg", "N"):
                        v = rng.choice([1, 2, 3, 4, 25])
                    else:
                        v = rng.choice([[0, 1, 2, 3, 5], [0, 0, 0, 7, 20], [1, 2, 30]][style])
                    memo[k] = v
                return memo[k]
            try:
                if any(value(g, env) < 0 for g in pair.given):
                    continue
                for var, lo, hi in loops:
                    a, b = value(lo, env), value(hi, env)
                    if a >= b:
                        raise NoValue()
                    memo["var", var, None] = rng.choice([a, b - 1, rng.randint(a, b - 1)])
                x = value(p, env)
            except (NoValue, ZeroDivisionError, TypeError, KeyError, Unsupported):
                continue
            if x < 0:
                return -x, {f"{k[0]} {k[1]} {k[2] or ''}"[:200]: v for k, v in memo.items()}
    return None
