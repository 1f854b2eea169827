"""Contracts of functions outside the project (assumed): BLASFEO, libc strings, HPIPM sizes.

A contract is python code acting on the symbolic state: contract(it, st, args, node) -> result.
Vectors and matrices are their contents: vector v, element i is the location v.pa[i]; matrix A,
element (i,j) is the location A.pA[i,j].
"""
import z3
from .core import Unsupported
from .csym import I, R, IV, Ptr, Raw, Str, NULL, FPtr, FRef, Rec, Entry, num, real, is_num, truth, mentions, UNINIT, State

C = {}


def contract(*names):
    def d(f):
        for n in names:
            C[n] = f
        return f
    return d


# ------------------------------------------------------------------ vectors
class Vec:
    """view of the contents of a struct blasfeo_dvec"""

    def __init__(self, it, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported(f"vector argument {p!r}")
        key, idx = p.loc()
        self.skey, self.sidx = key, idx
        pa = it.load(st, key + ("pa",), idx, "ptr")
        if not isinstance(pa, Ptr):
            raise Unsupported(f"vector data {pa!r}")
        self.it, self.pa = it, pa
        self.key, self.idx, self.off = pa.key + ("[]",), pa.idx, pa.off

    def get(self, st, i):
        return real(self.it.load(st, self.key, self.idx + (z3.simplify(self.off + i),), "float"))

    def put(self, st, i, v):
        self.it.write(st, self.key, self.idx + (z3.simplify(self.off + i),), z3.simplify(real(v)))

    def put_range(self, st, lo, n, f):
        """elements lo..lo+n-1 become f(0..n-1); f is evaluated on the state before the write"""
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 0:
            return
        if z3.is_int_value(n) and n.as_long() == 1:
            v = f(I(0))
            self.it.write(st, self.key, self.idx + (z3.simplify(self.off + lo),), z3.simplify(real(v) if getattr(self, "kind", "float") == "float" else num(v)))
            return
        iv = IV[len(self.idx)]
        rel = z3.simplify(iv - self.off - lo)
        g = z3.And(rel >= 0, rel < n)
        with self.it.local([g]):
            v = f(rel)
        self.it.write_range(st, self.key, self.idx, 1, z3.simplify(g), z3.simplify(real(v)))


class Arr(Vec):
    """view of a C array of numbers (double* or int*)"""

    def __init__(self, it, p, kind="float"):
        if not isinstance(p, Ptr):
            raise Unsupported(f"array argument {p!r}")
        self.it, self.pa, self.kind = it, p, kind
        if p.direct:
            self.key, self.idx, self.off = p.key, p.idx, None
        else:
            self.key, self.idx, self.off = p.key + ("[]",), p.idx, p.off

    def get(self, st, i):
        if self.off is None:
            return self.it.load(st, self.key, self.idx, self.kind)
        r = self.it.load(st, self.key, self.idx + (z3.simplify(self.off + i),), self.kind)
        return real(r) if self.kind == "float" else num(r)

    def put(self, st, i, v):
        if self.off is None:
            return self.it.write(st, self.key, self.idx, v)
        self.it.write(st, self.key, self.idx + (z3.simplify(self.off + i),), v)

    def put_range(self, st, lo, n, f):
        n = z3.simplify(n)
        if self.off is None:
            # one element at most
            v = f(I(0))
            if z3.is_int_value(n) and n.as_long() == 1:
                self.it.write(st, self.key, self.idx, v)
            elif not (z3.is_int_value(n) and n.as_long() <= 0):
                raise Unsupported("range write through a pointer to a scalar")
            return
        if z3.is_int_value(n) and n.as_long() <= 0:
            return
        iv = IV[len(self.idx)]
        rel = z3.simplify(iv - self.off - lo)
        g = z3.And(rel >= 0, rel < n)
        with self.it.local([g]):
            v = f(rel)
        self.it.write_range(st, self.key, self.idx, 1, z3.simplify(g), z3.simplify(real(v) if self.kind == "float" else num(v)))


class Mat:
    def __init__(self, it, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported(f"matrix argument {p!r}")
        key, idx = p.loc()
        pa = it.load(st, key + ("pA",), idx, "ptr")
        if not isinstance(pa, Ptr):
            raise Unsupported(f"matrix data {pa!r}")
        self.it = it
        self.key, self.idx = pa.key + ("[,]",), pa.idx + (pa.off,)

    def get(self, st, i, j):
        return real(self.it.load(st, self.key, self.idx + (z3.simplify(i), z3.simplify(j)), "float"))

    def put(self, st, i, j, v):
        self.it.write(st, self.key, self.idx + (z3.simplify(i), z3.simplify(j)), z3.simplify(real(v)))

    def put_block(self, st, i0, j0, m, n, f, extra=None):
        a, b = IV[len(self.idx)], IV[len(self.idx) + 1]
        ri, rj = z3.simplify(a - i0), z3.simplify(b - j0)
        g = z3.And(ri >= 0, ri < m, rj >= 0, rj < n)
        if extra is not None:
            g = z3.And(g, extra(ri, rj))
        with self.it.local([g]):
            v = f(ri, rj)
        self.it.write_range(st, self.key, self.idx, 2, z3.simplify(g), z3.simplify(real(v)))


def snap(st):
    return st.copy()


def S(it, n, f):
    """sum over j of f(j), 0 <= j < n"""
    j = it.fresh("j")
    with it.local([j >= 0, j < n]):
        b = f(j)
    return it.sum_term(z3.simplify(real(b)), j, I(0), n)


@contract("blasfeo_dveccp")
def _(it, st, a, n):
    m, x, xi, y, yi = a
    x, y, s = Vec(it, st, x), Vec(it, st, y), snap(st)
    y.put_range(st, num(yi), num(m), lambda k: x.get(s, xi + k))


@contract("blasfeo_dvecse")
def _(it, st, a, n):
    m, al, x, xi = a
    Vec(it, st, x).put_range(st, num(xi), num(m), lambda k: real(al))


@contract("blasfeo_dvecsc")
def _(it, st, a, n):
    m, al, x, xi = a
    x, s = Vec(it, st, x), snap(st)
    x.put_range(st, num(xi), num(m), lambda k: real(al) * x.get(s, xi + k))


@contract("blasfeo_dveccpsc")
def _(it, st, a, n):
    m, al, x, xi, y, yi = a
    x, y, s = Vec(it, st, x), Vec(it, st, y), snap(st)
    y.put_range(st, num(yi), num(m), lambda k: real(al) * x.get(s, xi + k))


@contract("blasfeo_dvecad")
def _(it, st, a, n):
    m, al, x, xi, y, yi = a
    x, y, s = Vec(it, st, x), Vec(it, st, y), snap(st)
    y.put_range(st, num(yi), num(m), lambda k: y.get(s, yi + k) + real(al) * x.get(s, xi + k))


@contract("blasfeo_daxpy")
def _(it, st, a, n):
    m, al, x, xi, y, yi, z, zi = a
    x, y, z, s = Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: real(al) * x.get(s, xi + k) + y.get(s, yi + k))


@contract("blasfeo_daxpby")
def _(it, st, a, n):
    m, al, x, xi, be, y, yi, z, zi = a
    x, y, z, s = Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: real(al) * x.get(s, xi + k) + real(be) * y.get(s, yi + k))


@contract("blasfeo_dvecmul")
def _(it, st, a, n):
    m, x, xi, y, yi, z, zi = a
    x, y, z, s = Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: x.get(s, xi + k) * y.get(s, yi + k))


@contract("blasfeo_dvecmulacc")
def _(it, st, a, n):
    m, x, xi, y, yi, z, zi = a
    x, y, z, s = Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: z.get(s, zi + k) + x.get(s, xi + k) * y.get(s, yi + k))


@contract("blasfeo_ddot")
def _(it, st, a, n):
    m, x, xi, y, yi = a
    x, y, s = Vec(it, st, x), Vec(it, st, y), snap(st)
    return S(it, num(m), lambda k: x.get(s, xi + k) * y.get(s, yi + k))


@contract("blasfeo_dvecnrm_inf")
def _(it, st, a, n):
    m, x, xi, out = a
    x, s = Vec(it, st, x), snap(st)
    v = norm_inf(it, num(m), lambda k: x.get(s, xi + k))
    key, idx = out.loc()
    it.write(st, key, idx, v)


def norm_inf(it, m, f):
    k = it.fresh("j")
    with it.local([k >= 0, k < m]):
        b = f(k)
        if not it.valid(b >= 0):
            b = z3.If(b >= 0, b, -b)
    return it.max_term(z3.simplify(b), k, I(0), m, R(0))


@contract("blasfeo_dvecin1")
def _(it, st, a, n):
    v, x, xi = a
    Vec(it, st, x).put(st, num(xi), real(v))


@contract("blasfeo_dvecex1")
def _(it, st, a, n):
    x, xi = a
    return Vec(it, st, x).get(st, num(xi))


@contract("blasfeo_dgein1")
def _(it, st, a, n):
    v, A, i, j = a
    Mat(it, st, A).put(st, num(i), num(j), real(v))


@contract("blasfeo_dgeex1")
def _(it, st, a, n):
    A, i, j = a
    return Mat(it, st, A).get(st, num(i), num(j))


@contract("blasfeo_pack_dvec")
def _(it, st, a, n):
    m, x, xi, y, yi = a
    if not (z3.is_int_value(z3.simplify(num(xi))) and z3.simplify(num(xi)).as_long() == 1):
        raise Unsupported("pack_dvec with a stride")
    x, y, s = Arr(it, x), Vec(it, st, y), snap(st)
    y.put_range(st, num(yi), num(m), lambda k: x.get(s, k))


@contract("blasfeo_unpack_dvec")
def _(it, st, a, n):
    m, x, xi, y, yi = a
    if not (z3.is_int_value(z3.simplify(num(yi))) and z3.simplify(num(yi)).as_long() == 1):
        raise Unsupported("unpack_dvec with a stride")
    x, y, s = Vec(it, st, x), Arr(it, y), snap(st)
    y.put_range(st, I(0), num(m), lambda k: x.get(s, xi + k))


# sparse vector operations: idx need not be injective for extraction; for in/ad it must be,
# which is recorded as a precondition obligation by the caller's check
@contract("blasfeo_dvecex_sp")
def _(it, st, a, n):
    m, al, idx, x, xi, z, zi = a
    ix, x, z, s = Arr(it, idx, "int"), Vec(it, st, x), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: real(al) * x.get(s, xi + ix.get(s, k)))


def _sparse(it, st, a, acc):
    m, al, x, xi, idx, z, zi = a
    x, ix, z, s = Vec(it, st, x), Arr(it, idx, "int"), Vec(it, st, z), snap(st)
    # z[zi+idx[k]] (+)= al*x[xi+k]: the last k that addresses the element
    iv = IV[len(z.idx)]
    rel = z3.simplify(iv - z.off - zi)
    k = it.fresh("j")
    mm = num(m)
    with it.local([k >= 0, k < mm]):
        pred = ix.get(s, k) == rel
    last = it.last_term(z3.simplify(pred), k, I(0), mm)
    g = z3.And(last >= 0, last < mm, z3.substitute(pred, (k, last)))
    if acc:
        it.assumed.add("index arrays (bounds, slacks) passed to blasfeo_dvecad_sp contain no repeated index")
    it.keep.append(last)
    with it.local([g]):
        v = real(al) * x.get(s, xi + last)
        if acc:
            v = z.get(s, zi + rel) + v
    it.write_range(st, z.key, z.idx, 1, z3.simplify(g), z3.simplify(v))


@contract("blasfeo_dvecad_sp")
def _(it, st, a, n):
    _sparse(it, st, a, True)


@contract("blasfeo_dvecin_sp")
def _(it, st, a, n):
    _sparse(it, st, a, False)


# ------------------------------------------------------------------ matrices
@contract("blasfeo_dgese")
def _(it, st, a, n):
    m, nn, al, A, i, j = a
    Mat(it, st, A).put_block(st, num(i), num(j), num(m), num(nn), lambda p, q: real(al))


@contract("blasfeo_dgecp")
def _(it, st, a, n):
    m, nn, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(m), num(nn), lambda p, q: A.get(s, ai + p, aj + q))


@contract("blasfeo_dgecpsc")
def _(it, st, a, n):
    m, nn, al, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(m), num(nn), lambda p, q: real(al) * A.get(s, ai + p, aj + q))


@contract("blasfeo_dgesc")
def _(it, st, a, n):
    m, nn, al, A, ai, aj = a
    A, s = Mat(it, st, A), snap(st)
    A.put_block(st, num(ai), num(aj), num(m), num(nn), lambda p, q: real(al) * A.get(s, ai + p, aj + q))


@contract("blasfeo_dgead")
def _(it, st, a, n):
    m, nn, al, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(m), num(nn), lambda p, q: B.get(s, bi + p, bj + q) + real(al) * A.get(s, ai + p, aj + q))


@contract("blasfeo_dgetr")
def _(it, st, a, n):
    m, nn, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(nn), num(m), lambda p, q: A.get(s, ai + q, aj + p))


@contract("blasfeo_dtrcp_l")
def _(it, st, a, n):
    m, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(m), num(m), lambda p, q: A.get(s, ai + p, aj + q), extra=lambda p, q: p >= q)


@contract("blasfeo_dtrtr_l")
def _(it, st, a, n):
    m, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(m), num(m), lambda p, q: A.get(s, ai + q, aj + p), extra=lambda p, q: q >= p)


@contract("blasfeo_dtrtr_u")
def _(it, st, a, n):
    m, A, ai, aj, B, bi, bj = a
    A, B, s = Mat(it, st, A), Mat(it, st, B), snap(st)
    B.put_block(st, num(bi), num(bj), num(m), num(m), lambda p, q: A.get(s, ai + q, aj + p), extra=lambda p, q: q <= p)


@contract("blasfeo_ddiare")
def _(it, st, a, n):
    m, al, A, ai, aj = a
    A, s = Mat(it, st, A), snap(st)
    A.put_block(st, num(ai), num(aj), num(m), num(m), lambda p, q: A.get(s, ai + p, aj + q) + real(al), extra=lambda p, q: p == q)


@contract("blasfeo_ddiain")
def _(it, st, a, n):
    m, al, x, xi, A, ai, aj = a
    A, x, s = Mat(it, st, A), Vec(it, st, x), snap(st)
    A.put_block(st, num(ai), num(aj), num(m), num(m), lambda p, q: real(al) * x.get(s, xi + p), extra=lambda p, q: p == q)


@contract("blasfeo_drowex")
def _(it, st, a, n):
    m, al, A, ai, aj, x, xi = a
    A, x, s = Mat(it, st, A), Vec(it, st, x), snap(st)
    x.put_range(st, num(xi), num(m), lambda k: real(al) * A.get(s, num(ai), aj + k))


@contract("blasfeo_drowin")
def _(it, st, a, n):
    m, al, x, xi, A, ai, aj = a
    A, x, s = Mat(it, st, A), Vec(it, st, x), snap(st)
    A.put_block(st, num(ai), num(aj), I(1), num(m), lambda p, q: real(al) * x.get(s, xi + q))


@contract("blasfeo_drowsc")
def _(it, st, a, n):
    m, al, A, ai, aj = a
    A, s = Mat(it, st, A), snap(st)
    A.put_block(st, num(ai), num(aj), I(1), num(m), lambda p, q: real(al) * A.get(s, num(ai), aj + q))


@contract("blasfeo_dcolex")
def _(it, st, a, n):
    m, A, ai, aj, x, xi = a
    A, x, s = Mat(it, st, A), Vec(it, st, x), snap(st)
    x.put_range(st, num(xi), num(m), lambda k: A.get(s, ai + k, num(aj)))


@contract("blasfeo_dcolin")
def _(it, st, a, n):
    m, x, xi, A, ai, aj = a
    A, x, s = Mat(it, st, A), Vec(it, st, x), snap(st)
    A.put_block(st, num(ai), num(aj), num(m), I(1), lambda p, q: x.get(s, xi + p))


@contract("blasfeo_dcolsc")
def _(it, st, a, n):
    m, al, A, ai, aj = a
    A, s = Mat(it, st, A), snap(st)
    A.put_block(st, num(ai), num(aj), num(m), I(1), lambda p, q: real(al) * A.get(s, ai + p, num(aj)))


def _pk(tr, pack):
    def f(it, st, a, n):
        if pack:
            m, nn, A, lda, B, bi, bj = a
            A, B, s = Arr(it, A), Mat(it, st, B), snap(st)
            if tr:
                B.put_block(st, num(bi), num(bj), num(nn), num(m), lambda p, q: A.get(s, q + num(lda) * p))
            else:
                B.put_block(st, num(bi), num(bj), num(m), num(nn), lambda p, q: A.get(s, p + num(lda) * q))
        else:
            m, nn, A, ai, aj, B, ldb = a
            A, B, s = Mat(it, st, A), Arr(it, B), snap(st)
            # column-major array: element p + ldb*q, decoded with div and mod
            ld = num(ldb)
            iv = IV[len(B.idx)]
            rel = z3.simplify(iv - B.off)
            rows, cols = (num(nn), num(m)) if tr else (num(m), num(nn))
            p, q = it.fresh("p"), it.fresh("q")
            P = z3.Function("row_of", z3.IntSort(), z3.IntSort(), z3.IntSort())(rel, ld)
            Q = z3.Function("col_of", z3.IntSort(), z3.IntSort(), z3.IntSort())(rel, ld)
            g = z3.And(P >= 0, P < rows, Q >= 0, Q < cols, rel == P + ld * Q)
            with it.local([g]):
                v = A.get(s, ai + Q, aj + P) if tr else A.get(s, ai + P, aj + Q)
            it.write_range(st, B.key, B.idx, 1, g, z3.simplify(v))
    return f


C["blasfeo_pack_dmat"] = _pk(False, True)
C["blasfeo_pack_tran_dmat"] = _pk(True, True)
C["blasfeo_unpack_dmat"] = _pk(False, False)
C["blasfeo_unpack_tran_dmat"] = _pk(True, False)


def _gemv(tr):
    def f(it, st, a, n):
        m, nn, al, A, ai, aj, x, xi, be, y, yi, z, zi = a
        A, x, y, z, s = Mat(it, st, A), Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
        rows, cols = (num(nn), num(m)) if tr else (num(m), num(nn))

        def el(k):
            d = S(it, cols, (lambda j: A.get(s, ai + j, aj + k) * x.get(s, xi + j)) if tr else (lambda j: A.get(s, ai + k, aj + j) * x.get(s, xi + j)))
            r = real(al) * d
            b = z3.simplify(real(be))
            if z3.is_rational_value(b) and b.as_fraction() == 0:
                return r
            return r + b * y.get(s, yi + k)
        z.put_range(st, num(zi), rows, el)
    return f


C["blasfeo_dgemv_n"] = _gemv(False)
C["blasfeo_dgemv_t"] = _gemv(True)


@contract("blasfeo_dgemv_d")
def _(it, st, a, n):
    m, al, A, ai, x, xi, be, y, yi, z, zi = a
    A, x, y, z, s = Vec(it, st, A), Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: real(al) * A.get(s, ai + k) * x.get(s, xi + k) + real(be) * y.get(s, yi + k))


@contract("blasfeo_dsymv_l")
def _(it, st, a, n):
    m, al, A, ai, aj, x, xi, be, y, yi, z, zi = a
    A, x, y, z, s = Mat(it, st, A), Vec(it, st, x), Vec(it, st, y), Vec(it, st, z), snap(st)
    mm = num(m)

    def el(k):
        # lower triangle read, mirrored
        d = S(it, mm, lambda j: z3.If(k >= j, A.get(s, ai + k, aj + j), A.get(s, ai + j, aj + k)) * x.get(s, xi + j))
        r = real(al) * d
        b = z3.simplify(real(be))
        if z3.is_rational_value(b) and b.as_fraction() == 0:
            return r
        return r + b * y.get(s, yi + k)
    z.put_range(st, num(zi), mm, el)


@contract("blasfeo_dtrmv_ltn")
def _(it, st, a, n):
    m, A, ai, aj, x, xi, z, zi = a
    A, x, z, s = Mat(it, st, A), Vec(it, st, x), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: S(it, num(m), lambda j: z3.If(j >= k, A.get(s, ai + j, aj + k), R(0)) * x.get(s, xi + j)))


@contract("blasfeo_dtrmv_lnn")
def _(it, st, a, n):
    m, A, ai, aj, x, xi, z, zi = a
    A, x, z, s = Mat(it, st, A), Vec(it, st, x), Vec(it, st, z), snap(st)
    z.put_range(st, num(zi), num(m), lambda k: S(it, num(m), lambda j: z3.If(j <= k, A.get(s, ai + k, aj + j), R(0)) * x.get(s, xi + j)))


def _gemm(ta, tb, lower=False):
    def f(it, st, a, n):
        m, nn, k, al, A, ai, aj, B, bi, bj, be, Cc, ci, cj, D, di, dj = a
        A, B, Cc, D, s = Mat(it, st, A), Mat(it, st, B), Mat(it, st, Cc), Mat(it, st, D), snap(st)

        def el(p, q):
            d = S(it, num(k), lambda l: (A.get(s, ai + l, aj + p) if ta else A.get(s, ai + p, aj + l)) * (B.get(s, bi + q, bj + l) if tb else B.get(s, bi + l, bj + q)))
            r = real(al) * d
            b = z3.simplify(real(be))
            if z3.is_rational_value(b) and b.as_fraction() == 0:
                return r
            return r + b * Cc.get(s, ci + p, cj + q)
        D.put_block(st, num(di), num(dj), num(m), num(nn), el, extra=(lambda p, q: p >= q) if lower else None)
    return f


C["blasfeo_dgemm_nn"] = _gemm(False, False)
C["blasfeo_dgemm_nt"] = _gemm(False, True)
C["blasfeo_dgemm_tn"] = _gemm(True, False)
C["blasfeo_dgemm_tt"] = _gemm(True, True)


@contract("blasfeo_dsyrk_ln")
def _(it, st, a, n):
    m, k, al, A, ai, aj, B, bi, bj, be, Cc, ci, cj, D, di, dj = a
    _gemm(False, True, True)(it, st, [m, m, k, al, A, ai, aj, B, bi, bj, be, Cc, ci, cj, D, di, dj], n)


C["blasfeo_dsyrk_ln_mn"] = _gemm(False, True, True)


@contract("blasfeo_dgemm_nd")
def _(it, st, a, n):
    m, nn, al, A, ai, aj, B, bi, be, Cc, ci, cj, D, di, dj = a
    A, B, Cc, D, s = Mat(it, st, A), Vec(it, st, B), Mat(it, st, Cc), Mat(it, st, D), snap(st)

    def el(p, q):
        r = real(al) * A.get(s, ai + p, aj + q) * B.get(s, bi + q)
        b = z3.simplify(real(be))
        return r if z3.is_rational_value(b) and b.as_fraction() == 0 else r + b * Cc.get(s, ci + p, cj + q)
    D.put_block(st, num(di), num(dj), num(m), num(nn), el)


@contract("blasfeo_dgemm_dn")
def _(it, st, a, n):
    m, nn, al, A, ai, B, bi, bj, be, Cc, ci, cj, D, di, dj = a
    A, B, Cc, D, s = Vec(it, st, A), Mat(it, st, B), Mat(it, st, Cc), Mat(it, st, D), snap(st)

    def el(p, q):
        r = real(al) * A.get(s, ai + p) * B.get(s, bi + p, bj + q)
        b = z3.simplify(real(be))
        return r if z3.is_rational_value(b) and b.as_fraction() == 0 else r + b * Cc.get(s, ci + p, cj + q)
    D.put_block(st, num(di), num(dj), num(m), num(nn), el)


@contract("blasfeo_dtrmm_rlnn")
def _(it, st, a, n):
    m, nn, al, A, ai, aj, B, bi, bj, D, di, dj = a
    A, B, D, s = Mat(it, st, A), Mat(it, st, B), Mat(it, st, D), snap(st)
    # D = al * B * tril(A)
    D.put_block(st, num(di), num(dj), num(m), num(nn),
                lambda p, q: real(al) * S(it, num(nn), lambda l: B.get(s, bi + p, bj + l) * z3.If(l >= q, A.get(s, ai + l, aj + q), R(0))))


@contract("vf_dmatel")
def _(it, st, a, n):
    A, i, j = a
    M = Mat(it, st, A)
    return Ptr(M.key, M.idx + (z3.simplify(num(i)), z3.simplify(num(j))), direct=True)


# ------------------------------------------------------------------ strings
@contract("strcmp")
def _(it, st, a, n):
    x, y = it.get_string(a[0], st), it.get_string(a[1], st)
    return I(0) if x == y else I(1)


@contract("strncmp")
def _(it, st, a, n):
    m = z3.simplify(num(a[2]))
    if not z3.is_int_value(m):
        raise Unsupported("strncmp length")
    m = m.as_long()
    x, y = it.get_string(a[0], st), it.get_string(a[1], st)
    return I(0) if x[:m] == y[:m] else I(1)


@contract("strlen")
def _(it, st, a, n):
    return I(len(it.get_string(a[0], st)))


@contract("strchr")
def _(it, st, a, n):
    c = z3.simplify(num(a[1])).as_long()
    x = a[0]
    if not isinstance(x, Str):
        raise Unsupported("strchr on a buffer")
    j = x.text().find(chr(c))
    return NULL if j < 0 else Str(x.s, x.off + j)


@contract("strcpy")
def _(it, st, a, n):
    it.store_string(a[0], it.get_string(a[1], st), st)
    return a[0]


@contract("snprintf", "sprintf")
def _(it, st, a, n):
    """formats made of %s, %d with known values only"""
    args = list(a[2:]) if n["inner"][0]["inner"][0]["referencedDecl"]["name"] == "snprintf" else list(a[1:])
    fmt = it.get_string(args.pop(0), st)
    import re
    out = ""
    for part in re.split(r"(%[a-z]+)", fmt):
        if part == "%s":
            out += it.get_string(args.pop(0), st)
        elif part in ("%d", "%i"):
            v = z3.simplify(num(args.pop(0)))
            if not z3.is_int_value(v):
                raise Unsupported("formatting a symbolic number")
            out += str(v.as_long())
        else:
            out += part
    it.store_string(a[0], out, st)
    return I(len(out))
