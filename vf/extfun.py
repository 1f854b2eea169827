"""Abstract external (CasADi) functions for C contracts.

A function of the model is opaque to the C code. In the proof, element e of its output o is f_o(old(e), in_0(e), ...)
for an uninterpreted f_o (in_i(e) = the i-th argument, at e for vectors, its value for scalars; for matrix outputs at
the column): every output value is possible, and a wrong argument, offset or order is visible. For native execution a
Python callback implements   f_o = 2 old(e) + sum_i w(o, i) in_i(e)   with pairwise different weights. Outputs are written in the dimensions given by the table of the contract."""
import ctypes
import z3
from .core import Unsupported
from .csym import I, R, num, real, Ptr
from .contracts import Vec, Mat, Arr, snap

COLMAJ, DMAT, DVEC, COLMAJ_ARGS, DMAT_ARGS, DVEC_ARGS, IGNORE = range(7)
IP, PP, DP = ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_double)


def weight(o, i):
    return (i + 1) * (o + 2) + i * i


def combine(o, old, ins):
    """the value of an element of output o for the argument values ins"""
    r = 2 * old
    for i, x in enumerate(ins):
        r = r + weight(o, i) * x
    return r


def apply(name, o, old, ins):
    """the same as an uninterpreted function: the proof holds for every function of the model"""
    f = z3.Function(f"ext_{name}_{o}", *[z3.RealSort()] * (len(ins) + 2))
    return f(*[real(x) for x in (old, *ins)])


class ExtFun:
    """name -> (number of inputs, [(kind, dims...)][, {input: dim}]) ; dims are names of fields of the dims structure;
    an input with a dim is read as 0 from there on (needed where an output is longer than the input is)"""

    def __init__(self, table, dims=lambda it, st, f: None):
        self.table, self.dims = table, dims
        self.D = {}
        self.indirect = dict(evaluate=self.symbolic)
        self.callbacks = {n + ".evaluate": self._native(n) for n in table}

    # ---------------------------------------------------------------- symbolic
    def symbolic(self, it, st, f, vals, n):
        names = [k for k in f.key if k in self.table]
        if not names:
            raise Unsupported(f"call of {'.'.join(f.key)}")
        nin, outs, lens = (self.table[names[-1]] + ({},))[:3]
        el = lambda p, k, kind: it.load(st, p.key + ("[]",), p.idx + (z3.simplify(p.off + k),), kind)
        s = snap(st)
        ins = []
        for k in range(nin):
            t = z3.simplify(num(el(vals[1], k, "int")))
            p = el(vals[2], k, "ptr")
            if not z3.is_int_value(t) or not isinstance(p, Ptr):
                raise Unsupported("argument of an external function")
            t = t.as_long()
            if t == DVEC:
                v = Vec(it, st, p)
                ins.append(lambda e, v=v: v.get(s, e))
            elif t == DVEC_ARGS:
                key, idx = p.loc()
                v = Vec(it, st, it.load(st, key + ("x",), idx, "ptr"))
                xi = num(it.load(st, key + ("xi",), idx, "int"))
                ins.append(lambda e, v=v, xi=xi: v.get(s, xi + e))
            elif t == COLMAJ:
                a = Arr(it, p)
                ins.append(lambda e, a=a: a.get(s, I(0)))
            else:
                raise Unsupported(f"argument type {t} of an external function")
            if k in lens:
                ins[-1] = (lambda e, g=ins[-1], n_=self.dims(it, st, lens[k]): z3.If(e < n_, g(e), R(0)))
        res = []
        for o, spec in enumerate(outs):
            t = z3.simplify(num(el(vals[3], o, "int")))
            want = {"vec": DVEC, "mat": DMAT, "scalar": COLMAJ, "vecargs": DVEC_ARGS, "matargs": DMAT_ARGS}[spec[0]]
            if not z3.is_int_value(t) or t.as_long() != want:
                raise Unsupported("output type of an external function")
            p = el(vals[4], o, "ptr")
            d = [self.dims(it, st, f_) for f_ in spec[1:]]
            if spec[0] in ("vec", "vecargs"):
                off = I(0)
                if spec[0] == "vecargs":
                    key, idx = p.loc()
                    p, off = it.load(st, key + ("x",), idx, "ptr"), num(it.load(st, key + ("xi",), idx, "int"))
                v = Vec(it, st, p)
                res.append(lambda o=o, v=v, d=d, off=off: v.put_range(st, off, d[0], lambda e: apply(names[-1], o, v.get(s, off + e), [x(e) for x in ins])))
            elif spec[0] in ("mat", "matargs"):
                r0 = c0 = I(0)
                if spec[0] == "matargs":
                    key, idx = p.loc()
                    p, r0, c0 = it.load(st, key + ("A",), idx, "ptr"), num(it.load(st, key + ("ai",), idx, "int")), num(it.load(st, key + ("aj",), idx, "int"))
                m = Mat(it, st, p)
                res.append(lambda o=o, m=m, d=d, r0=r0, c0=c0: m.put_block(st, r0, c0, d[0], d[1], lambda r, c: apply(names[-1], o, m.get(s, r0 + r, c0 + c), [x(c) for x in ins])))
            else:
                a = Arr(it, p)
                res.append(lambda o=o, a=a: a.put(st, I(0), z3.simplify(real(apply(names[-1], o, a.get(s, I(0)), [x(I(0)) for x in ins])))))
        for w in res:
            w()
        return I(0)

    # ---------------------------------------------------------------- native
    def _native(self, name):
        nin, outs, lens = (self.table[name] + ({},))[:3]

        def pa(p):
            return ctypes.cast(ctypes.cast(p, PP)[1], DP)

        @ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * 5)
        def go(fun, ti, in_, to, out):
            ti, to, in_, out = ctypes.cast(ti, IP), ctypes.cast(to, IP), ctypes.cast(in_, PP), ctypes.cast(out, PP)
            ins, bad = [], False
            for k in range(nin):
                p = in_[k]
                if ti[k] == DVEC:
                    ins.append(lambda e, v=pa(p): v[e])
                elif ti[k] == DVEC_ARGS:
                    ins.append(lambda e, v=pa(ctypes.cast(p, PP)[0]), xi=ctypes.cast(p + 8, IP)[0]: v[xi + e])
                elif ti[k] == COLMAJ:
                    ins.append(lambda e, v=ctypes.cast(p, DP): v[0])
                else:
                    bad = True
                if k in lens and not bad:
                    ins[-1] = lambda e, g=ins[-1], n_=self.D[lens[k]]: g(e) if e < n_ else 0.0
            todo = []
            for o, spec in enumerate(outs):
                d = [self.D[f] for f in spec[1:]]
                want = {"vec": DVEC, "mat": DMAT, "scalar": COLMAJ, "vecargs": DVEC_ARGS, "matargs": DMAT_ARGS}[spec[0]]
                if to[o] != want:
                    continue
                p = out[o]
                val = lambda old, e, o=o: float("nan") if bad else combine(o, old, [x(e) for x in ins])
                if spec[0] in ("vec", "vecargs"):
                    off = 0
                    if spec[0] == "vecargs":
                        off, p = ctypes.cast(p + 8, IP)[0], ctypes.cast(p, PP)[0]
                    v = pa(p)
                    todo += [(v, off + e, val(v[off + e], e)) for e in range(d[0])]
                elif spec[0] in ("mat", "matargs"):
                    r0 = c0 = 0
                    if spec[0] == "matargs":
                        r0, c0, p = ctypes.cast(p + 8, IP)[0], ctypes.cast(p + 12, IP)[0], ctypes.cast(p, PP)[0]
                    m, v = ctypes.cast(p + 24, IP)[0], pa(p)
                    todo += [(v, r0 + r + (c0 + c) * m, val(v[r0 + r + (c0 + c) * m], c)) for r in range(d[0]) for c in range(d[1])]
                else:
                    v = ctypes.cast(p, DP)
                    todo.append((v, 0, val(v[0], 0)))
            for v, i, x in todo:
                v[i] = x
        return go
