"""Contracts of the allocation helpers in acados/utils/mem.c, proved with 64-bit machine integers.

A small weakest-precondition evaluator for straight-line code with ifs: pointers are 64-bit numbers, `*p` and `p->f` of the
parameters are the only memory.
"""
import z3
from .core import Unsupported
from .cast import tstr, tkind, pointee, fname_params, body

W = 64
B = lambda v: z3.BitVecVal(v, W)


class Ret(Exception):
    pass


class Ev:
    def __init__(self, prog, fn, pre=(), depth=0, vals=None, mem=None, asserts=None, create=None):
        self.prog, self.fn, self.depth = prog, fn, depth
        self.env = {}
        self.mem = mem if mem is not None else {}
        self.asserts = asserts if asserts is not None else []      # (condition, text) that must hold
        self.create = create if create is not None else []
        for j, (n, t, i) in enumerate(fname_params(fn)):
            self.env[i] = vals[j] if vals else z3.BitVec(n, W) if tkind(t) in ("int", "bool") else ("ref", n)
        self.ret = None

    # memory cells are named
    def cell(self, name):
        return self.mem.setdefault(name, z3.BitVec("old " + name, W))

    def lv(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            return ("var", n["referencedDecl"]["id"])
        if k == "UnaryOperator" and n["opcode"] == "*":
            v = self.ev(n["inner"][0])
            if isinstance(v, tuple):
                return ("cell", "*" + v[1]) if v[0] == "ref" else v[1]
        if k == "MemberExpr":
            v = self.ev(n["inner"][0]) if n.get("isArrow") else None
            if v is not None and v[0] == "ref":
                return ("cell", v[1] + "->" + n["name"])
        raise Unsupported("lvalue " + k)

    def load(self, l):
        if l[0] == "var":
            if l[1] not in self.env:
                raise Unsupported("global variable")
            return self.env[l[1]]
        return self.cell(l[1])

    def store(self, l, v):
        if l[0] == "var":
            self.env[l[1]] = v
        else:
            self.mem[l[1]] = v

    def ev(self, n):
        k = n["kind"]
        I = n.get("inner", [])
        if k == "ImplicitCastExpr" or k == "CStyleCastExpr":
            if n.get("castKind") == "LValueToRValue":
                return self.load(self.lv(I[0]))
            v = self.ev(I[0])
            t = tstr(n["type"])
            if n.get("castKind") == "IntegralCast" and z3.is_bv(v):
                if t in ("int", "unsigned int"):
                    lo = z3.Extract(31, 0, v)
                    return z3.SignExt(32, lo) if t == "int" else z3.ZeroExt(32, lo)
            return v
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ev(I[0])
        if k == "IntegerLiteral":
            return B(int(n["value"]))
        if k == "StringLiteral":
            return B(1)
        if k == "UnaryExprOrTypeTraitExpr":
            t = n.get("argType") or I[0]["type"]
            return B(self.sizeof(tstr(t)))
        if k == "DeclRefExpr" or k == "MemberExpr":
            return self.load(self.lv(n))
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "&":
                return ("addr", self.lv(I[0]))
            v = self.ev(I[0])
            if op in ("__extension__", "+"):
                return v
            if op == "-":
                return -v
            if op == "!":
                return self.bool(self.truth(v) == False)
            raise Unsupported("operator " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            if op == "=":
                l = self.lv(I[0])
                v = self.ev(I[1])
                self.store(l, v)
                return v
            if op == ",":
                self.ev(I[0])
                return self.ev(I[1])
            if op in ("&&", "||"):
                f = z3.And if op == "&&" else z3.Or
                return self.bool(f(self.truth(self.ev(I[0])), self.truth(self.ev(I[1]))))
            return self.bin(op, self.ev(I[0]), self.ev(I[1]), tstr(I[0]["type"]), tstr(I[1]["type"]))
        if k == "CompoundAssignOperator":
            l = self.lv(I[0])
            v = self.bin(n["opcode"][:-1], self.load(l), self.ev(I[1]), tstr(I[0]["type"]), tstr(I[1]["type"]))
            self.store(l, v)
            return v
        if k == "ConditionalOperator":
            return z3.If(self.truth(self.ev(I[0])), self.ev(I[1]), self.ev(I[2]))
        if k == "CallExpr":
            return self.call(n)
        if k == "StmtExpr":
            self.block(I[0].get("inner", []))
            return B(0)
        raise Unsupported(k)

    def bool(self, c): return z3.If(c, B(1), B(0))
    def truth(self, v): return v != 0 if z3.is_bv(v) else z3.BoolVal(True)

    def bin(self, op, a, b, ta, tb):
        if not (z3.is_bv(a) and z3.is_bv(b)):
            raise Unsupported("pointer operation")
        uns = tkind(ta) == "ptr" or "unsigned" in ta or ta == "size_t" or "size" in ta
        if tkind(ta) == "ptr" and op in ("+", "-") and tkind(tb) != "ptr":
            b = b * B(self.sizeof(pointee(ta)))
        elif tkind(tb) == "ptr" and op == "+":
            a = a * B(self.sizeof(pointee(tb)))
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
             "<<": lambda: a << b, ">>": lambda: z3.LShR(a, b) if uns else a >> b,
             "/": lambda: z3.UDiv(a, b) if uns else a / b, "%": lambda: z3.URem(a, b) if uns else z3.SRem(a, b)}
        if op in f:
            return f[op]()
        c = {"<": (z3.ULT, lambda: a < b), "<=": (z3.ULE, lambda: a <= b), ">": (z3.UGT, lambda: a > b), ">=": (z3.UGE, lambda: a >= b)}
        if op in c:
            return self.bool(c[op][0](a, b) if uns else c[op][1]())
        if op in ("==", "!="):
            return self.bool(a == b if op == "==" else a != b)
        raise Unsupported("operator " + op)

    def sizeof(self, t):
        from .cmem import layout
        if tkind(t) == "ptr":
            return 8
        s = {"char": 1, "bool": 1, "_Bool": 1, "int": 4, "double": 8, "float": 4, "size_t": 8, "unsigned long": 8, "long": 8, "acados_size_t": 8, "unsigned int": 4}.get(t)
        if s:
            return s
        try:
            return layout(t)[0]
        except Exception:
            raise Unsupported("sizeof " + t)

    def call(self, n):
        c = n["inner"][0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if c["kind"] != "DeclRefExpr":
            raise Unsupported("call through a pointer")
        name = c["referencedDecl"]["name"]
        if name in ("__assert_fail", "exit", "abort"):
            raise Ret("abort")
        vals = [self.ev(a) for a in n["inner"][1:]]
        if name in ("printf", "fprintf"):
            return B(0)
        if name in ("blasfeo_create_dvec", "blasfeo_create_dmat"):
            dims, x, p = vals[:-2], vals[-2], vals[-1]
            if not (isinstance(x, tuple) and x[0] == "ref"):
                raise Unsupported("create")
            f = z3.Function("blasfeo_memsize" + name[-5:], *[z3.BitVecSort(W)] * (len(dims) + 1))
            self.mem[x[1] + "->memsize"] = f(*dims)
            self.create.append((name, x[1], p, dims))
            return B(0)
        fn = self.prog.funcs.get(name)
        if fn is None or self.depth > 3:
            raise Unsupported("call of " + name)
        sub = Ev(self.prog, fn, depth=self.depth + 1, vals=vals, mem=self.mem, asserts=self.asserts, create=self.create)
        sub.run()
        return sub.ret if sub.ret is not None else B(0)

    def run(self):
        try:
            self.block(body(self.fn)["inner"] if body(self.fn).get("inner") else [])
        except Ret as r:
            if r.args == ("abort",):
                raise

    def block(self, stmts):
        for s in stmts:
            self.ex(s)

    def ex(self, s):
        k = s["kind"]
        if k == "CompoundStmt":
            return self.block(s.get("inner", []))
        if k == "NullStmt":
            return
        if k == "DeclStmt":
            for d in s["inner"]:
                init = d.get("inner")
                self.env[d["id"]] = self.ev(init[-1]) if init else z3.FreshConst(z3.BitVecSort(W))
            return
        if k == "ReturnStmt":
            self.ret = self.ev(s["inner"][0]) if s.get("inner") else None
            raise Ret("return")
        if k == "IfStmt":
            if contains_return(s):
                raise Unsupported("return inside an if")
            c = self.truth(self.ev(s["inner"][0]))
            e0, m0 = dict(self.env), dict(self.mem)
            dead = [False, False]
            states = []
            for b in range(2):
                self.env = dict(e0)
                self.mem.clear()
                self.mem.update(m0)
                try:
                    if b == 0:
                        self.ex(s["inner"][1])
                    elif len(s["inner"]) > 2:
                        self.ex(s["inner"][2])
                except Ret as r:
                    dead[b] = True
                states.append((dict(self.env), dict(self.mem)))
            if dead[0] or dead[1]:
                if dead[0] and dead[1]:
                    raise Ret("abort")
                self.asserts.append(z3.Not(c) if dead[0] else c)
                e, m = states[1 if dead[0] else 0]
            else:
                def mrg(x, y, dflt):
                    out = {}
                    for q in set(x) | set(y):
                        a = x.get(q) if q in x else dflt(q)
                        b = y.get(q) if q in y else dflt(q)
                        out[q] = a if a is b or isinstance(a, tuple) else z3.If(c, a, b)
                    return out
                e = mrg(states[0][0], states[1][0], lambda q: B(0))
                m = mrg(states[0][1], states[1][1], lambda q: z3.BitVec("old " + q, W))
            self.env = e
            self.mem.clear()
            self.mem.update(m)
            return
        if k == "ConditionalOperator" and any(contains_abort(x) for x in s["inner"][1:]):
            c = self.truth(self.ev(s["inner"][0]))
            self.asserts.append(c if contains_abort(s["inner"][2]) else z3.Not(c))
            return
        if k == "ParenExpr" or k == "CStyleCastExpr":
            return self.ex(s["inner"][0])
        if k == "StmtExpr":
            return self.ex(s["inner"][0])
        if k in ("WhileStmt", "ForStmt", "DoStmt", "SwitchStmt", "GotoStmt"):
            raise Unsupported(k)
        self.ev(s)


def contains_return(n):
    return isinstance(n, dict) and (n.get("kind") == "ReturnStmt" or any(contains_return(x) for x in n.get("inner", ())))


def contains_abort(n):
    if not isinstance(n, dict):
        return False
    if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["name"] == "__assert_fail":
        return True
    return any(contains_abort(x) for x in n.get("inner", ()))


def valid(pre, goal, ms=20000):
    """True, a model, or None"""
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*pre)
    s.add(z3.Not(goal))
    r = s.check()
    return True if r == z3.unsat else s.model() if r == z3.sat else None


def contracts(prog, adv, nums=(1, 2, 4, 8, 16, 32, 64)):
    """yields (function, clause, thunk -> True | model | None)"""
    from .cmem import ADV
    N = z3.BitVec("n", W)
    M = z3.BitVec("m", W)
    small = [N >= 0, N < 2 ** 31, M >= 0, M < 2 ** 31]
    for what in adv:
        fname = "assign_and_advance_" + what
        fn = prog.funcs.get(fname)
        if fn is None:
            continue
        ps = fname_params(fn)

        def go(fn=fn, ps=ps, what=what):
            e = Ev(prog, fn)
            vals = {}
            for (n, t, i), v in zip(ps, [N] if len(ps) == 3 else [M, N]):
                e.env[i] = v
            e.run()
            v, p = ps[-2][0], ps[-1][0]
            old, new = z3.BitVec("old *" + p, W), e.mem.get("*" + p, z3.BitVec("old *" + p, W))
            al = {"double": 8, "int": 4, "bool": 1, "char": 1, "blasfeo_dmat_mem": 64}.get(what, 8)
            pre = small + [z3.URem(old, B(al)) == 0, z3.ULT(old, B(2 ** 62))]
            if what in ADV:
                es = e.sizeof(ADV[what])
                post = z3.And(e.mem.get("*" + v, B(0)) == old, new == old + N * B(es))
                frame = set(e.mem) <= {"*" + v, "*" + p} and not e.create
            else:
                dims = [N] if "dvec" in what else [M, N]
                f = z3.Function("blasfeo_memsize_" + ("dvec" if "dvec" in what else "dmat"), *[z3.BitVecSort(W)] * (len(dims) + 1))
                ok = len(e.create) == 1 and e.create[0][1] == v
                post = z3.And(z3.BoolVal(ok), new == old + f(*dims), *([e.create[0][2] == old] + [a == b for a, b in zip(e.create[0][3], dims)] if ok else []))
                frame = set(e.mem) <= {v + "->memsize", "*" + p}
            return [("hands out the current position and advances by what it handed out", valid(pre, post)),
                    ("its assertions hold for aligned positions", valid(pre, z3.And(*e.asserts) if e.asserts else z3.BoolVal(True))),
                    ("changes nothing else", True if frame else None)]
        yield fname, go
    fn = prog.funcs.get("make_int_multiple_of")
    if fn is not None:
        def go(fn=fn):
            out = []
            for k in nums:
                e = Ev(prog, fn)
                (n0, _, i0), (n1, _, i1) = fname_params(fn)
                e.env[i0] = B(k)
                e.run()
                old = z3.BitVec("old *" + n1, W)
                new = e.mem.get("*" + n1, old)
                pre = [z3.ULT(old, B(2 ** 62))]
                out.append((f"rounds up to the next multiple of {k}", valid(pre, z3.And(z3.UGE(new, old), z3.ULT(new - old, B(max(k, 1))), z3.URem(new, B(k)) == 0))))
            return out
        yield "make_int_multiple_of", go
    fn = prog.funcs.get("align_char_to")
    if fn is not None:
        def go(fn=fn):
            out = []
            for k in nums:
                e = Ev(prog, fn)
                (n0, _, i0), (n1, _, i1) = fname_params(fn)
                e.env[i0] = B(k)
                e.run()
                old = z3.BitVec("old *" + n1, W)
                new = e.mem.get("*" + n1, old)
                pre = [z3.ULT(old, B(2 ** 62))]
                out.append((f"moves to the next multiple of {k}", valid(pre, z3.And(z3.UGE(new, old), z3.ULT(new - old, B(k)), z3.URem(new, B(k)) == 0))))
            return out
        yield "align_char_to", go
