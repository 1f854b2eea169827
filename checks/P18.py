"""P18: exported external functions compute the model's values and exact derivatives in the argument and output order of the C side."""
import contextlib, io, itertools, os, random, shutil, tempfile, warnings
import numpy as np
import casadi as ca
import z3
from vf.core import Check, Unsupported, SEED
from vf.par import run_tasks
from vf.pysym import prove
from vf.sxz3 import convert
from vf.poly import Poly, jac, tr, grad, hess, dot, mul
from acados_template import AcadosOcp, AcadosSim
from acados_template.gnsf import GnsfModel

SUF = {"initial": "_0", "path": "", "terminal": "_e"}
STAGES = list(SUF)
V = Poly.var


def names(n, k): return [f"{n}{i}" for i in range(k)]


class Model:
    """names of all variables; polynomials with free coefficients; their CasADi twins"""
    def __init__(self, dims, kind, with_t=False):
        self.nx, self.nu, self.nz, self.np, self.npg = dims
        self.kind = kind
        self.x, self.u, self.z, self.xd = names("x", self.nx), names("u", self.nu), names("z", self.nz), names("xdot", self.nx)
        self.pr, self.pg = names("p", self.np), names("pg", self.npg)
        self.t = ["t0"] if with_t else []
        self.coef = []
        self.fix = {}
        self.todo = []      # (object, attribute, matrix of Poly, extra symbols)

    def gen(self, tag, W, cubic=(), sparse=None):
        """a polynomial with a free coefficient for every monomial up to degree 2 in W and degree 3 as given;
        sparse = i (composed functions): sum of c_k w_k plus one quadratic term, depending on i, and one parameter"""
        W = list(W)
        if sparse is not None:
            r = Poly()
            for k, w in enumerate(W):
                c = f"c_{tag}_{k}"
                self.coef.append(c)
                r = r + V(c) * V(w)
            q = W[sparse % len(W)]
            r = r + V(q) * V(W[(sparse + 1) % len(W)])
            for g in (self.pr[:1] + self.pg[-1:]):
                r = r + V(g) * V(q)
            return r
        mons = [()] + [(a,) for a in W] + list(itertools.combinations_with_replacement(W, 2))
        for a, b in itertools.combinations_with_replacement(list(cubic), 2):
            mons += [(a, b, g) for g in self.pg]
        mons += [(w, g) for w in W[:3] for g in self.pg] + [(g,) for g in self.pg] + [(g, h) for g in self.pg for h in self.pg] + [(w, q) for w in W[:2] for q in self.pr]
        t = {}
        for k, m in enumerate(mons):
            c = f"c_{tag}_{k}"
            self.coef.append(c)
            t[tuple(sorted((c,) + m))] = 1
        return Poly({k: __import__("fractions").Fraction(v) for k, v in t.items()})

    @property
    def p(self): return self.pr + self.coef

    def sym(self):
        S = ca.SX.sym if self.kind == "SX" else ca.MX.sym
        self.S = S
        vecs = dict(x=S("x", self.nx), u=S("u", self.nu), z=S("z", self.nz), xdot=S("xdot", self.nx), p=S("p", len(self.p)), p_global=S("p_global", self.npg))
        env = {}
        for v, ns in (("x", self.x), ("u", self.u), ("z", self.z), ("xdot", self.xd), ("p", self.p), ("p_global", self.pg)):
            for i, n in enumerate(ns):
                env[n] = vecs[v][i]
        if self.t:
            vecs["t"] = S("t")
            env["t0"] = vecs["t"]
        self.env, self.vecs = env, vecs
        return vecs

    def expr(self, M, extra=None):
        env = dict(self.env, **(extra or {}))
        z = (ca.SX if self.kind == "SX" else ca.MX)(0)
        if not M:
            return []
        return ca.vertcat(*[ca.horzcat(*[f.sx(env, z) for f in (r if isinstance(r, list) else [r])]) for r in M])


class Fun:
    """expected exported function: inputs as lists of variable names, outputs as matrices of Poly (or ('flag', hessian))"""
    def __init__(self, name, folder, ins, outs):
        self.name, self.folder, self.ins, self.outs = name, folder, ins, outs


class Case:
    def __init__(self, name, fns, make):
        self.name, self.fns, self.make = name, fns, make

    def run(self):
        """runs the real generation in a scratch folder; returns recorded functions, expected functions, files"""
        scratch = tempfile.mkdtemp(prefix="vfp18_")
        rec = {}
        orig = ca.Function.generate
        cwd = os.getcwd()

        def generate(self_, *a, **k):
            r = orig(self_, *a, **k)
            rec[a[0] if a and isinstance(a[0], str) else self_.name()] = (self_, os.path.realpath(os.getcwd()))
            return r
        ca.Function.generate = generate
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                obj, expected, npg = self.make(scratch)
                obj.generate_external_functions()
            root = os.path.realpath(scratch)
            disk = {os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if f.endswith(".c")}
            listed = {os.path.normpath(f) for k, v in obj.__dict__.items() if k.endswith(("external_function_files_model", "external_function_files_ocp")) for f in (v or [])}
            ngd = getattr(obj.dims, "n_global_data", 0)
        finally:
            ca.Function.generate = orig
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)
        return rec, expected, disk, listed, ngd, npg, root

    def check(self):
        """yields (obligation, True | description, replay or None); the functions called symbolically"""
        rec, expected, disk, listed, ngd, npg, root = self.run()
        pre = [f for n, (f, d) in rec.items() if n.endswith("_p_global_precompute_fun")]
        out = []
        for E in expected:
            rel = os.path.normpath(os.path.join(E.folder, E.name + ".c"))
            out.append((f"{E.name}: generated and listed", rel in disk and rel in listed, f"{rel} is not generated or not in the list of files"))
            if E.name not in rec:
                if rel in disk:
                    raise Unsupported(f"{E.name} generated in a way that is not observed")
                continue
            F, d = rec[E.name]
            if F.n_in() != len(E.ins) and F.n_in() != len(E.ins) + 1:
                out.append((f"{E.name}: inputs", False, f"{E.name} has {F.n_in()} inputs, specified {len(E.ins)}"))
                continue
            bad = [i for i, n in enumerate(E.ins) if F.numel_in(i) != (n if isinstance(n, int) else len(n))]
            if bad:
                out.append((f"{E.name}: inputs", False, f"{E.name}: input {bad[0]} has {F.numel_in(bad[0])} elements, specified {E.ins[bad[0]]}"))
                continue
            if F.n_out() != len(E.outs):
                out.append((f"{E.name}: outputs", False, f"{E.name} has {F.n_out()} outputs, specified {len(E.outs)}"))
                continue
            out.append((f"{E.name}: arguments", True, ""))
            syms, env = [], []
            for i, ns in enumerate(E.ins):
                if isinstance(ns, int):
                    ns = names(f"dummy{i}_", ns)
                s = ca.SX.sym(f"in{i}", len(ns))
                syms.append(s)
                if ns:
                    env.append((s, ns))
            shaped = [ca.reshape(s, F.size1_in(i), F.size2_in(i)) for i, s in enumerate(syms)]
            if F.n_in() == len(E.ins) + 1:
                if not pre:
                    out.append((f"{E.name}: global data", False, f"{E.name} reads global data, but there is no function computing it"))
                    continue
                g = ca.SX.sym("pg", npg)
                env.append((g, names("pg", npg)))
                gd = pre[0](g)
                if gd.numel() != F.numel_in(len(E.ins)) or ngd != gd.numel():
                    out.append((f"{E.name}: global data", False, f"global data has {gd.numel()} elements, dims.n_global_data = {ngd}, the function reads {F.numel_in(len(E.ins))}"))
                    continue
                shaped.append(gd)
            R = F.call(shaped)
            for k, (r, M) in enumerate(zip(R, E.outs)):
                nm = f"{E.name}: output {k}"
                if isinstance(M, tuple) and M[0] == "flag":
                    out.append((nm, None, (F, E, k, r, [[0]], env, ("flag", M[1]))))
                    continue
                rows, cols = len(M), len(M[0]) if M else 0
                if rows * cols == 0:
                    out.append((nm, r.numel() == 0, f"{E.name}: output {k} should be empty, has shape {r.shape}"))
                    continue
                if r.shape != (rows, cols):
                    out.append((nm, False, f"{E.name}: output {k} has shape {r.shape}, specified {(rows, cols)}"))
                    continue
                out.append((nm, None, (F, E, k, r, M, env, None)))
        return out

    def verify(self, rec):
        rec.fn(*self.fns)
        for nm, ok, info in self.check():
            full = f"{self.name}: {nm}"
            if ok is True:
                rec.discharged(full, "evaluation")
            elif ok is False:
                rec.refuted(full, info, dict(case=self.name, what=info))
            else:
                F, E, k, r, M, env, flag = info
                zenv = [(s, [z3.Real(n) for n in ns]) for s, ns in env]
                got = convert([r], zenv)[0]
                if flag:
                    v = z3.simplify(got[0])
                    H = flag[1]
                    diag = all(not f.t for i, row in enumerate(H) for j, f in enumerate(row) if i != j)
                    if z3.is_rational_value(v) and v.as_fraction() in ((0, 1) if diag else (0,)):
                        rec.discharged(full, "z3")
                    else:
                        rec.refuted(full, f"{E.name}: the outer Hessian is reported as diagonal although it is not", dict(case=self.name, flag=str(v)))
                    continue
                rows, cols = len(M), len(M[0])
                pgot = None
                for j in range(cols):
                    for i in range(rows):
                        o = f"{full}[{i},{j}]"
                        d = z3.simplify(got[j * rows + i] - M[i][j].z3(), som=True)
                        if z3.is_rational_value(d) and d.as_fraction() == 0:
                            rec.discharged(o, "z3 polynomial normal form")
                            continue
                        if pgot is None:
                            try:
                                pgot = convert([r], [(s, [V(n) for n in ns]) for s, ns in env], const=Poly.const)[0]
                            except Exception:
                                pgot = ()
                        if pgot and not (Poly.of(pgot[j * rows + i]) - M[i][j]).t:
                            rec.discharged(o, "polynomial normal form (vf/poly.py)")
                            continue
                        w = self.witness(r, env, i, j, M[i][j])
                        if w:
                            rec.refuted(o, f"{E.name}: output {k} entry ({i},{j}) is {w[1]:.6g}, specified {w[2]:.6g}", dict(case=self.name, function=E.name, output=k, entry=[i, j], inputs=w[0], got=w[1], expected=w[2]))
                            return
                        rec.bounded(o, "polynomial difference not decided", "40 random points", 40)

    def witness(self, r, env, i, j, f):
        rnd = random.Random(SEED)
        e = ca.Function("e", [s for s, _ in env], [r[i, j]])
        for _ in range(40):
            pt = {n: round(rnd.uniform(-2, 2), 2) for _, ns in env for n in ns}
            got = float(e(*[[pt[n] for n in ns] for _, ns in env]))
            exp = f.value({**{v: 0.0 for k in f.t for v in k}, **pt})
            if abs(got - exp) > 1e-7 * (1 + abs(exp)):
                return pt, got, exp
        return None

    def task(self):
        def f(rec):
            try:
                self.verify(rec)
            except Unsupported:
                raise
            except Exception as e:
                # the real generation failed on a valid description
                if "vf/" in (e.__traceback__.tb_next and _last(e) or ""):
                    raise
                rec.refuted(f"{self.name}: generation succeeds", f"generation raised {type(e).__name__}: {str(e)[-300:]}", dict(case=self.name, exception=str(e)[-2000:]))
        def onfail(rec, e):
            rec.fn(*self.fns)
            rec.bounded(self.name, e, "none", 0)
        return self.name, f, onfail


def _last(e):
    t = e.__traceback__
    last = ""
    while t:
        last = t.tb_frame.f_code.co_filename
        t = t.tb_next
    return "vf/" if ("/verif" in last or last.endswith("P18.py") or "/vf/" in last) else last


# ---------------------------------------------------------------- descriptions
def describe(scratch, m, N=4, opts=None, sim=False):
    o = AcadosSim() if sim else AcadosOcp()
    v = m.sym()
    mod = o.model
    mod.name = "mdl"
    for f in ("x", "u", "z", "xdot", "p", "p_global", "t"):
        if f in v and (v[f].numel() or f not in ("p_global",)):
            setattr(mod, f, v[f])
    if not sim:
        o.name = "prb"
        o.solver_options.N_horizon = N
        o.dims.N = N
    o.code_gen_options.code_export_directory = scratch
    for k, w in (opts or {}).items():
        setattr(o.code_gen_options, k, w)
    return o


def finish(o, m):
    o.model.make_consistent(o.dims)


def dyn_case(kind, dims, integ, opts, custom=(), with_t=False, sim=False, N=4, nxn=None):
    nm = f"dynamics.{'sim.' if sim else ''}{integ}.{kind}.{dims}" + "".join("." + k for k, v in sorted(opts.items()) if v) + "".join("." + c for c in custom) + (".time" if with_t else "") + (".no-horizon" if N == 0 else "") + (f".next{nxn}" if nxn else "")

    def make(scratch):
        m = Model(dims, kind, with_t)
        H, P = opts.get("generate_hess"), []
        x, u, z, xd, pg, t = m.x, m.u, m.z, m.xd, m.pg, m.t
        ux = u + x
        n1 = nxn or m.nx
        pi = names("pi", n1)
        if integ == "DISCRETE":
            phi = [m.gen(f"f{i}", x + u, cubic=ux) for i in range(n1)]
            J = jac(phi, ux)
            if "jac" in custom:
                J = [[m.gen(f"J{i}{j}", (x + u)[:1]) for j in range(len(ux))] for i in range(n1)]
            lag = dot([V(q) for q in pi], phi)
            HH = hess(lag, ux)
            if "hess" in custom:
                HH = [[m.gen(f"H{i}{j}", x[:1]) * V(pi[0]) for j in range(len(ux))] for i in range(len(ux))]
        elif integ == "ERK":
            f = [m.gen(f"f{i}", x + u + m.t) for i in range(m.nx)]
        else:
            f = [m.gen(f"f{i}", x + xd + u + z + t) for i in range(m.nx + m.nz)]
        o = describe(scratch, m, N, opts, sim)
        mod = o.model
        o.solver_options.integrator_type = integ
        p = m.p
        fold = "mdl_model"
        if integ == "DISCRETE":
            mod.disc_dyn_expr = m.expr(phi)
            spi = m.S("pi", n1)
            pe = {q: spi[i] for i, q in enumerate(pi)}
            mod.pi = spi
            if "jac" in custom:
                mod.disc_dyn_custom_jac_ux_expr = m.expr(J)
            if "hess" in custom:
                mod.disc_dyn_custom_hess_ux_expr = m.expr(HH, pe)
            col = [[g] for g in phi]
            L = jac([lag.diff(w) for w in ux], pg)
            P += [Fun("mdl_dyn_disc_phi_fun", fold, [x, u, p], [col]), Fun("mdl_dyn_disc_phi_fun_jac", fold, [x, u, p], [col, tr(J)])]
            if H:
                P.append(Fun("mdl_dyn_disc_phi_fun_jac_hess", fold, [x, u, pi, p], [col, tr(J), HH]))
            if opts.get("with_solution_sens_wrt_params_forw"):
                P.append(Fun("mdl_dyn_disc_phi_jac_p_hess_xu_p", fold, [x, u, pi, p], [jac(phi, pg), L]))
            if opts.get("with_solution_sens_wrt_params_adj"):
                su, sp = names("su", len(ux)), names("sp", n1)
                P.append(Fun("mdl_dyn_disc_phi_hess_ux_pdiff_adj_pdiff", fold, [x, u, pi, su, sp, p], [[[dot([V(s) for s in su], [lag.diff(w).diff(g) for w in ux]) + dot([V(s) for s in sp], [q.diff(g) for q in phi])] for g in pg]]))
            if opts.get("with_value_sens_wrt_params"):
                P.append(Fun("mdl_dyn_disc_phi_adj_p", fold, [x, u, pi, p], [grad(lag, pg)]))
        elif integ == "ERK":
            mod.f_expl_expr = m.expr(f)
            nx, nu = m.nx, m.nu
            Sx, Su = [[f"Sx{i}_{j}" for j in range(nx)] for i in range(nx)], [[f"Su{i}_{j}" for j in range(nu)] for i in range(nx)]
            fl = lambda M, r, c: [M[i][j] for j in range(c) for i in range(r)]
            lam = names("lam", nx)
            A = jac(f, x)
            vX = mul(A, [[V(q) for q in r] for r in Sx])
            vU = [[a + b for a, b in zip(r, s)] for r, s in zip(jac(f, u), mul(A, [[V(q) for q in r] for r in Su]))] if nu else [[] for _ in range(nx)]
            lag = dot([V(q) for q in lam], f)
            xu = x + u
            adj = grad(lag, xu)
            col = [[g] for g in f]
            P += [Fun("mdl_expl_ode_fun", fold, [x, u, p], [col]), Fun("mdl_expl_vde_forw", fold, [x, fl(Sx, nx, nx), fl(Su, nx, nu), u, p], [col, vX, vU]), Fun("mdl_expl_vde_adj", fold, [x, lam, u, p], [adj])]
            if H:
                S = [[V(q) for q in a] + [V(q) for q in b] for a, b in zip(Sx, Su)] + [[Poly.const(0)] * nx + [Poly.const(int(i == j)) for j in range(nu)] for i in range(nu)]
                HS = mul(tr(S), mul(hess(lag, xu), S))
                P.append(Fun("mdl_expl_ode_hess", fold, [x, fl(Sx, nx, nx), fl(Su, nx, nu), lam, u, p], [adj, [[HS[i][j]] for j in range(nx + nu) for i in range(j, nx + nu)]]))
            if opts.get("sens_forw_p"):
                Sp = [[f"Sp{i}_{j}" for j in range(len(p))] for i in range(nx)]
                vP = [[a + b for a, b in zip(r, s)] for r, s in zip(jac(f, p), mul(A, [[V(q) for q in r] for r in Sp]))]
                P.append(Fun("mdl_expl_vde_forw_p", fold, [x, fl(Sp, nx, len(p)), u, p], [vP]))
        else:
            mod.f_impl_expr = m.expr(f)
            col = [[g] for g in f]
            jx, jd, ju, jz = jac(f, x), jac(f, xd), jac(f, u), jac(f, z)
            I = [x, xd, u, z, t, p]
            P += [Fun("mdl_impl_dae_fun", fold, I, [col]), Fun("mdl_impl_dae_fun_jac_x_xdot_z", fold, I, [col, jx, jd, jz]), Fun("mdl_impl_dae_fun_jac_x_xdot_u_z", fold, I, [col, jx, jd, ju, jz]),
                  Fun("mdl_impl_dae_fun_jac_x_xdot_u", fold, I, [col, jx, jd, ju]), Fun("mdl_impl_dae_jac_x_xdot_u_z", fold, I, [jx, jd, ju, jz])]
            if H:
                mu = names("mu", m.nx + m.nz)
                P.append(Fun("mdl_impl_dae_hess", fold, [x, xd, u, z, mu, t, p], [hess(dot([V(q) for q in mu], f), x + xd + z + u)]))
            if opts.get("sens_forw_p"):
                P.append(Fun("mdl_impl_dae_jac_p", fold, I, [jac(f, p)]))
        finish(o, m)
        return o, ([] if N == 0 else P), m.npg
    fn = {"DISCRETE": "generate_c_code_discrete_dynamics", "ERK": "generate_c_code_explicit_ode"}.get(integ, "generate_c_code_implicit_ode")
    return Case(nm, [fn, "GenerateContext.finalize", "AcadosSim.generate_external_functions" if sim else "AcadosOcp._setup_code_generation_context_dynamics"], make)


def gnsf_case(name, nx, nu, nz, nx1, nz1, px, pz, ysel, usel, nout, lo=True, sim=False):
    """a GNSF model as a user gives it: x1, z1 the first entries of the permuted x, z; y and uhat are selections of the entries of x1, x1dot, z1 and u"""
    def make(scratch):
        m = Model((nx, nu, nz, 1, 0), "SX")
        y = [getattr(m, v)[i] for v, i in ysel]
        uh = [m.u[i] for i in usel]
        x1, d1, z1 = [m.x[i] for i in px[:nx1]], [m.xd[i] for i in px[:nx1]], [m.z[i] for i in pz[:nz1]]
        n1, n2, nx2 = nx1 + nz1, nx + nz - nx1 - nz1, nx - nx1
        phi = [m.gen(f"phi{i}", y + uh) for i in range(nout)]
        flo = [m.gen(f"lo{i}", x1 + d1 + m.u + z1) if lo else Poly() for i in range(n2)]
        o = describe(scratch, m, 4, {}, sim)
        o.solver_options.integrator_type = "GNSF"
        rnd = random.Random(5)
        num = lambda r, c: np.array([[float(rnd.randint(-9, 9)) for _ in range(c)] for _ in range(r)]).reshape(r, c)
        A, B, C, E, ALO, ELO, BLO, c, cLO = num(n1, nx1), num(n1, nu), num(n1, nout), num(n1, n1), num(n2, nx2), num(n2, n2), num(n2, nu), num(n1, 1), num(n2, 1)
        sym = lambda ns: ca.vertcat(*[m.env[n] for n in ns]) if ns else ca.SX.sym("e", 0, 0)
        o.model.gnsf_model = GnsfModel(x=o.model.x, u=o.model.u, z=o.model.z, xdot=o.model.xdot, p=o.model.p, p_global=o.model.p_global, y=sym(y), uhat=sym(uh), phi=m.expr([[f] for f in phi]) if phi else ca.SX(0, 1),
                                       f_LO=m.expr([[f] for f in flo]) if flo else ca.SX(0, 0), A=A.copy(), B=B.copy(), C=C.copy(), E=E.copy(), A_LO=ALO.copy(), c=c.copy(), E_LO=ELO.copy(), B_LO=BLO.copy(), c_LO=cLO.copy(), idx_perm_x=np.array(px), idx_perm_z=np.array(pz, dtype=int))
        p, fold = m.p, "mdl_model"
        cm = lambda M: [[Poly.const(v) for v in r] for r in M.tolist()]
        sel = lambda names_, cols: [[Poly.const(int(a == b)) for b in cols] for a in names_]
        pivots = lambda perm: [[Poly.const(v)] for v in _ipiv(perm)]
        trivial = nx1 == 0 and nz1 == 0
        P = [Fun("mdl_gnsf_phi_fun", fold, [y, uh, p], [[[f] for f in phi]]), Fun("mdl_gnsf_phi_fun_jac_y", fold, [y, uh, p], [[[f] for f in phi], jac(phi, y)]),
             Fun("mdl_gnsf_phi_jac_y_uhat", fold, [y, uh, p], [jac(phi, y), jac(phi, uh)]),
             Fun("mdl_gnsf_f_lo_fun_jac_x1k1uz", fold, [x1, d1, z1, m.u, p], [[[f] for f in flo], jac(flo, x1 + d1 + m.u + z1)]),
             Fun("mdl_gnsf_get_matrices_fun", fold, [1], [cm(A), cm(B), cm(C), cm(E), sel(y, x1), sel(y, d1), sel(y, z1), sel(uh, m.u), cm(ALO), cm(c), cm(ELO), cm(BLO), [[Poly.const(int(lo and n2 > 0))]],
                                                          [[Poly.const(int(trivial and not (lo and n2 > 0)))]], pivots(px), pivots(pz), cm(cLO)])]
        finish(o, m)
        return o, P, 0
    return Case(f"dynamics.{'sim.' if sim else ''}GNSF.{name}", ["generate_c_code_gnsf", "GnsfModel.__init__", "GnsfModel._make_consistent", "idx_perm_to_ipiv"], make)


def _ipiv(perm):
    """row interchanges: applying 'swap entry i with entry ipiv[i]' for i = 0.. to (0..n-1) gives perm"""
    v, r = list(range(len(perm))), []
    for i, q in enumerate(perm):
        j = v.index(q)
        v[i], v[j] = v[j], v[i]
        r.append(j)
    return r


def base_dyn(o, m):
    o.solver_options.integrator_type = "DISCRETE"
    o.model.disc_dyn_expr = o.model.x


def cost_case(kind, dims, types, opts, custom=False, with_t=False, N=4, ny=2, diag=False):
    nm = f"cost.{'.'.join(str(t) for t in types)}.{kind}.{dims}.ny{ny}" + "".join("." + k for k, v in sorted(opts.items()) if v) + (".custom-hessian" if custom else "") + (".time" if with_t else "") + (".no-horizon" if N == 0 else "") + (".diagonal" if diag else "")

    def make(scratch):
        m = Model(dims, kind, with_t)
        data = {}
        for st, tp in zip(STAGES, types):
            s = SUF[st]
            u, z = ([], []) if st == "terminal" else (m.u, m.z)
            x, t = m.x, m.t
            w, ux = u + x + z, u + x
            d = dict(u=u, z=z, ux=ux)
            if tp == "EXTERNAL":
                d["f"] = m.gen("l" + st, w, cubic=ux)
                if custom:
                    d["H"] = [[m.gen(f"H{st}{i}{j}", w[:1]) for j in range(len(ux))] for i in range(len(ux))]
            elif tp in ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
                d["y"] = [m.gen(f"y{st}{i}", w + t, sparse=i if tp[0] == "C" else None) for i in range(ny + (st == "path"))]
                if tp[0] == "C":
                    r = names("r" + st, len(d["y"]))
                    d["r"] = r
                    if diag:
                        psi = Poly()
                        for i, q in enumerate(r):
                            c = f"c_psi{st}{i}"
                            m.coef.append(c)
                            psi = psi + V(c) * V(q) * V(q) + V(q)
                    else:
                        psi = m.gen("psi" + st, r + t, sparse=0)
                        for i, q in enumerate(r):
                            c = f"c_psi{st}{i}"
                            m.coef.append(c)
                            psi = psi + V(c) * V(q) * V(r[-1 - i])
                    d["psi"] = psi
                    if custom:
                        d["H"] = [[m.gen(f"H{st}{i}{j}", r[:1]) if (i == j or not diag) else Poly() for j in range(len(r))] for i in range(len(r))]
            data[st] = d
        o = describe(scratch, m, N, opts)
        base_dyn(o, m)
        mod, P, fold, p, x, t, pg = o.model, [], "mdl_cost", m.p, m.x, m.t, m.pg
        for st, tp in zip(STAGES, types):
            s, d = SUF[st], data[st]
            setattr(o.cost, "cost_type" + s, tp)
            u, z, ux = d["u"], d["z"], d["ux"]
            Q = []
            if tp == "EXTERNAL":
                f = d["f"]
                setattr(mod, "cost_expr_ext_cost" + s, m.expr([f]))
                H = hess(f, ux)
                if custom:
                    H = d["H"]
                    setattr(mod, "cost_expr_ext_cost_custom_hess" + s, m.expr(H))
                b, I = f"mdl_cost_ext_cost{s}", [x, u, z, p]
                g = grad(f, ux + z)
                Q += [Fun(b + "_fun", fold, I, [[[f]]]), Fun(b + "_fun_jac_hess", fold, I, [[[f]], g, H, hess(f, z), [[f.diff(a).diff(c) for c in ux] for a in z]]), Fun(b + "_fun_jac", fold, I, [[[f]], g])]
                if opts.get("with_solution_sens_wrt_params_forw"):
                    Q.append(Fun(b + "_hess_xu_p", fold, I, [jac([f.diff(a) for a in ux], pg)]))
                if opts.get("with_solution_sens_wrt_params_adj"):
                    su = names("su", len(ux))
                    Q.append(Fun(b + "_adj_ux_pdiff", fold, [x, u, z, su, p], [[[dot([V(q) for q in su], [f.diff(a).diff(g) for a in ux])] for g in pg]]))
                if opts.get("with_value_sens_wrt_params"):
                    Q.append(Fun(b + "_grad_p", fold, I, [grad(f, pg)]))
            elif tp == "NONLINEAR_LS":
                y = d["y"]
                setattr(mod, "cost_y_expr" + s, m.expr(y))
                b, I = f"mdl_cost_y{s}", [x, u, z, t, p]
                ys = names("ym", len(y))
                col = [[g] for g in y]
                Q += [Fun(b + "_fun", fold, I, [col]), Fun(b + "_fun_jac_ut_xt", fold, I, [col, tr(jac(y, ux)), jac(y, z)]), Fun(b + "_hess", fold, [x, u, z, ys, t, p], [hess(dot([V(q) for q in ys], y), ux)])]
            elif tp == "CONVEX_OVER_NONLINEAR":
                y, r, psi = d["y"], d["r"], d["psi"]
                sr = m.S("r" + st, len(r))
                re = {q: sr[i] for i, q in enumerate(r)}
                setattr(mod, "cost_y_expr" + s, m.expr(y))
                setattr(mod, "cost_r_in_psi_expr" + s, sr)
                setattr(mod, "cost_psi_expr" + s, m.expr([psi], re))
                Hr = hess(psi, r)
                if custom:
                    Hr = d["H"]
                    setattr(mod, "cost_conl_custom_outer_hess" + s, m.expr(Hr, re))
                yr = names("yref", len(y))
                sub = {q: y[i] - V(yr[i]) for i, q in enumerate(r)}
                b, I = f"mdl_conl_cost{s}", [x, u, z, yr, t, p]
                c = psi.subs(sub)
                Hs = [[h.subs(sub) for h in row] for row in Hr]
                Q += [Fun(b + "_fun", fold, I, [[[c]]]), Fun(b + "_fun_jac_hess", fold, I, [[[c]], [[psi.diff(q).subs(sub)] for q in r], tr(jac(y, ux)), tr(jac(y, z), len(z)), Hs, ("flag", Hr)])]
            if N > 0 or st == "terminal":
                P += Q
        finish(o, m)
        return o, P, m.npg
    fns = {"EXTERNAL": "generate_c_code_external_cost", "NONLINEAR_LS": "generate_c_code_nls_cost", "CONVEX_OVER_NONLINEAR": "generate_c_code_conl_cost"}
    return Case(nm, [fns[t] for t in types if t in fns] + ["AcadosOcp._setup_code_generation_context"], make)


def con_case(kind, dims, types, sizes, opts, N=4):
    nm = f"constraints.{'.'.join(types)}.{kind}.{dims}.{sizes}" + "".join("." + k for k, v in sorted(opts.items()) if v) + (".no-horizon" if N == 0 else "")

    def make(scratch):
        m = Model(dims, kind)
        data = {}
        for st, tp, n in zip(STAGES, types, sizes):
            u, z = ([], []) if st == "terminal" else (m.u, m.z)
            w, ux = u + m.x + z, u + m.x
            d = dict(u=u, z=z, ux=ux)
            if tp == "BGH":
                d["h"] = [m.gen(f"h{st}{i}", w, cubic=ux) for i in range(n)]
            elif n:
                r = names("r" + st, 2 + (st == "path"))
                d["r"], d["phi"] = r, [m.gen(f"phi{st}{i}", r, sparse=i) + V(r[0]) * V(r[i % len(r)]) for i in range(n)]
                d["re"] = [m.gen(f"re{st}{i}", w, sparse=i) for i in range(len(r))]
            data[st] = d
        o = describe(scratch, m, N, opts)
        base_dyn(o, m)
        mod, P, fold, p, x, pg = o.model, [], "mdl_constraints", m.p, m.x, m.pg
        for st in STAGES:
            setattr(o.cost, "cost_type" + SUF[st], "LINEAR_LS")
        for st, tp, n in zip(STAGES, types, sizes):
            s, d = SUF[st], data[st]
            u, z, ux = d["u"], d["z"], d["ux"]
            setattr(o.constraints, "constr_type" + s, tp)
            Q = []
            if n and tp == "BGH":
                h = d["h"]
                setattr(mod, "con_h_expr" + s, m.expr(h))
                setattr(o.dims, "nh" + s, n)
                col, J, Jz = [[g] for g in h], tr(jac(h, ux)), tr(jac(h, z), len(z))
                lam = names("lamh", n)
                lag = dot([V(q) for q in lam], h)
                b = f"mdl_constr_h{s}"
                Q += [Fun(b + "_fun_jac_uxt_zt", fold, [x, u, z, p], [col, J, Jz]), Fun(b + "_fun", fold, [x, u, z, p], [col])]
                if opts.get("generate_hess"):
                    Q.append(Fun(b + "_fun_jac_uxt_zt_hess", fold, [x, u, lam, z, p], [col, J, hess(lag, ux), Jz, hess(lag, z)]))
                if opts.get("with_solution_sens_wrt_params_forw"):
                    Q.append(Fun(b + "_jac_p_hess_xu_p", fold, [x, u, lam, z, p], [jac(h, pg), jac([lag.diff(a) for a in ux], pg)]))
                if opts.get("with_solution_sens_wrt_params_adj"):
                    su, sl = names("su", len(ux)), names("sl", n)
                    Q.append(Fun(b + "_hess_ux_pdiff_adj_pdiff", fold, [x, u, lam, su, sl, p], [[[dot([V(q) for q in su], [lag.diff(a).diff(g) for a in ux]) + dot([V(q) for q in sl], [f.diff(g) for f in h])] for g in pg]]))
                if opts.get("with_value_sens_wrt_params"):
                    Q.append(Fun(b + "_adj_p", fold, [x, u, lam, p], [grad(lag, pg)]))
            elif n:
                r, phi, re = d["r"], d["phi"], d["re"]
                sr = m.S("r" + st, len(r))
                setattr(mod, "con_r_in_phi" + s, sr)
                setattr(mod, "con_phi_expr" + s, m.expr(phi, {q: sr[i] for i, q in enumerate(r)}))
                setattr(mod, "con_r_expr" + s, m.expr(re))
                setattr(o.dims, "nphi" + s, n)
                setattr(o.dims, "nr" + s, len(r))
                sub = dict(zip(r, re))
                f = [g.subs(sub) for g in phi]
                H = [[e.subs(sub) for e in row] for g in phi for row in hess(g, r)]
                b = f"mdl_phi{s}_constraint"
                Q += [Fun(b + "_fun_jac_hess", fold, [x, u, z, p], [[[g] for g in f], tr(jac(f, ux)), tr(jac(f, z), len(z)), H, tr(jac(re, ux))]), Fun(b + "_fun", fold, [x, u, z, p], [[[g] for g in f]])]
            if N > 0 or st == "terminal":
                P += Q
        finish(o, m)
        return o, P, m.npg
    return Case(nm, ["generate_c_code_constraint", "AcadosOcp._setup_code_generation_context"], make)


SENS = ("with_solution_sens_wrt_params_forw", "with_solution_sens_wrt_params_adj", "with_value_sens_wrt_params")


def cases():
    out = []
    D = [(2, 1, 1, 1, 0), (1, 2, 0, 1, 2), (3, 1, 2, 0, 1)]
    h = dict(generate_hess=True)
    for kind in ("SX", "MX"):
        for d in [(2, 1, 0, 1, 0), (1, 2, 0, 1, 2), (2, 2, 0, 0, 1)]:
            for o in ({}, h):
                out.append(dyn_case(kind, d, "DISCRETE", o))
            if d[4]:
                for k in SENS:
                    out.append(dyn_case(kind, d, "DISCRETE", {k: True}))
                out.append(dyn_case(kind, d, "DISCRETE", {**h, **{k: True for k in SENS}}))
            for c in (("jac",), ("hess",), ("jac", "hess")):
                out.append(dyn_case(kind, d, "DISCRETE", h, c))
            out.append(dyn_case(kind, d, "DISCRETE", h, nxn=3))
            for o in ({}, h):
                out.append(dyn_case(kind, d, "ERK", o))
            if not d[4]:
                out.append(dyn_case(kind, d, "ERK", dict(sens_forw_p=True)))
        for d in D:
            for integ in ("IRK", "LIFTED_IRK"):
                for o in ({}, h):
                    out.append(dyn_case(kind, d, integ, o))
            out.append(dyn_case(kind, d, "IRK", h, with_t=True))
            if not d[4]:
                out.append(dyn_case(kind, d, "IRK", dict(sens_forw_p=True)))
                for o in ({}, h, dict(sens_forw_p=True)):
                    out.append(dyn_case(kind, d, "IRK", o, sim=True))
                    out.append(dyn_case(kind, (d[0], d[1], 0, d[3], 0), "ERK", o, sim=True))
        out.append(dyn_case(kind, D[0], "IRK", h, N=0))
        out.append(dyn_case(kind, (2, 1, 0, 1, 0), "ERK", {"ext_fun_expand_dyn": True}))
        for t in ("EXTERNAL", "NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
            for d in D:
                for N in (4, 0):
                    out.append(cost_case(kind, d, (t, t, t), {}, N=N, with_t=t != "EXTERNAL" and N > 0))
                    if t != "NONLINEAR_LS":
                        out.append(cost_case(kind, d, (t, t, t), {}, N=N, custom=True))
                if t == "EXTERNAL" and d[4] and not d[2]:
                    for k in SENS:
                        out.append(cost_case(kind, d, (t, t, t), {k: True}))
                        out.append(cost_case(kind, d, (t, t, t), {k: True}, N=0))
        out.append(cost_case(kind, (2, 1, 1, 0, 0), ("CONVEX_OVER_NONLINEAR",) * 3, {}, ny=5, diag=True))
        out.append(cost_case(kind, (2, 1, 0, 0, 0), ("CONVEX_OVER_NONLINEAR",) * 3, {}, ny=5))
        out.append(cost_case(kind, (2, 1, 0, 0, 0), ("CONVEX_OVER_NONLINEAR",) * 3, {}, ny=5, diag=True, custom=True))
        for ts in (("EXTERNAL", "NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"), ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR", "EXTERNAL"), ("LINEAR_LS", "EXTERNAL", "NONLINEAR_LS"), ("CONVEX_OVER_NONLINEAR", "LINEAR_LS", "LINEAR_LS")):
            out.append(cost_case(kind, D[0], ts, {}))
        for d in D:
            for N in (4, 0):
                for o in ({}, h):
                    out.append(con_case(kind, d, ("BGH",) * 3, (1, 3, 2), o, N))
                out.append(con_case(kind, d, ("BGP",) * 3, (1, 2, 1), {}, N))
            if d[4]:
                for k in SENS:
                    out.append(con_case(kind, d, ("BGH",) * 3, (2, 1, 1), {k: True}))
        for ts, sz in ((("BGH", "BGP", "BGH"), (2, 1, 1)), (("BGP", "BGH", "BGP"), (1, 2, 2)), (("BGH",) * 3, (0, 2, 0)), (("BGH",) * 3, (2, 0, 0)), (("BGH",) * 3, (0, 0, 1)), (("BGP",) * 3, (0, 1, 0))):
            out.append(con_case(kind, D[0], ts, sz, h))
    for sim in (False, True):
        g = lambda *a, **k: out.append(gnsf_case(*a, sim=sim, **k))
        g("plain", 2, 1, 0, 2, 0, [0, 1], [], [("x", 0), ("x", 1)], [0], 2)
        g("permuted", 4, 2, 2, 2, 1, [2, 0, 3, 1], [1, 0], [("x", 2), ("xd", 0), ("z", 1)], [1], 2)
        g("cycle", 4, 2, 3, 3, 2, [3, 2, 0, 1], [2, 0, 1], [("x", 3), ("xd", 2), ("z", 0), ("z", 2)], [1, 0], 1)
        g("linear output only", 3, 1, 1, 0, 0, [1, 2, 0], [0], [], [], 0)
        g("linear", 3, 1, 1, 0, 0, [1, 2, 0], [0], [], [], 0, lo=False)
        g("no linear output system", 2, 2, 1, 2, 1, [1, 0], [0], [("x", 0), ("xd", 1), ("z", 0)], [1], 3, lo=False)
        g("trivial output function", 3, 1, 0, 2, 0, [2, 1, 0], [], [("x", 2)], [0], 1, lo=False)
    seen, res = set(), []
    for c in out:
        if c.name not in seen:
            seen.add(c.name)
            res.append(c)
    return res


def main():
    chk = Check("P18", "z3 (polynomial normal form) on the functions the executed generators export",
                trusted=["z3", "CasADi expression graphs, code generation from a Function", "vf/sxz3.py conversion", "vf/poly.py differentiation"],
                assumptions=["floating point treated as real arithmetic", "models are polynomials with free coefficients for all monomials up to degree 2 (degree 3 with global parameters): every smooth model agrees with one of them in the derivatives used, at each point",
                             "dimensions as listed in the check (at most 3)"])
    only = os.environ.get("VF_ONLY")
    cs = [c for c in cases() if not only or only in c.name]
    run_tasks(chk, [c.task() for c in cs])
    return chk.finish("proof", 1000 if not only else 1)
