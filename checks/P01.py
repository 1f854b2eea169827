"""P01: AcadosOcp.make_consistent and its parts accept exactly the consistent descriptions and store the detected dimensions."""
import itertools
import numpy as np
import casadi as ca
import z3
from vf.core import Check, Unsupported
from vf.par import run_tasks
from vf.pysym import isinstance_real, SymBool, eng
from vf import ocpspec as S
from vf.ocpspec import Scenario, And, Or, Not, Implies, Ite, ln, anyof, allof, contains, forall_int, empty, clen, zeros, arange
from acados_template import AcadosOcp, acados_ocp as m_ocp, utils as m_utils
from acados_template import acados_ocp_cost as m_cost

MODS = (m_ocp, m_utils)


# contract of utils.verify_weighting_matrix used at its call sites (its body is checked on its own below)
def vwm_stub(A, name, tol=1e-10):
    if not isinstance_real(A, S.SymArr):
        return m_utils_vwm(A, name, tol)
    if A.ndim != 2:
        raise ValueError("2-dimensional")
    if A.shape[0] != A.shape[1]:
        raise ValueError("not square")
    if not hasattr(A, "ok"):
        raise Unsupported("weighting matrix without contract value")
    if not A.ok:
        raise TypeError("weighting matrix")


m_utils_vwm = m_utils.verify_weighting_matrix


def wm_ok(A):
    """square, symmetric, and diagonal with nonnegative entries or positive definite"""
    if isinstance_real(A, S.SymArr):
        return And(A.shape[0] == A.shape[1], A.ok)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        return False
    if not np.allclose(A, A.T, atol=1e-10):
        return False
    if np.all(np.abs(A - np.diag(np.diag(A))) < 1e-10):
        return bool(np.all(np.diag(A) >= 0))
    return bool(np.all(np.linalg.eigvalsh(A) > 1e-10))


STUBS = dict(verify_weighting_matrix=vwm_stub)
DIMS = {"dims.nx": "dim", "dims.nu": "dim", "dims.nz": "dim"}


def NEVER(o):
    return False, {}


def scn(name, method, vars, spec, fixed=None, pre=None, **k):
    f = {"solver_options.N_horizon": 5}
    f.update(fixed or {})
    return Scenario(name, AcadosOcp, method, vars, spec, f, pre, mods=MODS, stubs=STUBS, never=spec is NEVER, **k)


# ------------------------------------------------------------ cost
def cost_scn(suf, method):
    """suf: '_0', '', '_e'"""
    c = lambda f: f"cost.{f}{suf}"
    m = lambda f: f"model.{f}{suf}"
    g = lambda o, f: getattr(o.cost, f + suf)
    gm = lambda o, f: getattr(o.model, f + suf)
    term = suf == "_e"
    out = []
    ct = "cost.cost_type" + suf
    nyf = "dims.ny" + suf

    def lls(o):
        W = g(o, "W")
        ny = ln(W)
        acc = And(wm_ok(W), ln(g(o, "Vx")) == ny, Or(ny == 0, g(o, "Vx").shape[1] == o.dims.nx), ln(g(o, "yref")) == ny)
        if not term:
            acc = And(acc, ln(g(o, "Vu")) == ny, Or(ny == 0, g(o, "Vu").shape[1] == o.dims.nu),
                      Or(o.dims.nz == 0, And(ln(g(o, "Vz")) == ny, Or(ny == 0, g(o, "Vz").shape[1] == o.dims.nz))))
        return acc, {nyf: ny}
    v = dict(DIMS)
    v.update({c("W"): "wmat", c("Vx"): "mat", c("yref"): "vec"})
    if not term:
        v.update({c("Vu"): "mat", c("Vz"): "mat"})
    out.append(scn(f"cost{suf or '_path'}.LINEAR_LS", method, v, lls, {ct: "LINEAR_LS"}))

    def nls(o):
        W = g(o, "W")
        ny = ln(W)
        return And(wm_ok(W), clen(gm(o, "cost_y_expr")) == ny, ln(g(o, "yref")) == ny), {nyf: ny}
    v = {c("W"): "wmat", c("yref"): "vec", m("cost_y_expr"): "sx"}
    out.append(scn(f"cost{suf or '_path'}.NONLINEAR_LS", method, v, nls, {ct: "NONLINEAR_LS"}))
    for nm, val in (("None", None),):
        v = {c("W"): "wmat", c("yref"): "vec"}
        out.append(scn(f"cost{suf or '_path'}.NONLINEAR_LS.no-expression", method, v, nls, {ct: "NONLINEAR_LS", m("cost_y_expr"): val}))

    # symbolic yref or W are rejected
    for fld in ("yref", "W"):
        for t in ("LINEAR_LS", "NONLINEAR_LS"):
            v = {c("W"): "wmat", c("yref"): "vec"}
            del v[c(fld)]
            out.append(scn(f"cost{suf or '_path'}.{t}.symbolic-{fld}", method, v, NEVER,
                           {ct: t, c(fld): ca.SX.sym("s", 2, 2) if fld == "W" else ca.SX.sym("s", 2), m("cost_y_expr"): ca.SX.sym("y", 2)}))

    def conl(o):
        ny = clen(gm(o, "cost_y_expr"))
        h = o.solver_options
        return And(ny > 0, clen(gm(o, "cost_r_in_psi_expr")) == ny, clen(gm(o, "cost_psi_expr")) == 1, ln(g(o, "yref")) == ny,
                   Or(h.hessian_approx == "GAUSS_NEWTON", And(h.hessian_approx == "EXACT", Not(h.exact_hess_cost)))), {nyf: ny}
    for hess in ("GAUSS_NEWTON", "EXACT"):
        for eh in (True, False):
            if hess == "EXACT" and eh:
                continue
            v = {c("yref"): "vec", m("cost_y_expr"): "sx", m("cost_r_in_psi_expr"): "sx", m("cost_psi_expr"): "sx"}
            out.append(scn(f"cost{suf or '_path'}.CONL.{hess}.{eh}", method, v, conl,
                           {ct: "CONVEX_OVER_NONLINEAR", "solver_options.hessian_approx": hess, "solver_options.exact_hess_cost": eh}))
    v = {c("yref"): "vec", m("cost_y_expr"): "sx", m("cost_r_in_psi_expr"): "sx", m("cost_psi_expr"): "sx"}
    out.append(scn(f"cost{suf or '_path'}.CONL.EXACT.True", method, v, NEVER,
                   {ct: "CONVEX_OVER_NONLINEAR", "solver_options.hessian_approx": "EXACT", "solver_options.exact_hess_cost": True}))
    for missing in ("cost_y_expr", "cost_r_in_psi_expr", "cost_psi_expr"):
        v = {c("yref"): "vec", m("cost_y_expr"): "sx", m("cost_r_in_psi_expr"): "sx", m("cost_psi_expr"): "sx"}
        del v[m(missing)]
        out.append(scn(f"cost{suf or '_path'}.CONL.no-{missing}", method, v, NEVER, {ct: "CONVEX_OVER_NONLINEAR", m(missing): None}))

    def ext(o):
        e, H = gm(o, "cost_expr_ext_cost"), gm(o, "cost_expr_ext_cost_custom_hess")
        n = o.dims.nx if term else o.dims.nx + o.dims.nu
        ok = And(clen(e) == 1, Or(empty(H), And(H.shape[0] == n, H.shape[1] == n) if not (H is None or isinstance_real(H, list)) else True))
        return ok, {}
    v = dict(DIMS)
    v.update({m("cost_expr_ext_cost"): "sx", m("cost_expr_ext_cost_custom_hess"): "sxm"})
    out.append(scn(f"cost{suf or '_path'}.EXTERNAL", method, v, ext, {ct: "EXTERNAL"}))
    v = {**DIMS, m("cost_expr_ext_cost"): "sx"}
    out.append(scn(f"cost{suf or '_path'}.EXTERNAL.no-custom-hess", method, v, ext, {ct: "EXTERNAL"}))
    for val in (2.5, 3):
        out.append(scn(f"cost{suf or '_path'}.EXTERNAL.number-{val}", method, DIMS,
                       lambda o, val=val: (True, {m("cost_expr_ext_cost"): ca.DM(val)}), {ct: "EXTERNAL", m("cost_expr_ext_cost"): val}))
    for val in (None, "x"):
        out.append(scn(f"cost{suf or '_path'}.EXTERNAL.not-an-expression-{val}", method, DIMS,
                       NEVER, {ct: "EXTERNAL", m("cost_expr_ext_cost"): val}))
    if suf != "_e":
        v = dict(DIMS)
        v.update({c("W"): "mat", c("Vx"): "mat", c("yref"): "vec"})
        out.append(scn(f"cost{suf or '_path'}.no-horizon", method, v, lambda o: (True, {}), {ct: "LINEAR_LS", "solver_options.N_horizon": 0}))
    return out


CP = ("W", "Vx", "Vu", "Vz", "yref", "cost_ext_fun_type")
CM = ("cost_y_expr", "cost_expr_ext_cost", "cost_expr_ext_cost_custom_hess", "cost_psi_expr", "cost_r_in_psi_expr", "cost_conl_custom_outer_hess")


def copied():
    """cost_type_0 None: stage 0 gets the path cost, then is checked like any other"""
    upd = lambda o: {**{f"cost.{f}_0": getattr(o.cost, f) for f in CP}, **{f"model.{f}_0": getattr(o.model, f) for f in CM}}

    def lls(o):
        W, ny = o.cost.W, ln(o.cost.W)
        acc = And(wm_ok(W), ln(o.cost.Vx) == ny, Or(ny == 0, o.cost.Vx.shape[1] == o.dims.nx), ln(o.cost.yref) == ny,
                  ln(o.cost.Vu) == ny, Or(ny == 0, o.cost.Vu.shape[1] == o.dims.nu),
                  Or(o.dims.nz == 0, And(ln(o.cost.Vz) == ny, Or(ny == 0, o.cost.Vz.shape[1] == o.dims.nz))))
        return acc, {**upd(o), "cost.cost_type_0": "LINEAR_LS", "dims.ny_0": ny}
    v = dict(DIMS)
    v.update({"cost.W": "wmat", "cost.Vx": "mat", "cost.Vu": "mat", "cost.Vz": "mat", "cost.yref": "vec",
              "cost.W_0": "mat", "cost.Vx_0": "mat", "cost.yref_0": "vec"})
    return [scn("cost_0.None->LINEAR_LS", "_make_consistent_cost_initial", v, lls, {"cost.cost_type": "LINEAR_LS", "cost.cost_type_0": None}),
            scn("copy_path_cost_to_stage_0", "copy_path_cost_to_stage_0",
                {"cost.W": "mat", "cost.Vx": "mat", "cost.Vu": "mat", "cost.Vz": "mat", "cost.yref": "vec", **{f"model.{f}": "sx" for f in CM}},
                lambda o: (True, {**upd(o), "cost.cost_type_0": "NONLINEAR_LS"}),
                {"cost.cost_type": "NONLINEAR_LS", "cost.cost_ext_fun_type": "generic"})]


# ------------------------------------------------------------ constraints
def idx_ok(idx, n):
    return Not(anyof(idx, lambda v: v >= n))


def nonneg(idx):
    return Not(anyof(idx, lambda v: v < 0))


def bgp(o, suf):
    """(accept, updates) of the convex-over-nonlinear constraint"""
    phi, r = getattr(o.model, "con_phi_expr" + suf), getattr(o.model, "con_r_expr" + suf)
    e = empty(phi)
    acc = Or(e, Not(empty(r)))
    old = getattr(o.constraints, "constr_type" + suf)
    u = {"dims.nphi" + suf: clen(phi), "dims.nr" + suf: Ite(e, 0, clen(r))}
    u["constraints.constr_type" + suf] = old if e is True else "BGP"
    return acc, u, e


def con_scns():
    out = []
    for phi in (False, True):
        P = lambda suf, phi=phi: ({f"model.con_phi_expr{suf}": "sx", f"model.con_r_expr{suf}": "sx"} if phi else {})

        def pre_phi(suf, phi=phi):
            # an expression given with zero rows counts as absent and is left out here
            return (lambda o: [clen(getattr(o.model, "con_phi_expr" + suf)) >= 1]) if phi else None
        tag = ".phi" if phi else ""
        for has_x0 in (False, True):
            def initial(o, has_x0=has_x0):
                c, nbx = o.constraints, ln(o.constraints.idxbx_0)
                nh = clen(o.model.con_h_expr_0)
                a, u, _ = bgp(o, "_0")
                acc = And(ln(c.ubx_0) == nbx, ln(c.lbx_0) == nbx, idx_ok(c.idxbx_0, o.dims.nx), idx_ok(c.idxbxe_0, nbx),
                          ln(c.uh_0) == nh, ln(c.lh_0) == nh, a)
                if has_x0:
                    ar = arange(o.dims.nx)
                    acc = And(acc, nbx == o.dims.nx, S.same(c.idxbxe_0, ar))
                return acc, {"dims.nbx_0": nbx, "dims.nbxe_0": ln(c.idxbxe_0), "dims.nh_0": nh, **u}
            v = {"dims.nx": "dim", "constraints.idxbx_0": "ivec", "constraints.idxbxe_0": "ivec", "constraints.lbx_0": "vec", "constraints.ubx_0": "vec",
                 "constraints.lh_0": "vec", "constraints.uh_0": "vec", "model.con_h_expr_0": "sx", **P("_0")}
            out.append(x0scn(f"constraints_0{tag}.{'x0' if has_x0 else 'no-x0'}", v, initial, has_x0, pre_phi("_0")))

        def path(o):
            c = o.constraints
            nbx, nbu, ng, nh = ln(c.idxbx), ln(c.idxbu), ln(c.lg), clen(o.model.con_h_expr)
            a, u, _ = bgp(o, "")
            acc = And(ln(c.ubx) == nbx, ln(c.lbx) == nbx, idx_ok(c.idxbx, o.dims.nx), ln(c.ubu) == nbu, ln(c.lbu) == nbu, idx_ok(c.idxbu, o.dims.nu),
                      ln(c.ug) == ng, ln(c.C) == ng, ln(c.D) == ng, Or(ng == 0, And(c.C.shape[1] == o.dims.nx, c.D.shape[1] == o.dims.nu)),
                      ln(c.uh) == nh, ln(c.lh) == nh, a)
            return acc, {"dims.nbx": nbx, "dims.nbu": nbu, "dims.ng": ng, "dims.nh": nh, **u}
        v = {"dims.nx": "dim", "dims.nu": "dim", "constraints.idxbx": "ivec", "constraints.lbx": "vec", "constraints.ubx": "vec",
             "constraints.idxbu": "ivec", "constraints.lbu": "vec", "constraints.ubu": "vec", "constraints.lg": "vec", "constraints.ug": "vec",
             "constraints.C": "mat", "constraints.D": "mat", "constraints.lh": "vec", "constraints.uh": "vec", "model.con_h_expr": "sx", **P("")}
        out.append(scn(f"constraints_path{tag}", "_make_consistent_constraints_path", v, path, pre=pre_phi("")))

        def term(o):
            c = o.constraints
            nbx, ng, nh = ln(c.idxbx_e), ln(c.lg_e), clen(o.model.con_h_expr_e)
            a, u, _ = bgp(o, "_e")
            acc = And(ln(c.ubx_e) == nbx, ln(c.lbx_e) == nbx, idx_ok(c.idxbx_e, o.dims.nx), ln(c.ug_e) == ng, ln(c.C_e) == ng,
                      Or(ng == 0, c.C_e.shape[1] == o.dims.nx), ln(c.uh_e) == nh, ln(c.lh_e) == nh, a)
            return acc, {"dims.nbx_e": nbx, "dims.ng_e": ng, "dims.nh_e": nh, **u}
        v = {"dims.nx": "dim", "constraints.idxbx_e": "ivec", "constraints.lbx_e": "vec", "constraints.ubx_e": "vec", "constraints.lg_e": "vec",
             "constraints.ug_e": "vec", "constraints.C_e": "mat", "constraints.lh_e": "vec", "constraints.uh_e": "vec", "model.con_h_expr_e": "sx", **P("_e")}
        for N in (0, 5):
            out.append(scn(f"constraints_e{tag}.N{N}", "_make_consistent_constraints_terminal", v, term, {"solver_options.N_horizon": N}, pre=pre_phi("_e")))
    # phi without r
    for suf, meth in (("_0", "initial"), ("", "path"), ("_e", "terminal")):
        out.append(scn(f"constraints{suf or '_path'}.phi-without-r", "_make_consistent_constraints_" + meth, {f"model.con_phi_expr{suf}": "sx", "dims.nx": "dim", "dims.nu": "dim"},
                       NEVER, pre=lambda o, suf=suf: [clen(getattr(o.model, "con_phi_expr" + suf)) >= 1]))
    out.append(scn("constraints_0.no-horizon", "_make_consistent_constraints_initial", {"constraints.idxbx_0": "ivec", "constraints.lbx_0": "vec"},
                   lambda o: (True, {"dims.nbxe_0": 0}), {"solver_options.N_horizon": 0}))
    out.append(scn("constraints_path.no-horizon", "_make_consistent_constraints_path", {"constraints.idxbx": "ivec", "constraints.lbx": "vec"},
                   lambda o: (True, {}), {"solver_options.N_horizon": 0}))
    return out


class X0Scenario(Scenario):
    """has_x0 is a read-only property: set through the x0 setter in concrete replays"""
    def build(self, vals):
        import contextlib, io
        vals = dict(vals)
        real = self.make()
        nx = vals["constraints.idxbx_0"].shape[0]
        keep = self.make
        if self.has_x0:
            real.constraints.x0 = np.zeros((nx,))
        self.make = lambda: real
        try:
            return super().build(vals)
        finally:
            self.make = keep


def x0scn(name, v, spec, has_x0, pre):
    s = X0Scenario(name, AcadosOcp, "_make_consistent_constraints_initial", v, spec, {"solver_options.N_horizon": 5}, pre, mods=MODS, stubs=STUBS)
    s.has_x0 = has_x0
    orig = s.parts0

    def parts0():
        d = orig()
        d["constraints"]["has_x0"] = has_x0
        return d
    s.parts0 = parts0
    return s


# ------------------------------------------------------------ slacks
def slack_scns():
    out = []
    SL = {"_0": ["h", "phi"], "": ["bx", "bu", "h", "phi", "g"], "_e": ["bx", "h", "phi", "g"]}
    DIMOF = {"bx": "nbx", "bu": "nbu", "h": "nh", "phi": "nphi", "g": "ng"}
    METH = {"_0": "initial", "": "path", "_e": "terminal"}
    for suf, kinds in SL.items():
        def spec(o, suf=suf, kinds=kinds):
            acc, u, ns = True, {}, 0
            for k in kinds:
                idx = getattr(o.constraints, f"idxs{k}{suf}")
                n = getattr(o.dims, DIMOF[k] + suf)
                m = ln(idx)
                acc = And(acc, m <= n, idx_ok(idx, n))
                for b in "lu":
                    f = f"{b}s{k}{suf}"
                    val = getattr(o.constraints, f)
                    acc = And(acc, Or(ln(val) == 0, ln(val) == m))
                    u["constraints." + f] = Ite(ln(val) == 0, zeros(m), val)
                u[f"dims.ns{k}{suf}"] = m
                ns = m + ns
            if suf == "_0":
                ns = ns + o.dims.nsbu + o.dims.nsg
            Zs = [getattr(o.cost, f + suf) for f in ("Zl", "Zu", "zl", "zu")]
            if suf == "_0" and all(z is None for z in Zs):
                acc0 = Or(ns == 0, ns == o.dims.ns)
                Zp = [getattr(o.cost, f) for f in ("Zl", "Zu", "zl", "zu")]
                acc = And(acc, acc0, Or(ns == 0, And(*[ln(z) == ns for z in Zp])))
                for f, z in zip(("Zl", "Zu", "zl", "zu"), Zp):
                    u[f"cost.{f}_0"] = Ite(ns == 0, zeros(0) if not S.sym(ns) else S.SymArr((0,), lambda i: z3.RealVal(0)), z)
            else:
                for z in Zs:
                    acc = And(acc, ln(z) == ns)
            u["dims.ns" + suf] = ns
            return acc, u

        def vars(subset, Z=True, suf=suf, kinds=kinds):
            v = {}
            for k in kinds:
                v[f"dims.{DIMOF[k]}{suf}"] = "dim"
                if k in subset:
                    v[f"constraints.idxs{k}{suf}"] = "ivec"
                    v[f"constraints.ls{k}{suf}"] = "vec"
                    v[f"constraints.us{k}{suf}"] = "vec"
            if suf == "_0":
                v.update({"dims.nsbu": "dim", "dims.nsg": "dim", "dims.ns": "dim"})
            if Z:
                v.update({f"cost.{f}{suf}": "vec" for f in ("Zl", "Zu", "zl", "zu")})
            return v
        meth = "_make_consistent_slacks_" + METH[suf]
        # exhaustive case split over which lower slack bounds are given, to run in parallel
        split = [k for k in kinds if k != "phi"][:{"": 4, "_e": 2, "_0": 1}[suf]]
        for case in itertools.product((True, False), repeat=len(split)):
            pre = lambda o, case=case, split=split, suf=suf: [(ln(getattr(o.constraints, f"ls{k}{suf}")) == 0) if e else (ln(getattr(o.constraints, f"ls{k}{suf}")) > 0) for k, e in zip(split, case)]
            out.append(scn(f"slacks{suf or '_path'}.{''.join('01'[not e] for e in case)}", meth, vars(kinds), spec, pre=pre))
        if suf == "_0":
            v = vars(kinds, False)
            v.update({f"cost.{f}": "vec" for f in ("Zl", "Zu", "zl", "zu")})
            fx = {f"cost.{f}_0": None for f in ("Zl", "Zu", "zl", "zu")}
            out.append(NoneScenario("slacks_0.penalties-not-given", AcadosOcp, meth, v, spec, {"solver_options.N_horizon": 5, **fx},
                                    None, mods=MODS, stubs=STUBS))
        if suf != "_e":
            out.append(scn(f"slacks{suf or '_path'}.no-horizon", meth, vars(kinds), lambda o: (True, {}), {"solver_options.N_horizon": 0}))
    # idxs_rev: index of the slack of each constraint, -1 if it is not softened
    for suf, dd in {"_0": ["nbu", "nbx_0", "nh_0", "ng", "nphi_0"], "": ["nbu", "nbx", "nh", "ng", "nphi"], "_e": ["nbx_e", "nh_e", "ng_e", "nphi_e"]}.items():
        for n in range(0, 5):
            def spec(o, suf=suf, dd=dd, n=n):
                tot = 0
                for d in dd:
                    tot = getattr(o.dims, d) + tot
                idx = getattr(o.constraints, "idxs_rev" + suf)
                vals = list(idx)
                mx = -1
                for x in vals:
                    mx = Ite(x > mx, x, mx)
                ns = mx + 1
                acc = And(tot == n, *[And(x >= -1, x < tot) for x in vals])
                acc = And(acc, *[Implies(j < ns, Or(*[x == j for x in vals])) for j in range(n)])
                u = {"dims.ns" + suf: ns}
                for b in ("ls", "us"):
                    val = getattr(o.constraints, b + suf)
                    acc = And(acc, Or(ln(val) == 0, ln(val) == ns))
                    u[f"constraints.{b}{suf}"] = Ite(ln(val) == 0, zeros(ns), val)
                for f in ("Zl", "Zu", "zl", "zu"):
                    acc = And(acc, ln(getattr(o.cost, f + suf)) == ns)
                return acc, u
            v = {f"dims.{d}": "dim" for d in dd}
            v.update({f"constraints.idxs_rev{suf}": ("ivec", n), f"constraints.ls{suf}": "vec", f"constraints.us{suf}": "vec"})
            v.update({f"cost.{f}{suf}": "vec" for f in ("Zl", "Zu", "zl", "zu")})
            out.append(scn(f"slacks_rev{suf or '_path'}.len{n}", "_make_consistent_slacks_rev_" + METH[suf], v, spec))
    return out


class NoneScenario(Scenario):
    """penalties left unset: the record starts with None, the real object by construction"""
    def build(self, vals):
        keep = dict(self.fixed)
        self.fixed = {k: v for k, v in keep.items() if v is not None}
        try:
            return super().build(vals)
        finally:
            self.fixed = keep


def bounded_vwm(chk):
    """utils.verify_weighting_matrix: its eigenvalue computation is outside the verifier's reach"""
    import random
    from vf.core import SEED
    rnd = np.random.RandomState(SEED)
    n = 0
    chk.fn("utils.verify_weighting_matrix")
    for _ in range(1500):
        k = rnd.randint(0, 4)
        mode = rnd.randint(0, 8)
        A = rnd.randn(k, k)
        if mode in (1, 2):
            A = A + A.T
        elif mode == 3:
            A = A @ A.T + 0.1 * np.eye(k)
        elif mode == 4:
            A = np.diag(rnd.randint(-1, 3, size=k).astype(float)) if k else A
        elif mode == 5:
            A = rnd.randn(k, rnd.randint(0, 4))
        elif mode == 6:
            A = A @ A.T + 0.1 * np.eye(k)
            if k > 1:
                A[0, 1] += rnd.choice([1e-3, -1e-4])
        elif mode == 7 and k > 1:
            B = rnd.randn(k, k - 1)
            A = B @ B.T - rnd.choice([0.0, 0.01]) * np.eye(k)
        n += 1
        try:
            m_utils.verify_weighting_matrix(A, "W")
            got = True
        except Exception:
            got = False
        if A.size and A.shape[0] == A.shape[1] and np.allclose(A, A.T, atol=1e-10) and abs(np.linalg.eigvalsh(A).min()) < 1e-8:
            continue
        if got != wm_ok(A):
            chk.refuted("verify_weighting_matrix", "accepts exactly symmetric positive (semi)definite weights", dict(what="verify_weighting_matrix", A=A.tolist(), accepted=got))
            return
    chk.bounded("verify_weighting_matrix", "eigenvalue computation of numpy", "1500 seeded matrices up to 3x3", n)


def main():
    chk = Check("P01", "z3 on every path of the executed methods; arrays of arbitrary size as index functions, reductions as quantifiers",
                trusted=["z3", "vf/pysym.py path exploration", "vf/symarr.py model of the numpy operations used (shape, any, all, max, zeros, arange, comparisons)",
                         "numpy and CasADi outside the modelled operations"],
                assumptions=["utils.verify_weighting_matrix by contract at its call sites (its body is bounded)", "detect_cost_type (AUTO) assumed",
                             "idxs_rev formulation for up to 4 constraints per stage (contents symbolic)"])
    scns = cost_scn("_0", "_make_consistent_cost_initial") + cost_scn("", "_make_consistent_cost_path") + cost_scn("_e", "_make_consistent_cost_terminal")
    scns += copied() + con_scns() + slack_scns()
    # slowest first
    scns.sort(key=lambda s: not s.name.startswith("slacks"))
    import os
    only = os.environ.get("VF_ONLY")
    if only:
        scns = [s for s in scns if only in s.name]
    run_tasks(chk, [s.task() for s in scns])
    bounded_vwm(chk)
    return chk.finish("proof", 300 if not only else 1)
