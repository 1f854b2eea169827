"""P03: Huber-type penalty functions equal their piecewise definition for every argument."""
import random, itertools
import z3
import casadi as ca
from vf.core import Check, Unsupported, SEED
from vf import pysym
from vf.pysym import Engine, settle, fallback, to_py
from vf.sxz3 import SXParam, convert
from acados_template import penalty_utils as pu

R = lambda x: z3.RealVal(x)


# ---- the specification: closed forms, generic over (z3 | float) through `ite`
def ite_z(c, a, b):
    return z3.If(c, a, b)


def ite_f(c, a, b):
    return a if c else b


def spec_huber(u, delta, tau, ite):
    au = ite(u >= 0, u, -u)
    loss = ite(au <= delta, tau * u * u / (2 * delta), tau * (au - delta / 2))
    grad = ite(au <= delta, tau * u / delta, ite(u > 0, tau, -tau))
    xgn = ite(au <= delta, tau / delta, tau / ite(au == 0, au + 1, au))
    return loss, grad, xgn, (au < delta, au > delta, tau / delta)


def spec_one(u, delta, tau, ite):
    w = tau / (2 * delta)
    pen = ite(u <= 0, 0 * u, ite(u <= 2 * delta, w * u * u / 2, tau * (u - delta)))
    grad = ite(u <= 0, 0 * u, ite(u <= 2 * delta, w * u, tau))
    v = u - delta
    av = ite(v >= 0, v, -v)
    xgn = ite(av <= delta, w, tau / (2 * ite(av == 0, av + 1, av)))
    return pen, grad, xgn, (av < delta, av > delta, w)


def spec_sym(u, delta, tau, ite):
    w = tau / (2 * delta)
    au = ite(u >= 0, u, -u)
    sg = ite(u >= 0, 0 * u + 1, 0 * u - 1)
    e = au - 1
    pen = ite(e <= 0, 0 * u, ite(e <= 2 * delta, w * e * e / 2, tau * (e - delta)))
    grad = ite(e <= 0, 0 * u, sg * ite(e <= 2 * delta, w * e, tau))
    v = e - delta
    av = ite(v >= 0, v, -v)
    xgn = ite(av <= delta, w, tau / (2 * ite(av == 0, av + 1, av)))
    return pen, grad, xgn, (av < delta, av > delta, w)


SPECS = {"one_sided_huber_penalty": spec_one, "symmetric_huber_penalty": spec_sym}


def concrete_violation(fname, d, tau, w, mh, uval):
    """Replays one input on the real function; None if it behaves as specified."""
    inp = dict(function=fname, delta=d, tau=tau, w=w, min_hess=mh, u=uval)
    u = ca.SX.sym("u")
    f = getattr(pu, fname)
    must_raise = d < 0 or (tau is None) == (w is None)
    try:
        if fname == "huber_loss":
            must_raise = False
            res = f(u, d, tau)
        else:
            res = f(u, delta=d, tau=tau, w=w, min_hess=mh)
    except ValueError:
        return None if must_raise else dict(inp, what=f"{fname} rejected a valid input", key=None)
    except Exception as e:
        return dict(inp, what=f"{fname} raised {e!r}")
    if must_raise:
        return dict(inp, what=f"{fname} accepted an invalid input")
    if d <= 0:
        return None
    got = [float(x) for x in ca.Function("g", [u], list(res))(uval)]
    t = tau if tau is not None else 2 * w * d
    if fname == "huber_loss":
        L, G, X, (inside, outside, wq) = spec_huber(uval, d, t, ite_f)
    else:
        L, G, X, (inside, outside, wq) = SPECS[fname](uval, d, t, ite_f)
    H = wq if inside else 0.0
    if mh and mh > 0:
        H, X = max(mh, H), max(mh, X)
    exp = [L, G, H, X]
    tol = 1e-9 * (1 + abs(t) * (1 + abs(uval) + d) + abs(wq))
    edge = min(abs(abs(uval) - d), abs(uval), abs(abs(uval) - 1), abs(uval - 2 * d), abs(abs(uval) - 1 - 2 * d)) < 1e-9 * (1 + abs(uval))
    for k, n in enumerate(["penalty", "gradient", "Hessian", "XGN Hessian"]):
        if k == 2 and edge:
            continue
        if not abs(got[k] - exp[k]) <= tol:
            return dict(inp, what=f"{fname}: {n} is {got[k]}, specified {exp[k]}", got=got, expected=exp)
    return None


def search(fname, n=400):
    rnd = random.Random(SEED)
    cnt = 0
    for _ in range(n):
        d = rnd.choice([0.1, 0.5, 1.0, 1.5, 2.0, 3.0, rnd.uniform(0.01, 4)])
        tw = rnd.choice([(1.0, None), (None, 1.0), (rnd.uniform(0.1, 5), None), (None, rnd.uniform(0.1, 5))])
        mh = rnd.choice([0.0, 0.0, rnd.uniform(0.01, 3)])
        u = rnd.choice([0.0, 1.0, -1.0, d, -d, 2 * d, 1 + d, 1 + 2 * d, rnd.uniform(-8, 8), rnd.uniform(-2, 2)])
        if fname == "huber_loss":
            tw, mh = (tw[0] or tw[1], None), 0.0
        cnt += 1
        r = concrete_violation(fname, d, tw[0], tw[1], mh, u)
        if r:
            return r, cnt
    if fname != "huber_loss":
        for d, tau, w in [(-1.0, 1.0, None), (1.0, None, None), (1.0, 1.0, 1.0), (-0.5, None, 1.0)]:
            cnt += 1
            r = concrete_violation(fname, d, tau, w, 0.0, 0.3)
            if r:
                return r, cnt
    return None, cnt


def verify(chk, fname, use_tau, use_w):
    label = f"{fname}[{'tau' if use_tau else ''}{'w' if use_w else ''}]"
    f = getattr(pu, fname)
    chk.fn(f"penalty_utils.{fname}")
    u = ca.SX.sym("u")
    U = z3.Real("u")
    delta, tau, w, mh = SXParam("delta"), SXParam("tau"), SXParam("w"), SXParam("min_hess")
    eng = Engine()

    def rp(model):
        val = lambda t: float(to_py(model.eval(t, model_completion=True)))
        return concrete_violation(fname, val(delta.t), val(tau.t) if use_tau else None,
                                  val(w.t) if use_w else None, val(mh.t) if fname != "huber_loss" else 0.0, val(U))

    srch = lambda: search(fname, 2000)[0]
    try:
        if fname == "huber_loss":
            thunk = lambda: f(u, delta, tau)
        else:
            thunk = lambda: f(u, delta=delta, tau=tau if use_tau else None, w=w if use_w else None, min_hess=mh)
        paths = list(eng.run(thunk))
        chk.solver_s += eng.solver_s
        nret = 0
        for pi, (pc, kind, val) in enumerate(paths):
            bad = z3.BoolVal(use_tau == use_w) if fname != "huber_loss" else z3.BoolVal(False)
            rejected_ok = z3.Or(delta.t < 0, bad)
            if kind == "raise":
                if not isinstance(val, ValueError):
                    goal = z3.BoolVal(False)
                else:
                    goal = rejected_ok
                settle(chk, f"{label}.path{pi}.raises-only-on-invalid-input", pc, goal, rp, srch)
                continue
            nret += 1
            dom = z3.Or(z3.Not(rejected_ok)) if fname != "huber_loss" else z3.BoolVal(True)
            if not settle(chk, f"{label}.path{pi}.invalid-input-is-rejected", pc, dom, rp, srch):
                continue
            env = [(ca.vertcat(u, delta.sx, tau.sx, w.sx, mh.sx), [U, delta.t, tau.t, w.t, mh.t])]
            L, G, H, X = [x[0] for x in convert(list(val), env)]
            T = tau.t if use_tau or fname == "huber_loss" else 2 * w.t * delta.t
            sp = spec_huber if fname == "huber_loss" else SPECS[fname]
            sL, sG, sX, (inside, outside, wq) = sp(U, delta.t, T, ite_z)
            pre = pc + [delta.t > 0]
            cl = (lambda x: z3.If(z3.And(mh.t > 0, mh.t > x), mh.t, x)) if fname != "huber_loss" else (lambda x: x)
            settle(chk, f"{label}.path{pi}.value", pre, L == sL, rp, srch)
            settle(chk, f"{label}.path{pi}.gradient", pre, G == sG, rp, srch)
            settle(chk, f"{label}.path{pi}.hessian-quadratic-region", pre + [inside], H == cl(wq), rp, srch)
            settle(chk, f"{label}.path{pi}.hessian-linear-region", pre + [outside] + ([z3.And(U != 1, U != -1)] if fname == "symmetric_huber_penalty" else []), H == cl(R(0)), rp, srch)
            settle(chk, f"{label}.path{pi}.xgn-hessian", pre, X == cl(sX), rp, srch)
        chk.cover(f"{label}.returns", nret > 0 or (use_tau == use_w and fname != "huber_loss"))
    except Unsupported as e:
        fallback(chk, f"{label}.contract", e, lambda: search(fname), "400 seeded arguments")


def main():
    chk = Check("P03", "z3 (real arithmetic) on paths of the executed functions; CasADi SX graphs converted exactly",
                trusted=["z3", "CasADi expression construction, substitution and differentiation (executed, its output graph is what is proved)",
                         "vf/pysym.py path exploration, vf/sxz3.py conversion"],
                assumptions=["floating-point arithmetic treated as real arithmetic"])
    verify(chk, "huber_loss", True, False)
    for f in ("one_sided_huber_penalty", "symmetric_huber_penalty"):
        for tw in ((True, False), (False, True), (True, True), (False, False)):
            verify(chk, f, *tw)
    return chk.finish("proof", 20)
