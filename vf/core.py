"""Bookkeeping shared by all checks: obligations, violations, evidence, known findings."""
import json, os, sys, time, traceback, hashlib

HOME = os.environ.get("VF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Unsupported(Exception):
    """The verifier cannot handle this code; the caller may fall back on a bounded stand-in."""


class Check:
    """One run of one property's check.

    An obligation ends in exactly one state:
      discharged  the back end accepted it
      bounded     outside the verifier's reach on this tree; the bounded stand-in ran and passed
      refuted     a concrete input that violates it was replayed on the real code
      undecided   it was not accepted and no failing input was found
      known       refuted, but listed in KNOWN_FINDINGS
    """

    def __init__(self, pid, checker, trusted=(), assumptions=()):
        self.pid = pid
        self.checker = checker
        self.trusted = list(trusted)
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.obl = []            # dicts
        self.functions = set()
        self.backends = {}
        self.solver_s = 0.0
        self.notes = []
        self.covers = {}
        self.known = self._load_known()
        self.bounded_evals = 0
        self.extra = {}

    # -- known findings ----------------------------------------------------------
    def _load_known(self):
        res = {}
        p = os.path.join(HOME, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding: "):
                    parts = line[len("finding: "):].split(None, 2)
                    d = dict(x.split("=", 1) for x in parts[:2])
                    if d.get("property") == self.pid:
                        res[d["key"]] = parts[2] if len(parts) > 2 else ""
        return res

    # -- recording ---------------------------------------------------------------
    def fn(self, *names):
        for n in names:
            self.functions.add(n)

    def _add(self, name, state, backend=None, **kw):
        self.obl.append(dict(name=name, state=state, backend=backend, **kw))
        if backend and state == "discharged":
            self.backends[backend] = self.backends.get(backend, 0) + 1

    def discharged(self, name, backend="z3", secs=0.0):
        self.solver_s += secs
        self._add(name, "discharged", backend)

    def bounded(self, name, why, bound, evals=0):
        self.bounded_evals += evals
        self._add(name, "bounded", None, why=str(why)[:300], bound=bound)

    def refuted(self, name, detail, replay, key=None):
        """replay: dict describing the concrete failing input and what the real code did."""
        if key is not None and key in self.known:
            self._add(name, "known", None, key=key)
            print(f"KNOWN-FINDING: property={self.pid} {key} {self.known[key]}")
            return
        self._add(name, "refuted", None, detail=detail, replay=replay, key=key)

    def undecided(self, name, detail, output=""):
        self._add(name, "undecided", None, detail=detail, output=str(output)[:20000])

    def cover(self, name, ok=True):
        """Reachability guard: at least one execution/model reaches this point."""
        self.covers[name] = self.covers.get(name, False) or bool(ok)

    def note(self, s):
        self.notes.append(str(s)[:400])

    # -- end ---------------------------------------------------------------------
    def finish(self, level="proof", min_obligations=1):
        n = len(self.obl)
        st = {}
        for o in self.obl:
            st[o["state"]] = st.get(o["state"], 0) + 1
        bad = [o for o in self.obl if o["state"] in ("refuted", "undecided")]
        uncovered = [k for k, v in self.covers.items() if not v]
        if n < min_obligations:
            bad.append(dict(name="vacuity", state="undecided",
                            detail=f"only {n} obligations were generated, expected at least {min_obligations}"))
        if uncovered and not bad:
            bad.append(dict(name="cover", state="undecided",
                            detail="unreached: " + ", ".join(uncovered)))
        cov = dict(
            obligations=n, discharged=st.get("discharged", 0),
            checker_cmd=self.checker, trusted_base=self.trusted,
            by_backend=self.backends, solver_seconds=round(self.solver_s, 2),
            functions_under_contract=sorted(self.functions),
            bounded_standins=[dict(name=o["name"], bound=o.get("bound"), why=o.get("why")) for o in self.obl if o["state"] == "bounded"][:200],
            bounded_evaluations=self.bounded_evals,
            known=st.get("known", 0), refuted=st.get("refuted", 0), undecided=st.get("undecided", 0),
            reachability_guards=len(self.covers),
            obligation_names_sample=[o["name"] for o in self.obl[:60]],
            notes=self.notes[:60],
        )
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        with open(os.path.join(HOME, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid}: {st.get('discharged',0)}/{n} obligations discharged, "
              f"{st.get('bounded',0)} by bounded stand-in, {st.get('known',0)} known findings, "
              f"{len(bad)} failed; {len(self.functions)} functions; {time.time()-self.t0:.1f}s")
        if not bad:
            return 0
        # refuted with a replayed input first
        bad.sort(key=lambda o: o["state"] != "refuted")
        os.makedirs(os.path.join(HOME, "replays"), exist_ok=True)
        path = os.path.join(HOME, "replays", f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, failed_obligations=bad[:200]), f, indent=1, default=str)
        for o in bad[:8]:
            print(f"  failed obligation: {o['name']}: {o.get('detail','')}"[:600])
        tail = "" if bad[0]["state"] == "refuted" else " no-failing-input-found"
        print(f"VIOLATION property={self.pid} replay={path}{tail}")
        return 1
