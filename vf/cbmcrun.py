"""Contracts on C code in ghost-state form, discharged by CBMC.

A harness file in /verif/harness includes the real source file and provides contract stand-ins for the
functions it calls (they assert the callee's precondition and leave everything the callee assigns in an
arbitrary state satisfying its postcondition).  REQUIRE(..) in a harness is a named obligation ("VF ...").
Counterexamples are replayed: the values CBMC chose are read back by the same harness compiled natively
with the real source; exit code 99 means that the contract was violated in that run.
"""
import json, os, re, subprocess, tempfile, shutil, struct, time
from .core import HOME, REPO, Unsupported

INC = ["-I" + os.path.join(HOME, "stubs/include"), "-I" + REPO, "-I" + os.path.join(REPO, "interfaces"), "-I" + os.path.join(HOME, "harness")]
T_END = time.time() + 780


def _run(cmd, timeout, cwd=None):
    t = max(5, min(timeout, T_END - time.time()))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"


class Job:
    def __init__(self, name, harness, defs=(), unwind=4, unwindset="", bound=None, solver=None, objbits=12, srcs=(), native_srcs=("stubs/src/blasfeo_ref.c",), cover=True, timeout=700, extra=(), funcs=(), replace={}):
        self.__dict__.update(locals())


def options(j):
    uw = "strcmp.0:40,stat_rows.0:8" + ("," + j.unwindset if j.unwindset else "")
    o = ["--object-bits", str(j.objbits), "--drop-unused-functions", "--slice-formula", "--unwind", str(j.unwind), "--unwindset", uw, "--unwinding-assertions"]
    if j.solver:
        o += ["--sat-solver", j.solver]
    return o + list(j.extra)


def goto(j, d, out, defs=()):
    cmd = ["goto-cc", *j.defs, *defs, *INC, "--function", "harness", os.path.join(HOME, "harness", j.harness)]
    cmd += [os.path.join(REPO, s) for s in j.srcs] + ["-o", os.path.join(d, out)]
    rc, o = _run(cmd, 120)
    if rc != 0:
        raise Unsupported("goto-cc: " + "\n".join(l for l in o.splitlines() if "rror" in l)[:300])
    for f, g in j.replace.items():      # the call of f is replaced by its contract stand-in g
        gb = os.path.join(d, out)
        rc, o = _run(["goto-instrument", "--show-goto-functions", gb], 120)
        if rc != 0 or not re.search(r"CALL .*\b%s\(" % f, o):
            raise Unsupported(f"{f} is not called any more")
        rc, o = _run(["goto-instrument", "--replace-calls", f"{f}:{g}", gb, gb], 120)
        if rc != 0:
            raise Unsupported(f"goto-instrument --replace-calls {f}: {o[-200:]}")


def properties(out):
    """[(id, line, description, status)] from the plain text output"""
    res = []
    for m in re.finditer(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M):
        res.append(m.groups())
    return res


def native(j, d):
    exe = os.path.join(d, "native")
    cmd = ["gcc", "-w", "-g", "-O0", "-fsanitize=address", "-DNATIVE", *j.defs, *INC, os.path.join(HOME, "harness", j.harness)]
    cmd += [os.path.join(REPO, s) for s in j.srcs] + [os.path.join(HOME, s) for s in j.native_srcs]
    cmd += ["-o", exe, "-lm", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition"]
    if j.replace:
        asm = os.path.join(d, "native.s")
        rc, o = _run([c for c in cmd[:cmd.index(os.path.join(HOME, "harness", j.harness)) + 1]] + ["-S", "-o", asm], 120)
        if rc != 0:
            raise Unsupported("native build of the harness: " + o[-300:])
        t = open(asm).read()
        for f, g in j.replace.items():
            t, n = re.subn(r"(call\s+)%s(@PLT)?\b" % f, r"\g<1>" + g, t)
            if not n:
                raise Unsupported(f"{f} is not called any more")
        open(asm, "w").write(t)
        cmd[cmd.index(os.path.join(HOME, "harness", j.harness))] = asm
    rc, o = _run(cmd, 120)
    if rc != 0:
        raise Unsupported("native build of the harness: " + o[-300:])
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98")


def run_native(exe, args, d):
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, cwd=d, env=ENV)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    o = p.stdout.decode(errors="replace")
    if p.returncode == 99:
        return "violated", [l for l in o.splitlines() if "CONTRACT VIOLATED" in l][-1]
    if p.returncode == 98 and re.search(r"(heap|global|stack)-buffer-(over|under)flow|use-after", o):
        return "violated", "AddressSanitizer: " + re.search(r"(\S*-buffer-\S*|\S*use-after\S*)", o).group(1) + " in " + "; ".join(re.findall(r"#\d+ 0x\w+ in (\S+ \S+)", o)[:3])
    return ("unmet" if p.returncode == 77 else "held" if p.returncode == 0 else "crash"), o[-300:]


def trace_values(j, d, gb, prop):
    # without slicing: all chosen values are part of the trace, in the order in which they are read
    rc, o = _run(["cbmc", gb, *[x for x in options(j) if x != "--slice-formula"], "--property", prop, "--trace", "--json-ui"], 300)
    try:
        data = json.loads(o)
    except Exception:
        return None
    vals, shown = [], []
    for e in data:
        for r in e.get("result", []) if isinstance(e, dict) else []:
            if r.get("status") != "FAILURE" or "trace" not in r:
                continue
            for s in r["trace"]:
                lhs = s.get("lhs", "")
                if s.get("stepType") == "assignment" and lhs in ("nd_log_i", "nd_log_d", "nd_log_b") and s.get("assignmentType") == "variable" and "sourceLocation" in s and s["sourceLocation"].get("function", "").startswith("nd_"):
                    b = s["value"].get("binary")
                    v = s["value"].get("data")
                    if b is None:
                        return None
                    vals.append(format(int(b, 2), "x"))
                    shown.append(v)
            return vals, shown
    return None


def check(rec, j, what):
    d = tempfile.mkdtemp(prefix="vfcb_")
    try:
        _check(rec, j, what, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def random_runs(j, d, n=400):
    exe = native(j, d)
    ran = 0
    for i in range(n):
        if time.time() > T_END:
            break
        r, o = run_native(exe, ["random", str(i + 1)], d)
        if r == "violated":
            return ran, (i + 1, o)
        ran += r == "held"
    return ran, None


def fallback(rec, j, what, why, d):
    try:
        ran, bad = random_runs(j, d)
    except Unsupported as e:
        rec.bounded(f"{j.name}: {what}", f"{why}; {e}", "none", 0)
        return
    if bad:
        rec.refuted(f"{j.name}: {bad[1]}", f"{what}", dict(harness=j.harness, defines=list(j.defs), random_seed=bad[0], observed=bad[1]))
    else:
        rec.bounded(f"{j.name}: {what}", why, f"{ran} random runs of the real code under the contract stand-ins", ran)


def _check(rec, j, what, d):
    t0 = time.time()
    try:
        goto(j, d, "x.gb")
    except Unsupported as e:
        return fallback(rec, j, what, e, d)
    gb = os.path.join(d, "x.gb")
    rc, out = _run(["cbmc", gb, *options(j)], j.timeout)
    props = properties(out)
    if rc is None or not props or "VERIFICATION" not in out:
        return fallback(rec, j, what, "CBMC gave no answer: " + out[-200:], d)
    vf = [p for p in props if p[2].startswith("VF ")]
    rest = [p for p in props if not p[2].startswith("VF ")]
    bad_vf = [p for p in vf if p[3] != "SUCCESS"]
    bad_rest = [p for p in rest if p[3] != "SUCCESS"]
    unw = [p for p in bad_rest if "unwinding" in p[2]]
    incomplete = [p for p in bad_rest if "no-body" in p[0] or "pointer NULL" in p[2] or "pointer invalid" in p[2] or "dead object" in p[2]]
    secs = time.time() - t0
    if not bad_vf and not bad_rest:
        if j.bound:
            rec.bounded(f"{j.name}: {len(vf)} contract obligations and {len(rest)} memory and arithmetic checks, for all inputs up to the bound", "a loop is unrolled", j.bound, 0)
        else:
            seen = {}
            for p in vf:
                k = p[2][3:]
                seen[k] = seen.get(k, 0) + 1
                rec.discharged(f"{j.name}: {k}" + (f" [{seen[k]}]" if seen[k] > 1 else ""), "cbmc", secs if sum(seen.values()) == 1 else 0.0)
            fns = {}
            for p in rest:
                fns.setdefault(p[0].split(".")[0], []).append(p)
            for f in j.funcs:
                if f in fns:
                    rec.discharged(f"{j.name}: memory and arithmetic safety of {f} ({len(fns[f])} checks)", "cbmc", 0.0)
        if j.cover:
            covers(rec, j, d)
        return
    # something failed: look for a run of the real code
    try:
        exe = native(j, d)
    except Unsupported as e:
        rec.bounded(f"{j.name}: {what}", e, "none", 0)
        return
    for p in (bad_vf + [q for q in bad_rest if q not in incomplete and q not in unw])[:5]:
        tv = trace_values(j, d, gb, p[0])
        if not tv:
            continue
        vp = os.path.join(d, "values.txt")
        open(vp, "w").write("\n".join(tv[0]) + "\n")
        r, o = run_native(exe, [vp], d)
        if r == "violated":
            rec.refuted(f"{j.name}: {p[2]}", o, dict(harness=j.harness, defines=list(j.defs), obligation=p[0], values=tv[1][:300], hex_values=tv[0][:300], observed=o))
            return
    ran, bad = random_runs(j, d)
    if bad:
        rec.refuted(f"{j.name}: {bad[1]}", f"failed obligations: {[p[2] for p in bad_vf][:5]}", dict(harness=j.harness, defines=list(j.defs), random_seed=bad[0], observed=bad[1]))
        return
    if incomplete or unw or not bad_vf:
        why = (incomplete or unw or bad_rest)[0]
        rec.bounded(f"{j.name}: {what}", f"the harness does not cover this code: {why[0]} {why[2]}", f"{ran} random runs of the real code under the contract stand-ins", ran)
        return
    for p in bad_vf[:5]:
        rec.undecided(f"{j.name}: {p[2]}", f"CBMC refutes the obligation {p[0]}; the counterexample was not reproduced natively", out[-4000:])


def covers(rec, j, d):
    try:
        goto(j, d, "c.gb", ["-DVF_COVER"])
    except Unsupported as e:
        return
    gb = os.path.join(d, "c.gb")
    rc, o = _run(["cbmc", gb, "--show-properties", "--json-ui", "--drop-unused-functions"], 60)
    ids = []
    try:
        for e in json.loads(o):
            for p in e.get("properties", []) if isinstance(e, dict) else []:
                if p["description"].startswith("COVER "):
                    ids.append((p["name"], p["description"]))
    except Exception:
        return
    if not ids:
        return
    args = []
    for i, _ in ids:
        args += ["--property", i]
    rc, o = _run(["cbmc", gb, *options(j), *args], 300)
    st = {p[0]: p[3] for p in properties(o)}
    for i, desc in ids:
        if i in st:
            rec.cover(f"{j.name}: {desc[6:]}", st[i] == "FAILURE")
