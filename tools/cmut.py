"""cmut.py FILE FUNC,FUNC CHECK [max]: mutates C functions in a copy of the repository and runs a check on each mutant (development tool)."""
import os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
FILE, FUNCS, CHECK = sys.argv[1:4]
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 30
PAR = int(os.environ.get("PAR", "4"))
src = open("/repo/" + FILE).read()
spans = []
for f in FUNCS.split(","):
    for m in re.finditer(r"^[A-Za-z_][^\n;{}]*\b%s\(" % re.escape(f), src, re.M):
        i = src.find("{", m.end()); semi = src.find(";", m.end())
        if semi != -1 and semi < i: continue
        e = src.find("\n}", i)
        spans.append((i, e)); break
muts = []
for a, b in spans:
    body = src[a:b]
    for m in re.finditer(r"[^\n]+\n", body):
        l = m.group(); t = l.strip(); off = a + m.start()
        if t.startswith(("//", "printf", "#", "/*", "*")) or "printf" in t: continue
        if t.endswith(";") and not re.match(r"(int|double|bool|struct|ocp_|char|acados_|dense_|const|return|break|sim_|for|\w+ \*\w+ =|qp_info)", t) and t.count("(") == t.count(")"):
            muts.append((off, off + len(l), ";\n", "delete: " + t))
        for o, n in [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), ("!", ""), (" + ", " - "), (" - ", " + "), (" * ", " + "), ("+=", "-="), ("0.0", "1.0"), ("+1", ""), ("= 0;", "= 1;"), ("= 1;", "= 0;"), ("[i]", "[0]"), ("true", "false"), ("false", "true")]:
            for k in re.finditer(re.escape(o), l):
                if o == "!" and l[k.end():k.end()+1] == "=": continue
                muts.append((off + k.start(), off + k.end(), n, f"{o.strip()} -> {n.strip()}: {t}"))
random.seed(int(os.environ.get("SEED", "1"))); random.shuffle(muts); muts = muts[:MAX]
base = "/tmp/w/cmut"
os.makedirs(base, exist_ok=True)
dirs = []
for k in range(PAR):
    d = f"{base}/r{k}"
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.run(["cp", "-a", "--reflink=auto", "/repo", d], check=True)
    dirs.append(d)
import queue
pool = queue.Queue()
for d in dirs: pool.put(d)
def go(mu):
    d = pool.get()
    try:
        a, b, n, desc = mu
        open(f"{d}/{FILE}", "w").write(src[:a] + n + src[b:])
        p = subprocess.run(["/verif/run.sh", CHECK], env=dict(os.environ, VF_REPO=d, VF_NOEVID="1", VF_MUT=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode(errors="replace")
        kind = "caught" if p.returncode == 1 and "no-failing" not in o else "caught-nfi" if p.returncode == 1 else "MISSED" if p.returncode == 0 else "BROKEN"
        why = [l for l in o.splitlines() if "failed obligation" in l][:1]
        b = re.search(r"(\d+) by bounded", o)
        ln = src[:a].count("\n") + 1
        print(f"{kind:10s} {ln}: {desc[:110]} | {why[0][20:120] if why else ''} b={b.group(1) if b else '?'}", flush=True)
        return kind
    finally:
        pool.put(d)
with ThreadPoolExecutor(PAR) as ex: r = list(ex.map(go, muts))
print({k: r.count(k) for k in set(r)})
shutil.rmtree(base)
