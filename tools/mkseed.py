#!/usr/bin/env python3
"""mkseed.py SPECFILE: creates planted bugs under /verif/seeded from a Python file defining SEEDS.

Each seed: dict(id, property, file, edits=[(old, new)...], needs, breaks, py="..." or c="..." (demo source)).
The demo is confirmed on a scratch copy of the tree: exit 0 unchanged, nonzero with the patch."""
import json, os, shutil, subprocess, sys, runpy
V, REPO = "/verif", "/repo"
PYDEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/interfaces/acados_template" ACADOS_SOURCE_DIR="$PWD" ACADOS_INSTALL_DIR="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
scratch="$(mktemp -d)"; trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch" DEMO_SCRATCH="$scratch"
/opt/acados-env/venv/bin/python "$here/demo.py"
'''
CDEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"; trap 'rm -rf "$scratch"' EXIT
gcc -w -std=gnu99 -fcommon -I"$here/stubs/include" -I"$PWD" -I"$PWD/interfaces" -I"$PWD/external" -Iexternal/blasfeo/include "$here/demo.c" %(files)s "$here/stubs/src/blasfeo_ref.c" -Wl,--unresolved-symbols=ignore-all -no-pie -lm -o "$scratch/demo" || exit 3
"$scratch/demo"
'''


def run(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    wt = "/tmp/seedwt"
    if not os.path.exists(wt):
        subprocess.check_call(["cp", "-a", REPO, wt])
    subprocess.check_call(["git", "-C", wt, "fetch", "-q", REPO, "HEAD"])
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "-f", "FETCH_HEAD"])
    for s in seeds:
        if only and s["id"] not in only:
            continue
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
        d = f"{V}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if "py" in s:
            open(d + "/demo.py", "w").write(s["py"])
            open(d + "/demo.sh", "w").write(PYDEMO)
        else:
            open(d + "/demo.c", "w").write(s["c"])
            open(d + "/demo.sh", "w").write(CDEMO % dict(files=" ".join(f'"$PWD/{f}"' for f in s["cfiles"])))
            shutil.copytree(V + "/stubs", d + "/stubs")
        os.chmod(d + "/demo.sh", 0o755)
        ok = run([d + "/demo.sh"], wt)
        if ok.returncode != 0:
            print(s["id"], "DEMO FAILS ON THE UNCHANGED TREE", ok.stdout[-1500:])
            continue
        files = s["file"] if isinstance(s["file"], list) else [s["file"]] * len(s["edits"])
        bad = False
        for f, (old, new) in zip(files, s["edits"]):
            t = open(f"{wt}/{f}").read()
            if t.count(old) != 1:
                print(s["id"], f"OLD TEXT OCCURS {t.count(old)} TIMES"); bad = True; break
            open(f"{wt}/{f}", "w").write(t.replace(old, new))
        if bad:
            continue
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        r = run([d + "/demo.sh"], wt)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "ok" if r.returncode not in (0, 3) else f"DEMO DOES NOT FAIL rc={r.returncode}", r.stdout.strip().splitlines()[-1:] if r.stdout else "")
        if r.returncode == 3:
            print(r.stdout[-2000:])
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])


main()
