#!/usr/bin/env python3
"""Development aid: runs checks against scratch copies of /repo in which something was changed.
  regress.py fixes [Cnn..]     reverts each recorded fix commit, the check of its property has to fire
  regress.py seeded [id..] [--all]  applies each seeded bug, the check of its property (--all: every check) has to fire
  regress.py try Cnn[,Cmm] file 's/a/b/'   applies a perl substitution (file below content/lib/pyswitch, or absolute from the repo root with a leading /)
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy():
    d = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD content examples web test | tar x -C %s" % d, shell=True, check=True)
    return d


def check(pid, d):
    ev = tempfile.mkdtemp(prefix="ev_", dir="/tmp")
    r = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    shutil.rmtree(ev)
    return r.returncode, r.stdout


def run(name, pids, prepare, show=0):
    d = copy()
    try:
        err = prepare(d)
        if err:
            return name, "PREPARE FAILED " + err, ""
        res, out = {}, ""
        for p in pids:
            rc, o = check(p, d)
            res[p] = rc
            out += "\n".join(l for l in o.splitlines() if "VIOLATION" in l or rc not in (0, 1))[:show or 400] + "\n"
        return name, res, out
    finally:
        shutil.rmtree(d)


def main():
    what = sys.argv[1]
    jobs = []
    built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if re.match(r"c\d\d\.py$", f))
    if what == "fixes":
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
            if m and m.group(1) in built and (len(sys.argv) < 3 or m.group(1) in sys.argv[2:] or m.group(2) in sys.argv[2:]):
                def prep(d, sha=m.group(2)):
                    r = subprocess.run("git -C /repo show %s | patch -R -p1 -d %s" % (sha, d), shell=True, capture_output=True, text=True)
                    return "" if r.returncode == 0 else r.stdout[-300:]
                jobs.append(("%s %s %s" % (m.group(1), m.group(2), m.group(3)[:60]), [m.group(1)], prep))
    elif what == "seeded":
        sel = [a for a in sys.argv[2:] if not a.startswith("--")]
        for i in sorted(os.listdir(os.path.join(V, "seeded"))):
            meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
            if sel and i not in sel and meta["property"] not in sel:
                continue
            def prep(d, i=i):
                r = subprocess.run(["patch", "-p1", "-d", d, "-i", os.path.join(V, "seeded", i, "patch.diff")], capture_output=True, text=True)
                return "" if r.returncode == 0 else r.stdout[-300:]
            jobs.append((i, built if "--all" in sys.argv else [meta["property"]] if meta["property"] in built else [], prep))
    else:
        pids, file, ex = sys.argv[2].split(","), sys.argv[3], sys.argv[4]
        def prep(d):
            f = d + file if file.startswith("/") else os.path.join(d, "content/lib/pyswitch", file)
            b = open(f).read()
            subprocess.run(["perl", "-0pi", "-e", ex, f], check=True)
            return "no change" if open(f).read() == b else ""
        jobs.append((ex, pids, prep))
    with ThreadPoolExecutor(6) as pool:
        for name, res, out in pool.map(lambda j: run(*j), jobs):
            good = isinstance(res, dict) and any(v == 1 for v in res.values())
            print("CAUGHT" if good else "MISSED", name, {k: v for k, v in res.items() if v} if isinstance(res, dict) else res)
            if what == "try" or (isinstance(res, dict) and any(v > 1 for v in res.values())):
                print(out)


main()
