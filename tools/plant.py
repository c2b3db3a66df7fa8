#!/usr/bin/env python3
"""plant.py [id..]: (re)generates /verif/seeded/<id> from tools/plants/<id>.py and confirms each in a scratch copy (builds, tests pass, demo 0/nonzero).
A plant file is the demo itself; its docstring holds 'property:', 'needs:', 'breaks:' lines and the edits as blocks
  @@ path
  <<<<
  old
  ====
  new
  >>>>"""
import ast, json, os, re, shutil, subprocess, sys, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(V, "tools", "plants")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(i):
    text = open(os.path.join(SRC, i + ".py")).read()
    doc = ast.get_docstring(ast.parse(text), clean=False)
    meta = {}
    for k in ("property", "needs", "breaks"):
        meta[k] = re.search(r"^%s: (.*)$" % k, doc, re.M).group(1).strip()
    d = tempfile.mkdtemp(prefix="pl_", dir="/tmp")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % d)
        patch = ""
        byfile = {}
        for m in re.finditer(r"^@@ (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", doc, re.S | re.M):
            byfile.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
        assert byfile, "no edits"
        for f, eds in byfile.items():
            p = os.path.join(d, f)
            old = s = open(p, newline="").read()
            for a, b in eds:
                if "\r\n" in s:
                    a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
                assert s.count(a) == 1, "%s: %d matches of %r" % (f, s.count(a), a)
                s = s.replace(a, b)
            open(p, "w", newline="").write(s)
            o, n = old.split("\n"), s.split("\n")
            def lines(x):
                r = [l + "\n" for l in x]
                r[-1] = r[-1][:-1]
                return r if r[-1] else r[:-1]
            for l in difflib.unified_diff(lines(o), lines(n), "a/" + f, "b/" + f):
                patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        out = os.path.join(V, "seeded", i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w", newline="").write(patch)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        # the demo without the description of the change
        body = text[text.index('"""', text.index('"""') + 3) + 3:].lstrip("\n")
        open(os.path.join(out, "demo.py"), "w").write(body)
        if "vpdemo" in body:
            shutil.copy(os.path.join(V, "tools", "vpdemo.py"), out)
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r = sh("git -C /repo apply --check %s/patch.diff" % out)
        if r.returncode:
            return i, "patch does not apply: " + r.stdout
        r = sh("timeout 280 bash %s/demo.sh" % out, cwd="/repo")
        if r.returncode:
            return i, "demo fails on the unchanged tree: " + r.stdout[-1500:]
        r = sh("timeout 280 bash %s/demo.sh" % out, cwd=d)
        if not r.returncode:
            return i, "demo passes with the change"
        msg = r.stdout.strip().splitlines()[-1:]
        # build + tests in the copy
        root = os.path.join(d, "_root")
        os.makedirs(root)
        os.symlink(os.path.join(d, "content/lib"), os.path.join(root, "lib"))
        r = sh("/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --rootdir=%s --timeout=300 test/pyswitch 2>&1 | tail -30" % d, cwd=d,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=root))
        tail = r.stdout.strip().splitlines()
        if not re.search(r"\b340 passed", tail[-1] if tail else ""):
            fails = [l for l in tail if l.startswith("FAILED")]
            return i, "TESTS: %s %s" % (tail[-1:], fails[:3])
        for f in byfile:
            if f.endswith(".py"):
                ast.parse(open(os.path.join(d, f)).read())
            elif f.endswith(".js"):
                r = sh("node --check %s" % os.path.join(d, f))
        return i, "ok: " + " ".join(msg)
    except Exception as ex:
        return i, "ERROR %r" % ex
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(SRC) if f.endswith(".py"))
with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, ids):
        print(i, m)
