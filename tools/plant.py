"""Development helper: turn descriptions of planted bugs (tools/bugs/*.py) into /verif/seeded/<id>/ after confirming them in a scratch copy.

usage: python3 tools/plant.py [--force] [id ...]
A description: BUG = dict(property=, needs=, breaks=, edits=[(file, old, new), ...]); DEMO = the text of demo.py (exits nonzero with the bug).
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = "/verif"
ORIG = "f7f1754"
WT = "/tmp/plantwt"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr


def original_lines(path, lines):
    """are these line numbers of the HEAD version older than our own commits?"""
    bad = []
    for n in lines:
        rc, out = sh("git blame -s -L %d,%d HEAD -- %s" % (n, n, path), "/repo")
        if not out.startswith("^" + ORIG[:6]) and not out.startswith(ORIG[:7]):
            bad.append((n, out.strip()))
    return bad


def main():
    args = sys.argv[1:]
    force = "--force" in args
    args = [a for a in args if a != "--force"]
    for f in sorted(glob.glob(ROOT + "/tools/bugs/*.py")):
        bid = os.path.basename(f)[:-3]
        if args and bid not in args:
            continue
        out = os.path.join(ROOT, "seeded", bid)
        if os.path.exists(out) and not args and not force:
            continue
        spec = importlib.util.spec_from_file_location(bid, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        shutil.rmtree(WT, ignore_errors=True)
        sh("git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)" % (WT, WT))
        sh("git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x", WT)
        demo = WT + ".demo.py"
        open(demo, "w").write(m.DEMO.lstrip())
        env = dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE="1")
        rc0, o0 = sh("timeout 250 %s -W ignore %s" % (PY, demo), WT, env)
        problem = None
        if rc0 != 0:
            problem = "demo fails without the bug: " + o0[-600:]
        for path, old, new in m.BUG["edits"]:
            p = os.path.join(WT, path)
            s = open(p).read()
            if s.count(old) != 1:
                problem = problem or "edit matches %d times: %r" % (s.count(old), old)
                continue
            open(p, "w").write(s.replace(old, new))
        if not problem:
            rc, diff = sh("git diff", WT)
            rc, d0 = sh("git diff -U0", WT)
            cur, bad, n_old = None, [], 0
            for line in d0.splitlines():
                if line.startswith("--- a/"):
                    cur = line[6:]
                elif line.startswith("@@"):
                    a = line.split()[1][1:]
                    st, _, n = a.partition(",")
                    n = int(n or 1)
                    n_old += n
                    bad += [(cur,) + b for b in original_lines(cur, range(int(st), int(st) + n))]
            if bad:
                problem = "touches lines of our own: %r" % (bad,)
            if not n_old:
                print(bid, "note: only adds lines")
        if not problem:
            rc1, o1 = sh("timeout 250 %s -W ignore %s" % (PY, demo), WT, env)
            if rc1 == 0:
                problem = "demo passes with the bug"
        if not problem:
            rc, o = sh("%s -m pytest -q -p no:cacheprovider --disable-warnings --timeout=300 --continue-on-collection-errors" % PY, WT,
                       dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
            tail = o.strip().splitlines()[-1]
            if not tail.startswith("267 passed") or "failed" in tail:
                problem = "tests: %s\n%s" % (tail, "\n".join(l for l in o.splitlines() if l.startswith("FAILED"))[:800])
        if problem:
            print(bid, "REJECTED:", problem)
            continue
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(m.DEMO.lstrip())
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": m.BUG["property"], "needs": m.BUG["needs"], "what_it_breaks": m.BUG["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(bid, "kept; demo with bug:", o1.strip().splitlines()[-1][:150] if o1.strip() else rc1)
    shutil.rmtree(WT, ignore_errors=True)


main()
