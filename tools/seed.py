"""Make and validate one seeded bug in a scratch copy of /repo.

  tools/seed.py make ID PROP edits.json demo.py      (edits: [[file, old, new], ...])
  tools/seed.py check ID [PROP...]                    run checks (default: its own) on the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"
DEMO_SH = '#!/bin/sh\nexec %s -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def scratch():
    d = tempfile.mkdtemp(prefix="seed_")
    sh("cp -a /repo %s/repo" % d)
    return d, d + "/repo"


def tests_pass(repo):
    """The baseline tests, run on the scratch copy."""
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --no-cov --timeout=300 "
                 "--confcutdir=tests/ebaybbn tests/ebaybbn 2>&1 | tail -15", cwd=repo,
                 env=dict(os.environ, PYTHONPATH=repo))
    return ("19 passed" in out and "failed" not in out), out


def run_demo(folder, repo):
    d = tempfile.mkdtemp(prefix="demo_")
    for f in os.listdir(folder):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(folder, f), d)
    try:
        return sh("sh %s/demo.sh" % d, cwd=repo, timeout=300)
    finally:
        shutil.rmtree(d)


def make(sid, prop, edits, demo, needs, breaks, python="/opt/venv/bin/python"):
    folder = os.path.join(SEEDED, sid)
    os.makedirs(folder, exist_ok=True)
    if os.path.exists("/verif/seeded/_lib.py") and "import _lib" in demo:
        pass
    open(folder + "/demo.py", "w").write(demo)
    open(folder + "/demo.sh", "w").write(DEMO_SH % python)
    os.chmod(folder + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(folder + "/meta.json", "w"), indent=1)
    top, repo = scratch()
    try:
        rc0, out0 = run_demo(folder, repo)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", cwd=repo)
        open(folder + "/patch.diff", "w").write(diff)
        ok, tout = tests_pass(repo)
        rc1, out1 = run_demo(folder, repo)
        good = rc0 == 0 and rc1 != 0 and ok
        print("%s %s: demo clean rc=%d, patched rc=%d, tests %s" % ("KEEP" if good else "BAD ", sid, rc0, rc1, ok))
        if not good:
            print(out0[-600:], "\n---\n", out1[-600:], "\n---\n", tout[-600:] if not ok else "")
        else:
            print("   ", out1.strip().splitlines()[-1][:160] if out1.strip() else "")
        if good:
            check_in(sid, [prop], repo)
        return good
    finally:
        shutil.rmtree(top)


def check_in(sid, props, repo, tier="quick"):
    res = {}
    for p in props:
        rc, out = sh("/verif/check %s --tier %s" % (p, tier), env=dict(os.environ, MC_REPO=repo))
        res[p] = rc
        lines = [l for l in out.splitlines() if l.strip()]
        print("   check %s -> rc %d  %s" % (p, rc, (lines[1] if rc == 1 and len(lines) > 1 else lines[-1] if lines else "")[:170]))
    return res


def check(sid, props=None, tier="quick"):
    top, repo = scratch()
    try:
        folder = os.path.join(SEEDED, sid)
        meta = json.load(open(folder + "/meta.json"))
        rc, out = sh("git apply %s/patch.diff" % folder, cwd=repo)
        assert rc == 0, out
        return check_in(sid, props or [meta["property"]], repo, tier)
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    if sys.argv[1] == "check":
        print(sys.argv[2])
        check(sys.argv[2], sys.argv[3:] or None)
    elif sys.argv[1] == "all":
        for s in sorted(os.listdir(SEEDED)):
            print(s)
            check(s, sys.argv[2:] or None)
