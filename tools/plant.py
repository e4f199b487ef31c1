"""
plant.py DEFS.py [ID...]: makes seeded/<id>/ from definitions, and
confirms each: builds, passes the stable tests, the demonstration
passes without and fails with it; then runs the check of its property.
(Applies the change to /repo and takes it back.)

DEFS: bug(id, property, file, [(old, new)...], needs, breaks, demo)
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
REPO = "/repo"


def bug(id, prop, edits, needs, breaks, demo, files=()):
    BUGS.append((id, prop, edits, needs, breaks, demo, files))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def clean():
    sh("git -C /repo checkout -q -- .")


def tests():
    if sh("bash /opt/vp/build.sh").returncode:
        return "does not build"
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open("/tmp/plant.json"))
    got = got.get("passed", got)
    missing = want - set(got)
    return "fails tests %s" % sorted(missing) if missing else None


def demo(d):
    # elsewhere, as it will be
    t = "/tmp/plantdemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash %s/demo.sh" % t, cwd=REPO, timeout=300)
    shutil.rmtree(t, ignore_errors=True)
    return r


def main():
    exec(open(sys.argv[1]).read(), globals())
    only = sys.argv[2:]
    assert not sh("git -C /repo status --porcelain").stdout, "dirty"
    for id, prop, edits, needs, breaks, code, files in BUGS:
        if only and id not in only:
            continue
        d = os.path.join(HERE, "seeded", id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/demo.sh", "w") as fd:
            fd.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                     'export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1\n'
                     'exec /opt/venv/bin/python -B "$here/demo.py"\n')
        with open(d + "/demo.py", "w") as fd:
            fd.write(code.lstrip("\n"))
        for f in files:
            shutil.copy(os.path.join(HERE, "tools", "demolib", f), d)
        with open(d + "/meta.json", "w") as fd:
            json.dump({"property": prop, "needs": " ".join(needs.split()),
                       "what_it_breaks": " ".join(breaks.split())}, fd,
                      indent=1)
            fd.write("\n")
        verdict = []
        try:
            r = demo(d)
            if r.returncode:
                verdict.append("demo FAILS on the unchanged tree\n" +
                               r.stdout[-800:] + r.stderr[-2000:])
            for fn, old, new in edits:
                p = os.path.join(REPO, fn)
                s = open(p).read()
                assert s.count(old) == 1, (id, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            with open(d + "/patch.diff", "w") as fd:
                fd.write(diff)
            t = tests()
            if t:
                verdict.append(t)
            r = demo(d)
            if not r.returncode:
                verdict.append("demo PASSES with the change")
            else:
                print(id, "demo says:", (r.stdout + r.stderr).strip()
                      .splitlines()[-1:])
            r = sh("VERIF_SEED=1 VERIF_TIER=quick ./run.sh " + prop, cwd=HERE)
            caught = r.returncode == 1 and \
                "VIOLATION property=" + prop in r.stdout
            print(id, prop, "CAUGHT" if caught else "MISSED (rc %d)" %
                  r.returncode, verdict or "ok")
            for l in r.stdout.splitlines():
                if l.startswith("part "):
                    print("    " + l[:200])
            if not caught:
                print(r.stdout[-300:], r.stderr[-1000:])
        finally:
            clean()
    sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    main()
