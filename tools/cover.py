"""
cover.py [ID...]: lists the lines of /repo/javatools which no check
runs (with a part of the quick cases; SCALE=0.1).  A tool, not a check.
"""
import dis
import glob
import os
import pickle
import sys
import tempfile
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SCALE = os.environ.get("SCALE", "0.1")


def lines_of(code):
    out = {l for _s, _e, l in code.co_lines() if l}
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= lines_of(c)
    return out


def child(id, store):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from vlib import harness
    mon = sys.monitoring
    seen = set()

    def line(code, n):
        if "/repo/javatools/" in code.co_filename:
            seen.add((code.co_filename, n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "cover")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    orig = harness._run_task

    def run(task):
        try:
            return orig(task)
        finally:
            with open(os.path.join(store, "%s-%d" % (id, os.getpid())),
                      "wb") as fd:
                pickle.dump(seen, fd)
    harness._run_task = run
    harness.finish_evidence = lambda *a: None
    harness.main([id, "--scale", SCALE])


def main():
    ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 32)]
    store = tempfile.mkdtemp()
    for id in ids:
        pid = os.fork()
        if not pid:
            child(id, store)
            os._exit(0)
        os.waitpid(pid, 0)
    seen = {}
    for fn in glob.glob(store + "/*"):
        with open(fn, "rb") as fd:
            for f, n in pickle.load(fd):
                seen.setdefault(f, set()).add(n)
        os.unlink(fn)
    os.rmdir(store)
    for fn in sorted(glob.glob("/repo/javatools/*.py")):
        src = open(fn).read()
        want = lines_of(compile(src, fn, "exec"))
        gone = sorted(want - seen.get(fn, set()))
        print("%s: %d of %d lines not run" % (os.path.basename(fn),
                                              len(gone), len(want)))
        text = src.split("\n")
        for n in gone:
            print("    %4d %s" % (n, text[n - 1]))


if __name__ == "__main__":
    main()
