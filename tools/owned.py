"""
owned.py: names the planted bugs which change a line one of our own
commits in /repo has added (those would not count).  A tool, not a check.
"""
import glob
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "eed80ca"


def added():
    """ the lines our commits have added, whatever file they are in """

    out = subprocess.check_output(
        ["git", "-C", "/repo", "diff", "-U0", "%s..HEAD" % BASE], text=True)
    return {line[1:].strip() for line in out.splitlines()
            if line.startswith("+") and not line.startswith("+++")}


def main():
    ours = added()
    for fn in sorted(glob.glob(HERE + "/seeded/*/patch.diff")):
        old = path = None
        bad = []
        for line in open(fn):
            if line.startswith("--- a/"):
                path = line[6:].strip()
            elif line.startswith("@@"):
                old = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-"):
                out = subprocess.check_output(
                    ["git", "-C", "/repo", "blame", "-s", "-L",
                     "%i,%i" % (old, old), "%s.." % BASE, "--", path],
                    text=True)
                if not out.startswith("^") or line[1:].strip() in ours:
                    bad.append((path, old))
                old += 1
            elif line.startswith(" "):
                old += 1
        if bad:
            print(os.path.basename(os.path.dirname(fn)), bad)


if __name__ == "__main__":
    main()
