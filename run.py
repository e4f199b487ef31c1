"""
run.py ID [--replay FILE] [--only NAME] [--tier T] [--seed N]

Entry point of every check.  Exit 0: held on everything explored.
Exit 1 + VIOLATION line: broken.  Exit 3: error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import harness  # noqa

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
