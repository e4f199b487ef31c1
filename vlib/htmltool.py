"""
HTML reports: builds the templates as setup.py does, and reads reports.
"""

import os
import subprocess
import sys

from html.parser import HTMLParser

from . import harness


def build():
    """ the compiled templates of /repo, in the scratch directory """
    top = os.path.join(harness.scratch_root(), "templates")
    lib = os.path.join(top, "lib")
    cmd = [sys.executable, "setup.py", "-q", "build", "--build-base",
           os.path.join(top, "base"), "--build-lib", lib]
    p = subprocess.run(cmd, cwd=harness.REPO, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    here = os.path.join(lib, "javatools", "cheetah")
    if p.returncode or not os.path.isdir(here):
        raise harness.HarnessError("the templates don't build: %r" %
                                   p.stdout[-800:])
    import javatools.cheetah
    javatools.cheetah.__path__.insert(0, here)


class Page(HTMLParser):
    """
    divs: class lists of the divs of changes, in order.
    links: (href, text); src: of scripts and stylesheets
    tables: [(class, [[(cell class, text) ...] ...])]
    """

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.divs = []
        self.links = []
        self.src = []
        self.tables = []
        self.cell = None
        self.text = []
        self.open = []
        self.title = ""
        self.bad = []
        self.feed(text)
        self.close()
        self.text = "".join(self.text)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "div":
            cl = (a.get("class") or "").split()
            if cl[:1] == ["Change"]:
                self.divs.append(tuple(cl[1:]))
        elif tag == "a":
            self.links.append([a.get("href"), ""])
        elif tag == "link":
            self.src.append(("css", a.get("href")))
        elif tag == "script":
            self.src.append(("js", a.get("src")))
        elif tag == "table":
            self.tables.append((a.get("class"), []))
        elif tag == "tr":
            self.tables[-1][1].append([])
        elif tag in ("td", "th"):
            self.cell = [a.get("class"), ""]
            self.tables[-1][1][-1].append(self.cell)
        if tag not in ("meta", "br", "link", "hr", "img"):
            self.open.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if self.open and self.open[-1] == tag:
            self.open.pop()

    def handle_endtag(self, tag):
        if tag in ("td", "th", "table", "tr"):
            self.cell = None
        if tag in self.open:
            # (cells and rows needn't be closed)
            while self.open[-1] != tag:
                x = self.open.pop()
                if x not in ("td", "th", "tr", "thead", "tbody", "li"):
                    self.bad.append(x)
            self.open.pop()
        else:
            self.bad.append("/" + tag)

    def handle_data(self, data):
        self.text.append(data)
        if self.cell is not None:
            self.cell[1] += data
        if self.open[-1:] == ["a"]:
            self.links[-1][1] += data
        if self.open[-1:] == ["title"]:
            self.title += data
