"""
Manifests: a model, an independent writer and generators.

A manifest is (main, sections): main is a tuple of (key, value) pairs,
sections a tuple of (name, pairs).
"""

import random

from hypothesis import strategies as st

KEYS = ["Manifest-Version", "Created-By", "Main-Class", "Class-Path",
        "X", "Implementation-Title", "Ant-Version", "Sealed", "a_b-C1",
        "K" * 68, "L" * 67, "Q" * 60]
key = st.one_of(
    st.sampled_from(KEYS[1:]), st.sampled_from(KEYS[1:]),
    st.text(st.sampled_from("abcXYZ019_-"), min_size=1, max_size=68)
    .filter(lambda k: k[0] not in "-_"))

# anything but the characters which end a line (and NUL)
CHARS = st.characters(blacklist_categories=("Cs",),
                      blacklist_characters="\r\n\0")
value = st.one_of(
    st.sampled_from(["", "1.0", " ", "  two", "tail ", "a: b", ":", " :x",
                     "x" * 61, "x" * 62, "x" * 70, "\u00e9" * 40,
                     "ab" * 200, "\U0001f600" * 30, "\u20ac" * 65,
                     "tab\tvt\x0bff\x0cnel\x85ls\u2028end",
                     "\x1c\x1d\x1e", "#comment", "Name: x"]),
    st.text(CHARS, max_size=30),
    st.builds(lambda c, n, t: c * n + t, CHARS, st.integers(50, 160),
              st.text(CHARS, max_size=5)))
plain_value = st.one_of(
    st.sampled_from(["1.0", "yes", "no", "x" * 80, "a b", "\u00e9t\u00e9"]),
    st.text(st.sampled_from("abc. /-\u00e9"), max_size=90))


@st.composite
def pairs(draw, values=value, max_size=5, skip=()):
    out, seen = [], {s.lower() for s in skip}
    for k in draw(st.lists(key, max_size=max_size)):
        if k.lower() not in seen:
            seen.add(k.lower())
            out.append((k, draw(values)))
    return tuple(out)


section_name = st.one_of(
    st.sampled_from(["a", "a/b.class", "org/x/", "\u00e9/\u540d.txt",
                     "n" * 80, "sp ace.txt", "\u20ac" * 30, "z:y"]),
    st.text(CHARS, min_size=1, max_size=20).filter(lambda s: s.strip()))


@st.composite
def manifest(draw, values=value, names=section_name, max_sections=4,
             primary="Manifest-Version"):
    main = ((primary, draw(st.sampled_from(["1.0", "1.0", "2.0", ""]))),) + \
        draw(pairs(values, skip=(primary, "Name")))
    secs, seen = [], set()
    for n in draw(st.lists(names, max_size=max_sections)):
        if n not in seen:
            seen.add(n)
            secs.append((n, draw(pairs(values, 4, ("Name",)))))
    return main, tuple(secs)


def fold(line, width, rnd=None):
    """ the lines (bytes) of one attribute.  At most width bytes each,
    without the line end; with rnd of any lesser length too """
    out = []
    first = True
    while True:
        room = width if first else width - 1
        if rnd is not None and rnd.random() < .5:
            room = rnd.randrange(1, room + 1)
        if first:
            # the key isn't folded
            room = max(room, line.index(b":") + 2)
        out.append((b"" if first else b" ") + line[:room])
        line = line[room:]
        first = False
        if not line:
            return out


def write_pairs(ps, eol, width, rnd):
    return b"".join(
        ln + eol for k, v in ps
        for ln in fold(("%s: %s" % (k, v)).encode("utf8"), width, rnd))


def write(model, eol=b"\n", width=70, rnd=None, blank=1):
    """ bytes.  blank: empty lines between sections """
    main, secs = model
    out = write_pairs(main, eol, width, rnd) + eol * blank
    for n, ps in secs:
        out += write_pairs((("Name", n),) + ps, eol, width, rnd)
        out += eol * blank
    return out


def parse(data):
    """ an independent reader: (main, sections) """
    data = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n")
    secs, cur = [], None
    for line in data.split(b"\n"):
        if not line:
            cur = None
        elif line[:1] == b" ":
            cur[-1][1] += line[1:]
        else:
            if cur is None:
                cur = []
                secs.append(cur)
            k, v = line.split(b": ", 1)
            cur.append([k, v])
    secs = [tuple((k.decode("utf8"), v.decode("utf8")) for k, v in s)
            for s in secs]
    main = secs[0] if secs else ()
    return main, tuple((s[0][1], s[1:]) for s in secs[1:])
