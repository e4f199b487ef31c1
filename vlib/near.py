"""
near: texts, names, and descriptors which are almost another one, and
never the same.  All take a random.Random.
"""

LOOKALIKE = {"0": "O", "O": "0", "1": "l", "l": "1", "_": "$", "$": "_",
             "e": "\u00e9", "\u00e9": "e\u0301", " ": "\u00a0", "-": "_",
             "I": "\u0130", "i": "\u0131", "s": "\u017f", "k": "\u212a"}

PRIMS = "BCDFIJSZ"


def _edits(t, extra):
    """ lists of texts, each with one kind of edit """
    spots = range(len(t))
    yield [t + x for x in extra]
    yield [x + t for x in extra]
    yield [t[:i] + t[i + 1:] for i in spots]
    yield [t[:i] + t[i] + t[i:] for i in spots]
    yield [t[:i] + t[i].swapcase() + t[i + 1:] for i in spots]
    yield [t.upper(), t.lower()]
    yield [t[:i] + LOOKALIKE[t[i]] + t[i + 1:] for i in spots
           if t[i] in LOOKALIKE]
    yield [t[:i - 1] + t[i] + t[i - 1] + t[i + 1:] for i in spots if i]


def _pick(t, rnd, kinds, allow_empty):
    kinds = [sorted({o for o in options if o != t and (o or allow_empty)})
             for options in kinds]
    kinds = [o for o in kinds if o]
    return rnd.choice(rnd.choice(kinds))


def text(t, rnd):
    """ any text """
    if len(t) > 60:
        i = rnd.randrange(len(t) - 40)
        mid = text(t[i:i + 40], rnd)
        return t[:i] + mid + t[i + 40:]
    return _pick(t, rnd, _edits(t, ["x", "\u00e9", "\0", " ", "\n"]), True)


def ident(t, rnd):
    """ the name of a member, or of a class without its package """
    if t.startswith("<"):
        return "m" + t.strip("<>")
    if len(t) > 60:
        return t[:-1]
    return _pick(t, rnd, _edits(t, ["x", "X", "$", "1"]), False)


def name(n, rnd):
    """ the internal name of a class (or the descriptor of an array) """
    if n.startswith("["):
        return desc(n, rnd)
    pkg, _, simple = n.rpartition("/")
    how = rnd.randrange(5)
    if how == 0:
        return "b/" + n
    if how == 1 and pkg:
        return n.partition("/")[2]
    if how == 2 and pkg:
        return ident(pkg.replace("/", "$"), rnd) + "/" + simple \
            if "/" not in pkg else pkg.replace("/", "$") + "/" + simple
    if how == 3 and pkg:
        return pkg + "$" + simple
    return (pkg + "/" if pkg else "") + ident(simple, rnd)


def typ(d, rnd):
    """ the descriptor of one type """
    how = rnd.randrange(5)
    if d == "V":
        return rnd.choice(["I", "Ljava/lang/Void;"])
    if how == 0 and not d.startswith("[" * 200):
        return "[" + d
    if d[0] == "[":
        return d[1:] if how == 1 else "[" + typ(d[1:], rnd)
    if d[0] == "L":
        return "L%s;" % name(d[1:-1], rnd)
    return rnd.choice([p for p in PRIMS if p != d])


def split(d):
    """ the arguments (as a list) and the result of a method """
    end = d.rindex(")")
    args, i = [], 1
    while i < end:
        j = i
        while d[j] == "[":
            j += 1
        j = d.index(";", j) + 1 if d[j] == "L" else j + 1
        args.append(d[i:j])
        i = j
    return args, d[end + 1:]


def desc(d, rnd):
    """ the descriptor of a field, or of a method """
    if d[0] != "(":
        return typ(d, rnd)
    args, ret = split(d)
    how = rnd.randrange(5)
    if how == 0 and len(args) < 200:
        args.insert(rnd.randrange(len(args) + 1), "I")
    elif how == 1 and args:
        args.pop(rnd.randrange(len(args)))
    elif how == 2 and len(args) > 1 and args[0] != args[-1]:
        args[0], args[-1] = args[-1], args[0]
    elif how == 3 and args:
        i = rnd.randrange(len(args))
        args[i] = typ(args[i], rnd)
    else:
        ret = typ(ret, rnd)
    return "(%s)%s" % ("".join(args), ret)
