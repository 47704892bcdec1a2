"""Python 2's order of values, and searching and sorting lists whose elements are all known by it."""
from terms import *

NUMERIC = ("int", "float", "bool", "num")


def rank(t):
    """Where values of a type stand among those of others: None, numbers, then by the type's name."""
    if t == ("c", None, "none") or (t[0] == "c" and t[1] is None):
        return (0, "")
    if t[0] == "c":
        if isinstance(t[1], str):
            return (2, "str")
        return (1, "")
    if t[0] == "tuple":
        return (2, "tuple")
    return None


def special(I, x, *names):
    if x[0] != "obj" or not I.isobj(x, "inst"):
        return None
    for m in names:
        if I.class_lookup(I.obj(x).cls, m) is not None:
            return m
    return None


def equal(I, a, b, n):
    if a == b:
        return True
    if a[0] == "tuple" and b[0] == "tuple":
        return len(a) == len(b) and all(equal(I, x, y, n) for x, y in zip(a[1:], b[1:]))
    for x, y in ((a, b), (b, a)):
        m = special(I, x, "__eq__", "__cmp__")
        if m:
            r = I.call(I.getattr(x, m, n), [y], {}, n)
            return I.test(r) if m == "__eq__" else I.test(I.eq_atom(r, ("c", 0, "int")))
    if a[0] == "obj" and b[0] == "obj" and I.isobj(a, "inst") and I.isobj(b, "inst"):
        return False
    ra, rb = rank(a), rank(b)
    if ra is not None and rb is not None and ra != rb:
        return False
    return I.test(I.eq_atom(a, b))


def less(I, a, b, n):
    if a == b:
        return False
    if a[0] == "tuple" and b[0] == "tuple":
        for x, y in zip(a[1:], b[1:]):
            if not equal(I, x, y, n):
                return less(I, x, y, n)
        return len(a) < len(b)
    ra, rb = rank(a), rank(b)
    if ra is not None and rb is not None:
        if ra != rb:
            return ra < rb
        if a[0] == "c" and b[0] == "c":
            return a[1] < b[1]
    if ra == (0, ""):
        return True
    if rb == (0, ""):
        return False
    for x, y, m in ((a, b, "__lt__"), (b, a, "__gt__"), (a, b, "__cmp__")):
        if special(I, x, m):
            r = I.call(I.getattr(x, m, n), [y], {}, n)
            return I.test(r) if m != "__cmp__" else I.test(I.lt0(r))
    if special(I, b, "__cmp__"):
        return I.test(I.lt0(("neg", I.call(I.getattr(b, "__cmp__", n), [a], {}, n))))
    if a[0] == "obj" and b[0] == "obj" and I.isobj(a, "inst") and I.isobj(b, "inst"):
        w = I.cfg.world
        if w is not None:
            return w("idof", a) < w("idof", b)
        return I.test(I.lt0(("add", ("idof", a), ("neg", ("idof", b)))))
    return I.test(I.compare("Lt", a, b, n))


def find(I, items, x, right, n, lo=0, hi=None):
    hi = len(items) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (not less(I, x, items[mid], n)) if right else less(I, items[mid], x, n):
            lo = mid + 1
        else:
            hi = mid
    return lo


def sort(I, items, cmpf, key, rev, n):
    import functools
    ks = [I.call(key, [x], {}, n) if key != ("c", None, "none") and key is not None else x for x in items]

    def c(i, j):
        if cmpf is not None:
            r = I.call(cmpf, [ks[i], ks[j]], {}, n)
            return -1 if I.test(I.lt0(r)) else 0 if I.test(I.eq_atom(r, ("c", 0, "int"))) else 1
        return -1 if less(I, ks[i], ks[j], n) else 1 if less(I, ks[j], ks[i], n) else 0
    return [items[i] for i in sorted(range(len(items)), key=functools.cmp_to_key(c), reverse=rev)]
