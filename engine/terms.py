"""Value terms of the abstract domain and their normal forms.

A term is a nested tuple.  It names a value by how it is computed (a value
number), so that two expressions that compute the same value from the same
inputs get the same term whatever the statements that compute it look like.
"""
from fractions import Fraction
from functools import lru_cache
import math

NONE = ("c", None, "none")
TRUE = ("c", True, "bool")
FALSE = ("c", False, "bool")


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return ("c", v, "int")
    if isinstance(v, float):
        return ("c", v, "float")
    if isinstance(v, str):
        return ("c", v, "str")
    raise TypeError(v)


def is_const(t):
    return t[0] == "c"


def sym(name, ty="unk"):
    return ("sym", name, ty)


STR_OPS = {"cat", "str", "fmt", "resub", "strip", "lstrip", "rstrip", "lower", "upper",
           "join", "replace", "repr", "encode", "decode", "sitem", "sslice", "translate",
           "title", "zfill", "hexdigest", "srep"}
INT_OPS = {"len", "int", "count", "ord", "lidx", "trunc", "index", "find", "rfind", "hashof", "idof",
           "bitand", "bitxor", "rshift", "lshift", "bitor"}
NUM_OPS = {"add", "sub", "mul", "div", "mod", "neg", "pow", "round", "sum", "abs", "floor", "ceil",
           "log", "sqrt", "exp", "now", "max", "min", "sumover", "bitand", "bitxor", "rshift",
           "lshift", "bitor"}
FLOAT_OPS = {"float", "div", "sqrt", "exp", "log", "floor", "ceil", "now", "rand"}
BOOL_OPS = {"eq", "lt0", "eq0", "isnone", "truth", "nonempty", "not", "in", "isinstance", "startswith",
            "endswith", "callable", "isnan", "isinf", "hasattr", "fnmatch", "and", "or", "isnum", "is",
            "isip", "ismatch", "slt", "haskey", "isint"}
LIST_OPS = {"list", "lapp", "lcat", "sorted", "slice", "lmap", "split", "keys", "values", "items",
            "rev", "popped", "linsert", "insorted", "lrep", "lset", "rangel", "lhead", "zip", "splitlines", "listof",
            "setof", "union", "sadd", "lpart", "lpop", "setc", "uniq", "rsplit", "sortedk", "rangel2",
            "lwithout", "setop", "tadd"}


def ty(t):
    k = t[0]
    if k == "c":
        return t[2]
    if k in ("sym", "phi", "exit"):
        return t[-1].rstrip("?")
    if k in STR_OPS or k in ("group", "sitem"):
        return "str"
    if k in BOOL_OPS:
        return "bool"
    if k in FLOAT_OPS:
        return "float"
    if k in INT_OPS:
        return "int"
    if k == "fdiv":
        ts = [ty(x) for x in t[1:]]
        return "int" if all(x in ("int", "bool") for x in ts) else "float" if "float" in ts else "num"
    if k in ("add", "sub", "mul", "mod", "neg", "max", "min", "abs", "pow", "sum", "sumover", "round"):
        if k == "sumover":
            ts = [ty(t[2])]
        elif k == "sum":
            return "num"
        else:
            ts = [ty(x) for x in t[1:] if isinstance(x, tuple)]
        if "float" in ts or k == "round":
            return "float"
        if all(x in ("int", "bool") for x in ts):
            return "int"
        if "num" in ts or "int" in ts:
            return "num"
        return "unk"
    if k in NUM_OPS:
        return "num"
    if k in LIST_OPS:
        return "list"
    if k == "tuple":
        return "tuple"
    if k in ("obj", "fn", "bm", "cls", "mod_", "x", "xm", "partial", "gen", "sup"):
        return "obj"
    if k == "dget":
        return t[4]
    if k == "ret":
        return t[3].rstrip("?")
    if k == "attr":
        return "unk"
    if k in ("elem", "itemt", "psum"):
        return t[-1]
    if k == "lk":
        return t[2] if len(t) > 2 else "str"
    return "unk"


def nullable(t):
    k = t[0]
    if k in ("sym", "phi", "exit"):
        return t[-1].endswith("?") or t[-1] == "unk"
    if k in ("attr", "item"):
        return True
    if k == "ret":
        return t[3].endswith("?") or t[3] == "unk"
    if k in ("rematch", "getattr?", "dgetq"):
        return True
    if k in ("dget", "elem"):
        return ty(t) in ("unk",)
    if k == "unk":
        return True
    return False


def walk(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from walk(x)


def contains(t, sub):
    if t == sub:
        return True
    return any(isinstance(x, tuple) and contains(x, sub) for x in t)


def contains_kind(t, kinds):
    if t and isinstance(t[0], str) and t[0] in kinds:
        return True
    return any(isinstance(x, tuple) and contains_kind(x, kinds) for x in t)


def subst(t, m):
    if t in m:
        return m[t]
    if not any(isinstance(x, tuple) for x in t):
        return t
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r == t:
        return t
    return rebuild(r)


def rebuild(t):
    k = t[0]
    if k == "cat":
        return cat(t[1:])
    return t


# ---------------------------------------------------------------- strings
def to_str(t):
    if t[0] == "c":
        v = t[1]
        if isinstance(v, str):
            return t
        if isinstance(v, (int, type(None))):
            return const(str(v))
        return ("str", t)
    if ty(t) == "str":
        return t
    return ("str", t)


def cat(parts):
    out = []
    for p in parts:
        p = to_str(p)
        if p[0] == "cat":
            out.extend(p[1:])
        elif p[0] == "c" and p[1] == "":
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if res and p[0] == "c" and res[-1][0] == "c":
            res[-1] = const(res[-1][1] + p[1])
        else:
            res.append(p)
    if not res:
        return const("")
    if len(res) == 1:
        return res[0]
    return ("cat",) + tuple(res)


# ---------------------------------------------------------------- numbers
def _order(a):
    return repr(a)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = {}
            for a, e in m1 + m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: _order(x[0])))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


ONE = {(): Fraction(1)}


class NotNumeric(Exception):
    pass


def patom(t):
    return {((t, 1),): Fraction(1)}


def _simplify(n, d):
    # divide out a common monomial and a constant denominator
    if not n:
        return {}, dict(ONE)
    if len(d) == 1:
        (m, c), = d.items()
        if all(True for _ in n):
            # cancel common atom powers
            common = dict(m)
            for mm in n:
                dd = dict(mm)
                for a in list(common):
                    common[a] = min(common[a], dd.get(a, 0))
                    if common[a] <= 0:
                        del common[a]
            def div(mm, k):
                dd = dict(mm)
                for a, e in common.items():
                    dd[a] -= e
                return tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda x: _order(x[0])))
            n = {div(mm, 0): v / c for mm, v in n.items()}
            d = {div(m, 0): Fraction(1)}
    else:
        if n == d:
            return dict(ONE), dict(ONE)
        lead = min(d, key=lambda m: repr(m))
        c = d[lead]
        n = {m: v / c for m, v in n.items()}
        d = {m: v / c for m, v in d.items()}
    return n, d


@lru_cache(maxsize=200000)
def _rat(t):
    k = t[0]
    if k == "c":
        v = t[1]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return ({(): Fraction(v)} if v else {}, dict(ONE))
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return patom(t), dict(ONE)
            f = Fraction(repr(v))
            return ({(): f} if f else {}, dict(ONE))
        raise NotNumeric(t)
    if k == "rat":
        return dict(t[1]), dict(t[2])
    if k in ("add", "sub"):
        a, b = _rat(t[1]), _rat(t[2])
        if a[1] == b[1]:
            return _simplify(padd(a[0], b[0], 1 if k == "add" else -1), a[1])
        n = padd(pmul(a[0], b[1]), pmul(b[0], a[1]), 1 if k == "add" else -1)
        return _simplify(n, pmul(a[1], b[1]))
    if k == "neg":
        a = _rat(t[1])
        return {m: -c for m, c in a[0].items()}, a[1]
    if k == "mul":
        a, b = _rat(t[1]), _rat(t[2])
        return _simplify(pmul(a[0], b[0]), pmul(a[1], b[1]))
    if k == "div":
        a, b = _rat(t[1]), _rat(t[2])
        if not b[0]:
            return patom(t), dict(ONE)
        return _simplify(pmul(a[0], b[1]), pmul(a[1], b[0]))
    if k == "fdiv":
        a, b = _rat(t[1]), _rat(t[2])
        if not b[0]:
            return patom(t), dict(ONE)
        m = ("mod", canon_num(t[1]), canon_num(t[2]))
        n = padd(pmul(a[0], ONE), pmul(patom(m), a[1]), -1)
        return _simplify(pmul(n, b[1]), pmul(a[1], b[0]))
    if k == "mod":
        return patom(("mod", canon_num(t[1]), canon_num(t[2]))), dict(ONE)
    if k == "float" and ty(t[1]) in ("int", "num", "float"):
        return _rat(t[1])
    if k == "pow" and t[2][0] == "c" and t[2][1] in (1, 2, 3) and t[2][2] == "int":
        r = ONE, dict(ONE)
        a = _rat(t[1])
        n, d = dict(ONE), dict(ONE)
        for _ in range(t[2][1]):
            n, d = pmul(n, a[0]), pmul(d, a[1])
        return _simplify(n, d)
    if k == "sumover":
        # sum over the iterations of a loop is linear
        a = _rat(t[2])
        if a[1] == ONE:
            out = {}
            for m, c in a[0].items():
                inside = tuple(x for x in m if depends_on_loop(x[0], t[1]))
                outside = tuple(x for x in m if not depends_on_loop(x[0], t[1]))
                if inside:
                    at = ("sumover", t[1], from_rat({inside: Fraction(1)}, ONE))
                else:
                    at = ("count", t[1])
                out = padd(out, pmul({outside: c}, patom(at)))
            return out, dict(ONE)
        return patom(t), dict(ONE)
    return patom(t), dict(ONE)


def depends_on_loop(t, loop):
    if t == loop:
        return True
    if isinstance(t, tuple):
        return any(depends_on_loop(x, loop) for x in t)
    return False


def from_rat(n, d):
    return ("rat", tuple(sorted(n.items(), key=repr)), tuple(sorted(d.items(), key=repr)))


def canon_num(t):
    """A canonical term for a numeric expression."""
    n, d = _rat(t)
    if d == ONE:
        if not n:
            return const(0)
        if len(n) == 1:
            (m, c), = n.items()
            if m == ():
                return const(int(c)) if c.denominator == 1 else const(float(c))
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    return from_rat(n, d)


ARITH = {"add", "sub", "mul", "div", "fdiv", "neg", "mod", "pow", "sumover", "rat", "float"}


def canon(t):
    """Canonical form of any term."""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        if t[0] == "c":
            if t[2] == "float" and t[1] == int(t[1]) if isinstance(t[1], float) and not (math.isinf(t[1]) or math.isnan(t[1])) else False:
                return const(int(t[1]))
            return t
        if t[0] == "str":
            return canon(t[1])
        if t[0] == "cat":
            return ("cat",) + tuple(canon(x) for x in t[1:])
        if t[0] in ARITH:
            t2 = (t[0],) + tuple(canon(x) if isinstance(x, tuple) and t[0] != "rat" else x for x in t[1:])
            try:
                return canon_num(t2)
            except NotNumeric:
                return t2
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def nonnegative_form(t):
    """A polynomial of second degree that is nowhere negative (its symmetric matrix is positive semidefinite)."""
    try:
        n, d = _rat(t)
    except NotNumeric:
        return False
    if len(d) != 1 or list(d)[0] != () or d[()] <= 0:
        return False
    atoms = sorted({a for m in n for a, e in m}, key=repr)
    if len(atoms) > 12 or any(sum(e for a, e in m) > 2 or any(e < 0 for a, e in m) for m in n):
        return False
    k = len(atoms) + 1
    M = [[Fraction(0)] * k for _ in range(k)]
    at = {a: i for i, a in enumerate(atoms)}
    for m, c in n.items():
        ix = [at[a] for a, e in m for _ in range(int(e))]
        ix += [k - 1] * (2 - len(ix))
        M[ix[0]][ix[1]] += Fraction(c) / 2
        M[ix[1]][ix[0]] += Fraction(c) / 2
    left = list(range(k))
    while left:     # symmetric elimination
        p = next((i for i in left if M[i][i] != 0), None)
        if p is None:
            return all(M[i][j] == 0 for i in left for j in left)
        if M[p][p] < 0:
            return False
        left.remove(p)
        for i in left:
            f = M[i][p] / M[p][p]
            for j in left:
                M[i][j] -= f * M[p][j]
    return True


def linear(t):
    """(coefficients of atoms, constant) when t is a linear combination, else None."""
    try:
        n, d = _rat(t)
    except NotNumeric:
        return None
    if d != ONE:
        return None
    co, k = {}, Fraction(0)
    for m, c in n.items():
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            co[m[0][0]] = c
        else:
            co[("mono", m)] = c
    return co, k


def show(t, depth=0):
    """A readable rendering of a term, for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if not t or not isinstance(t[0], str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if depth > 12:
        return "..."
    k = t[0]
    d = depth + 1
    if k == "c":
        return repr(t[1])
    if k in ("sym",):
        return t[1]
    if k == "cat":
        return " + ".join(show(x, d) for x in t[1:])
    if k == "str":
        return "str(%s)" % show(t[1], d)
    if k == "tuple":
        return "(" + ", ".join(show(x, d) for x in t[1:]) + ")"
    if k == "list":
        return "[" + ", ".join(show(x, d) for x in t[1:]) + "]"
    if k in ("add", "sub", "mul", "div", "fdiv", "mod"):
        o = {"add": "+", "sub": "-", "mul": "*", "div": "/", "fdiv": "//", "mod": "%"}[k]
        return "(%s %s %s)" % (show(t[1], d), o, show(t[2], d))
    if k == "rat":
        def poly(p):
            return " + ".join("*".join(([str(c)] if c != 1 or not m else []) +
                                       [show(a, d) + ("**%d" % e if e != 1 else "") for a, e in m])
                              for m, c in p) or "0"
        s = poly(t[1])
        if t[2] != (((), Fraction(1)),):
            s = "(%s) / (%s)" % (s, poly(t[2]))
        return s
    if k == "lk":
        return "key<%s>" % (t[1],)
    if k == "dget":
        return "%s[%s]" % (t[5] if len(t) > 5 else "dict%s" % t[1], show(t[3], d))
    if k == "attr":
        return "%s.%s" % (show(t[1], d), t[2])
    if k == "ret":
        return "%s()#%s" % (t[2], t[1])
    if k == "now":
        return "now#%s" % t[1]
    if k == "obj":
        return "<object %s>" % (t[1],)
    return "%s(%s)" % (k, ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:]))
