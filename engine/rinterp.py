"""Deciding whether two terms denote the same value (random interpretation).

Two terms are first compared in canonical form.  When these differ, both are
interpreted over random points of the free values they contain (the points have
to satisfy the facts of the path); terms that agree everywhere are taken as
equal, terms that disagree at a point are different, and a term with an
operation that has no interpretation here is compared only as far as that
operation occurs in the same form on both sides.
"""
import math
import random
from fractions import Fraction

from terms import *
import terms as T

NUMT = ("int", "float", "num", "bool")


class NoValue(Exception):
    """The value does not exist (division by zero, missing item)."""


class Unknown(Exception):
    """An operation without an interpretation."""


LEAVES = {"sym", "dget", "ret", "now", "attr", "phi", "exit", "elem", "lk", "obj", "x", "fn", "cls", "unk",
          "sumover", "psum", "count", "rand", "getattr", "bm", "partial", "mod_", "sup", "dgetq",
          "idof", "hashof", "lidx"}


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unknown("non-finite")
        return Fraction(repr(v))
    if isinstance(v, Fraction):
        return v
    raise Unknown("not a number: %r" % (v,))


def py2float(s):
    if "_" in s or any(ord(c) > 127 for c in s):
        raise ValueError(s)
    return float(s)


def fmtnum(v):
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else repr(float(v))
    return str(v)


def pyround(x, n=0):
    m = Fraction(10) ** int(n)
    y = x * m
    r = math.floor(abs(y) + Fraction(1, 2))
    return Fraction(r if y >= 0 else -r) / m


class Match(object):
    def __init__(self, m):
        self.m = m


class Point(object):
    def __init__(self, rng, pools=None, hints=None):
        self.rng = rng
        self.env = dict(pools or {})
        self.hints = hints or []
        self.unknown_ops = set()
        self.memo = {}
        self.approx = False

    def leaf(self, t, y=None):
        k = t
        if k in self.env:
            return self.env[k]
        y = y or ty(t)
        r = self.rng
        if t[0] == "now" and len(t) > 1 and isinstance(t[1], int):
            # a clock that does not run backwards
            if "#t0" not in self.env:
                self.env["#t0"] = Fraction(r.randint(10 ** 6, 10 ** 7), 4)
                self.env["#dt"] = r.choice([Fraction(1, 4096), Fraction(1, 16), Fraction(3, 8), Fraction(1), Fraction(7, 2)])
            v = self.env["#t0"] + t[1] * self.env["#dt"]
        elif t[0] == "rand":
            v = Fraction(r.randint(0, 63), 64)
        elif y in ("int", "bool"):
            v = Fraction(r.choice([0, 1, 2, 3, 5, 1000, 1500, 10000, r.randint(-5, 50), r.randint(0, 5000)]))
            if y == "bool":
                v = bool(r.randint(0, 1))
        elif y in ("num", "float"):
            v = r.choice([Fraction(0), Fraction(1), Fraction(r.randint(-40, 400), 8), Fraction(r.randint(1, 9000), 16),
                          Fraction(r.randint(1, 99))])
        elif y == "str":
            v = r.choice(["", "a", "k%d" % r.randint(0, 99), "x.y%d" % r.randint(0, 9), "%d" % r.randint(0, 9)])
        elif y == "list":
            v = tuple(Fraction(r.randint(0, 60), 4) for _ in range(r.randint(0, 7)))
        elif y == "tuple":
            v = ("#tuple", t)
        else:
            v = ("#", repr(t))
        self.env[k] = v
        return v

    def ev(self, t):
        if t in self.memo:
            v, ops = self.memo[t]
            self.unknown_ops |= ops
            if isinstance(v, Exception):
                raise v
            return v
        outer, self.unknown_ops = self.unknown_ops, set()
        try:
            try:
                v = self.ev_(t)
            except (NoValue, Unknown) as e:
                v = e
            except (TypeError, ValueError, OverflowError, AttributeError, IndexError) as e:
                v = Unknown("%s: %s" % (t[0], e))
            self.memo[t] = (v, self.unknown_ops)
        finally:
            self.unknown_ops = outer | self.unknown_ops
        if isinstance(v, Exception):
            raise v
        return v

    def num(self, t):
        return frac(self.ev(t))

    def uninterpreted(self, t):
        self.unknown_ops.add(t[0])
        args = []
        for x in t[1:]:
            args.append(self.ev(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x)
        key = ("app", t[0], repr(args))
        return self.leaf(key, ty(t) if ty(t) != "unk" else "opaque")

    def lst(self, t):
        v = self.ev(t)
        if isinstance(v, str):
            return tuple(v)
        if not isinstance(v, tuple) or (v and isinstance(v[0], str) and v[0].startswith("#")):
            raise Unknown("list")
        return v

    def ev_(self, t):
        k = t[0]
        if k == "c":
            v = t[1]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            return frac(v)
        if k in LEAVES:
            return self.leaf(t)
        if k == "rat":
            def poly(p):
                s = Fraction(0)
                for m, c in p:
                    x = c
                    for a, e in m:
                        b = self.num(a)
                        if e < 0 and b == 0:
                            raise NoValue("division by zero")
                        x *= b ** e
                    s += x
                return s
            d = poly(t[2])
            if d == 0:
                raise NoValue("division by zero")
            return poly(t[1]) / d
        if k == "add":
            return self.num(t[1]) + self.num(t[2])
        if k == "sub":
            return self.num(t[1]) - self.num(t[2])
        if k == "mul":
            return self.num(t[1]) * self.num(t[2])
        if k == "div":
            d = self.num(t[2])
            if d == 0:
                raise NoValue("division by zero")
            return self.num(t[1]) / d
        if k == "fdiv":
            d = self.num(t[2])
            if d == 0:
                raise NoValue("division by zero")
            return Fraction(math.floor(self.num(t[1]) / d))
        if k in ("bitand", "bitor", "bitxor", "rshift", "lshift") and len(t) == 3:
            a, b = self.ev(t[1]), self.ev(t[2])
            if all(isinstance(x, (int, Fraction)) and x == int(x) for x in (a, b)):
                a, b = int(a), int(b)
                if k in ("rshift", "lshift") and not 0 <= b < 4096:
                    raise NoValue(k)
                return Fraction({"bitand": lambda: a & b, "bitor": lambda: a | b, "bitxor": lambda: a ^ b, "rshift": lambda: a >> b, "lshift": lambda: a << b}[k]())
            return self.uninterpreted(t)
        if k == "mod":
            d = self.num(t[2])
            if d == 0:
                raise NoValue("division by zero")
            n = self.num(t[1])
            return n - d * math.floor(n / d)
        if k in ("sqrt", "exp") and self.approx:
            x = float(self.num(t[1]))
            if k == "sqrt" and x < 0:
                raise NoValue("sqrt of a negative number")
            if k == "exp" and x > 709:
                raise NoValue("exp of a large number")
            return Fraction(getattr(math, k)(x))
        if k == "rangel" and len(t) == 2:
            return tuple(Fraction(i) for i in range(int(self.num(t[1]))))
        if k == "lset":
            xs = list(self.lst(t[1]))
            i = int(self.num(t[2]))
            if not -len(xs) <= i < len(xs):
                raise NoValue("index")
            xs[i] = self.ev(t[3])
            return tuple(xs)
        if k == "lmap" and len(t[3]) == 1 and all(is_const(e) for e in t[3][0][1]):
            return tuple(self.ev(e) for _ in self.lst(t[2]) for e in t[3][0][1])
        if k == "neg":
            return -self.num(t[1])
        if k == "abs":
            return abs(self.num(t[1]))
        if k in ("max", "min"):
            xs = [self.num(x) for x in t[1:]] if len(t) > 2 else [frac(x) for x in self.lst(t[1])]
            if not xs:
                raise NoValue("empty")
            return max(xs) if k == "max" else min(xs)
        if k in ("trunc", "int") and len(t) == 2:
            v = self.ev(t[1])
            if isinstance(v, str):
                try:
                    return Fraction(int(v))
                except ValueError:
                    raise NoValue("int")
            return Fraction(int(frac(v)))
        if k == "float":
            v = self.ev(t[1])
            if isinstance(v, str):
                try:
                    return frac(py2float(v))
                except ValueError:
                    raise NoValue("float")
            return frac(v)
        if k == "floor":
            return Fraction(math.floor(self.num(t[1])))
        if k == "ceil":
            return Fraction(math.ceil(self.num(t[1])))
        if k == "round":
            n = 0
            if len(t) > 2 and isinstance(t[2], tuple):
                n = self.num(t[2])
            elif len(t) > 2:
                n = t[2]
            return pyround(self.num(t[1]), n)
        if k == "pow" and is_const(t[2]) and isinstance(t[2][1], int) and 0 <= t[2][1] <= 6:
            return self.num(t[1]) ** t[2][1]
        if k == "sum" and len(t) == 2:
            return sum((frac(x) for x in self.lst(t[1])), Fraction(0))
        if k == "len":
            v = self.ev(t[1])
            if isinstance(v, str):
                return Fraction(len(v))
            return Fraction(len(self.lst(t[1])))
        if k in ("list", "tuple"):
            return tuple(self.ev(x) for x in t[1:])
        if k == "lcat":
            out = ()
            for x in t[1:]:
                out += self.lst(x)
            return out
        if k == "sorted" and len(t) == 2:
            return tuple(sorted(self.lst(t[1]), key=lambda x: (isinstance(x, str), x)))
        if k in ("uniq", "setof") and len(t) == 2:
            out = []
            for x in self.lst(t[1]):
                if x not in out:
                    out.append(x)
            return tuple(sorted(out, key=lambda x: (isinstance(x, str), x)))
        if k == "rev" and len(t) == 2:
            return tuple(reversed(self.lst(t[1])))
        if k == "insorted":
            return tuple(sorted(self.lst(t[1]) + (self.ev(t[2]),)))
        if k == "slice":
            v = self.ev(t[1])
            if not isinstance(v, str):
                v = self.lst(t[1])
            idx = [self.ev(x) if isinstance(x, tuple) else x for x in t[2:5]]
            idx = [None if x is None else int(frac(x)) for x in idx]
            return v[slice(*idx)]
        if k == "sslice":
            v = self.ev(t[1])
            if not isinstance(v, str):
                raise Unknown("sslice")
            idx = [self.ev(x) if isinstance(x, tuple) else x for x in t[2:5]]
            idx = [None if x is None else int(frac(x)) for x in idx]
            return v[slice(*idx)]
        if k in ("find", "rfind") and len(t) >= 3:
            v = self.ev(t[1])
            a = [self.ev(x) for x in t[2:]]
            if not isinstance(v, str) or not isinstance(a[0], str):
                raise Unknown(k)
            return Fraction(getattr(v, k)(a[0], *[int(frac(x)) for x in a[1:]]))
        if k in ("itemt", "item", "sitem"):
            v = self.ev(t[1])
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("#"):
                return self.leaf(("itemof", t[1], t[2]), ty(t))
            if not isinstance(v, (str, tuple)):
                raise Unknown("item")
            i = self.ev(t[2]) if isinstance(t[2], tuple) else t[2]
            i = int(frac(i))
            if not -len(v) <= i < len(v):
                raise NoValue("index")
            return v[i]
        if k == "lrep":
            v = self.lst(t[1]) if isinstance(t[1], tuple) else None
            n = int(self.num(t[2]))
            if v is None or n > 4000:
                raise Unknown("lrep")
            return v * n
        if k == "cat":
            return "".join(self.text(x) for x in t[1:])
        if k == "str":
            return self.text(t[1])
        if k == "fmt":
            f, x = t[1], self.ev(t[2])
            f = f[1] if isinstance(f, tuple) else f
            if f in ("%s",):
                return self.text(t[2])
            if f == "%d" and isinstance(x, Fraction):
                return str(int(x))
            if isinstance(x, Fraction):
                try:
                    return f % float(x)
                except (TypeError, ValueError):
                    raise Unknown("fmt")
            return self.uninterpreted(t)
        if k in ("strip", "lstrip", "rstrip", "lower", "upper", "title"):
            v = self.ev(t[1])
            if not isinstance(v, str):
                raise Unknown(k)
            a = [self.ev(x) for x in t[2:]]
            if all(ord(c) < 256 for c in v):
                return getattr(v.encode("latin-1"), k)(*[x.encode("latin-1") if isinstance(x, str) else x for x in a]).decode("latin-1")
            return getattr(v, k)(*a)
        if k == "replace":
            return self.s(t[1]).replace(self.s(t[2]), self.s(t[3]))
        if k in ("split", "rsplit"):
            v = self.s(t[1])
            sep = self.ev(t[2]) if isinstance(t[2], tuple) else t[2]
            mx = self.ev(t[3]) if isinstance(t[3], tuple) else t[3]
            a = [sep] if mx is None else [sep, int(mx)]
            if sep is None and all(ord(c) < 256 for c in v):
                return tuple(x.decode("latin-1") for x in getattr(v.encode("latin-1"), k)(*a))
            return tuple(getattr(v, k)(*a))
        if k == "join":
            a, b = t[1], t[2]
            sep = self.s(a)
            return sep.join(self.lst(b))
        if k == "ite":
            return self.ev(t[2] if self.ev(t[1]) else t[3])
        if k == "resub" and t[1][0] == "regex":
            repl = self.s(t[2])
            count = int(self.num(t[4])) if len(t) > 4 else 0
            return self.regex(t[1]).sub(repl, self.s(t[3]), count=count) if count >= 0 else self.s(t[3])
        if k == "rematch" and t[2][0] == "regex":
            m = getattr(self.regex(t[2]), t[1])(self.s(t[3]))
            return None if m is None else Match(m)
        if k == "group":
            m = self.ev(t[1])
            if m is None:
                raise NoValue("group of no match")
            if not isinstance(m, Match):
                return self.leaf(t)
            i = t[2] if not isinstance(t[2], tuple) else self.ev(t[2])
            return m.m.group(int(i))
        if k == "repr":
            v = self.ev(t[1])
            if isinstance(v, str):
                return repr(v)
            return self.uninterpreted(t)
        if k == "isip":
            parts = self.s(t[1]).split(".")
            return len(parts) == 4 and all(x.isdigit() and int(x) < 256 for x in parts)
        if k == "fnmatch":
            import fnmatch
            return fnmatch.fnmatchcase(self.s(t[1]), self.s(t[2]))
        if k == "haskey":
            return self.leaf(("haskey", t[1], repr(self.ev(t[2]))), "bool")
        # truth values
        if k == "lt0":
            return self.num(t[1]) < 0
        if k == "eq0":
            return self.num(t[1]) == 0
        if k == "not":
            return not self.ev(t[1])
        if k == "eq":
            return self.ev(t[1]) == self.ev(t[2])
        if k == "isnone":
            return self.ev(t[1]) is None
        if k in ("truth", "nonempty"):
            v = self.ev(t[1])
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("#"):
                return True
            return bool(v)
        if k == "in":
            a, b = self.ev(t[1]), self.ev(t[2])
            if isinstance(a, str) and isinstance(b, str):
                return a in b
            return a in self.lst(t[2])
        if k in ("startswith", "endswith"):
            return getattr(self.s(t[1]), k)(self.s(t[2]))
        if k == "isnum":
            v = self.ev(t[1])
            if isinstance(v, Fraction):
                return True
            try:
                py2float(v)
                return True
            except (TypeError, ValueError):
                return False
        if k in ("isnan", "isinf"):
            x = t[1]
            while x[0] == "float":
                x = x[1]
            v = self.ev(x)
            if isinstance(v, str):
                try:
                    return getattr(math, k)(py2float(v))
                except ValueError:
                    raise NoValue("float")
            frac(v)
            return False
        if k == "and":
            return all(self.ev(x) for x in t[1:])
        if k == "or":
            return any(self.ev(x) for x in t[1:])
        return self.uninterpreted(t)

    def regex(self, t):
        import re
        pat, fl = (x[1] if isinstance(x, tuple) else x for x in t[1:3])
        if not isinstance(pat, str):
            raise Unknown("regex")
        try:
            return re.compile(pat, (fl or 0) | re.ASCII)
        except re.error:
            raise Unknown("regex")

    def s(self, t):
        v = self.ev(t) if isinstance(t, tuple) else t
        if not isinstance(v, str):
            raise Unknown("string")
        return v

    def text(self, t):
        v = self.ev(t)
        if isinstance(v, str):
            return v
        if isinstance(v, Fraction):
            return fmtnum(v)
        if v is None or isinstance(v, bool):
            return str(v)
        return "<%s>" % (v,)


INTERPRETED_FACTS = {"lt0", "eq0", "not", "eq", "isnone", "truth", "nonempty", "in", "startswith", "endswith", "isnum"}


def free(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        if t[0] in LEAVES:
            out.add(t)
            return out
        for x in t[1:]:
            if isinstance(x, tuple):
                free(x, out)
    elif isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                free(x, out)
    return out


def compare(a, b, facts=(), seed=1, tries=400, want=24, pools=None):
    """('equal'|'differ'|'unknown', detail)."""
    if a == b:
        return "equal", None
    ca, cb = canon(a), canon(b)
    if ca == cb:
        return "equal", None
    rng = random.Random(seed)
    ok = agree = 0
    vars_ = free(ca) | free(cb)
    relevant, opaque = [], False
    for at, v in facts:
        fv = free(at)
        if fv & vars_:
            relevant.append((at, v))
    for _ in range(tries):
        p = Point(rng, pools(rng) if pools else None)
        solve(p, relevant)
        good = True
        for at, v in relevant:
            try:
                u = len(p.unknown_ops)
                if p.ev(at) != v:
                    good = False
                    break
                if len(p.unknown_ops) > u:
                    opaque = True
            except NoValue:
                good = False
                break
            except Unknown:
                opaque = True
        if not good:
            continue
        p.unknown_ops = set()
        try:
            va = p.ev(ca)
            ua = set(p.unknown_ops)
            p.unknown_ops = set()
            p.memo = {}
            vb = p.ev(cb)
            ub = set(p.unknown_ops)
        except NoValue:
            continue
        except Unknown as e:
            return "unknown", str(e)
        ok += 1
        if va == vb:
            agree += 1
            if agree >= want:
                return "equal", None
        else:
            if opaque:
                return "unknown", "a condition without an interpretation"
            if ua != ub:
                return "unknown", "operations %s" % sorted(ua ^ ub)
            w = {show(k) if isinstance(k, tuple) and k and k[0] != "app" else str(k):
                 fmtnum(v) if isinstance(v, Fraction) else v for k, v in list(p.env.items())[:8]}
            return "differ", "%s != %s with %s" % (fmtnum(va), fmtnum(vb), w)
    if agree >= 5 and agree == ok:
        return "equal", None
    return "unknown", "no point satisfies the conditions of the path"


def solve(p, facts):
    """Choose values that meet simple equalities of the path."""
    for at, v in facts:
        if not v:
            continue
        if at[0] == "eq" and is_const(at[2]) and at[1][0] in LEAVES:
            p.env[at[1]] = p.ev(at[2])
        elif at[0] == "isnone" and at[1][0] in LEAVES:
            p.env[at[1]] = None
        elif at[0] == "eq0":
            r = linear(at[1])
            if r is None:
                continue
            co, k = r
            for a, c in co.items():
                if a[0] in LEAVES and a not in p.env:
                    try:
                        rest = k + sum((cc * p.num(x) for x, cc in co.items() if x != a), Fraction(0))
                    except (NoValue, Unknown):
                        break
                    p.env[a] = -rest / c
                    break
            else:
                for a, c in co.items():
                    if a[0] == "mod" and len(co) == 1 and k == 0 and a[1][0] in LEAVES and is_const(a[2]):
                        p.env[a[1]] = Fraction(a[2][1]) * p.rng.randint(0, 30)
