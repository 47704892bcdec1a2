"""What is known on a path: atoms with a truth value, and intervals of linear forms."""
from fractions import Fraction
from terms import *
import terms as T


class Infeasible(Exception):
    pass


INTKINDS = ("int", "bool")


def norm_lin(e):
    """(key, lead, k): e == lead * key + k, or None."""
    r = linear(e)
    if r is None:
        return None
    co, k = r
    if not co:
        return (), Fraction(0), k
    items = sorted(co.items(), key=lambda x: repr(x[0]))
    lead = items[0][1]
    return tuple((a, c / lead) for a, c in items), lead, k


def is_int_key(key):
    return all(c.denominator == 1 and (ty(a) in INTKINDS) for a, c in key)


def base_bounds(a):
    k = a[0]
    if k == "len" and a[1][0] in ("split", "rsplit") and a[1][2] != NONE:
        mx = a[1][3]
        return Fraction(1), False, (Fraction(mx[1] + 1) if is_const(mx) and isinstance(mx[1], int) else None), False
    if k in ("len", "count", "lidx", "zeros"):
        return Fraction(0), False, None, False
    if k in ("find", "rfind"):
        return Fraction(-1), False, None, False
    if k == "rand":
        return Fraction(0), False, Fraction(1), True
    if k in ("pow",) and a[2][0] == "c" and a[2][1] in (2, 4):
        return Fraction(0), False, None, False
    if k == "exp":
        return Fraction(0), True, None, False
    if k == "abs":
        return Fraction(0), False, None, False
    if k == "mod" and a[2][0] == "c" and isinstance(a[2][1], (int, float)) and a[2][1] > 0:
        return Fraction(0), False, Fraction(repr(a[2][1])), True
    if k == "sumover" and ty(a[2]) == "int" and a[2][0] in ("len", "count"):
        return Fraction(0), False, None, False
    return None, False, None, False


class Facts(object):
    __slots__ = ("atoms", "bounds", "excl", "eqc", "log", "rules")

    def __init__(self):
        self.atoms = {}
        self.bounds = {}
        self.excl = {}
        self.eqc = {}
        self.log = []
        self.rules = ()

    def clone(self):
        f = Facts()
        f.atoms = dict(self.atoms)
        f.bounds = dict(self.bounds)
        f.excl = dict(self.excl)
        f.eqc = dict(self.eqc)
        f.log = list(self.log)
        f.rules = self.rules
        return f

    # -- numbers
    def get_bounds(self, key):
        lo = hi = None
        ls = hs = False
        if key in self.bounds:
            lo, ls, hi, hs = self.bounds[key]
        if len(key) == 1 and key[0][1] == 1:
            b = base_bounds(key[0][0])
            lo, ls, hi, hs = meet((lo, ls, hi, hs), b)
        elif len(key) > 1:
            # interval arithmetic over the atoms
            slo = shi = Fraction(0)
            sls = shs = False
            for a, c in key:
                alo, als, ahi, ahs = self.get_bounds(((a, Fraction(1)),))
                if c < 0:
                    alo, als, ahi, ahs = ahi, ahs, alo, als
                slo = None if slo is None or alo is None else slo + alo * c
                shi = None if shi is None or ahi is None else shi + ahi * c
                sls = sls or als
                shs = shs or ahs
            lo, ls, hi, hs = meet((lo, ls, hi, hs), (slo, sls, shi, shs))
        if is_int_key(key):
            if lo is not None:
                n = lo.__ceil__()
                lo, ls = Fraction(n + 1 if ls and n == lo else n), False
            if hi is not None:
                n = hi.__floor__()
                hi, hs = Fraction(n - 1 if hs and n == hi else n), False
        ex = self.excl.get(key)
        if ex and is_int_key(key):
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
        return lo, ls, hi, hs

    def decide_lt0(self, e):
        r = norm_lin(e)
        if r is None:
            return None
        key, lead, k = r
        if not key:
            return k < 0
        v = -k / lead
        r = self._lt(key, lead, v)
        if r is None and len(key) > 1:
            r = self._combine(key, lead, v)
        if r is None and len(key) == 1 and self.bounds:
            b = self.derived(key)
            if b is not None:
                r = self._lt(key, lead, v, b)
        return r

    def derived(self, key):
        """Bounds of one atom from forms in which it occurs with bounded others."""
        a = key[0][0]
        b = (None, False, None, False)
        for k2 in self.bounds:
            if len(k2) < 2:
                continue
            d = dict(k2)
            if a not in d:
                continue
            c0 = d.pop(a)
            lo, ls, hi, hs = self.get_bounds(k2)
            for x, c in d.items():
                xlo, xls, xhi, xhs = self.get_bounds(((x, Fraction(1)),))
                if c > 0:
                    xlo, xls, xhi, xhs = xhi, xhs, xlo, xls
                # c0*a = form - c*x
                lo = None if lo is None or xlo is None else lo - c * xlo
                hi = None if hi is None or xhi is None else hi - c * xhi
                ls, hs = ls or xls, hs or xhs
            if c0 < 0:
                lo, ls, hi, hs = hi, hs, lo, ls
            b = meet(b, (None if lo is None else lo / c0, ls, None if hi is None else hi / c0, hs))
        return None if b == (None, False, None, False) else meet(b, self.get_bounds(key))

    def _lt(self, key, lead, v, bounds=None):
        lo, ls, hi, hs = bounds or self.get_bounds(key)
        if lead > 0:  # L < v
            if hi is not None and (hi < v or (hi == v and hs)):
                return True
            if lo is not None and lo >= v:
                return False
        else:  # L > v
            if lo is not None and (lo > v or (lo == v and ls)):
                return True
            if hi is not None and hi <= v:
                return False
        return None

    def _combine(self, key, lead, v):
        # one known form plus single-atom bounds
        d = dict(key)
        for k2 in self.bounds:
            if len(k2) < 2 or k2 == key:
                continue
            d2 = dict(k2)
            for s in (1, -1):
                rest = {a: c for a, c in d.items()}
                for a, c in d2.items():
                    rest[a] = rest.get(a, 0) - s * c
                rest = {a: c for a, c in rest.items() if c}
                if len(rest) > 1:
                    continue
                lo, ls, hi, hs = self.get_bounds(k2)
                if s < 0:
                    lo, ls, hi, hs = (None if hi is None else -hi), hs, (None if lo is None else -lo), ls
                for a, c in rest.items():
                    alo, als, ahi, ahs = self.get_bounds(((a, Fraction(1)),))
                    if c < 0:
                        alo, als, ahi, ahs = ahi, ahs, alo, als
                    lo = None if lo is None or alo is None else lo + alo * c
                    hi = None if hi is None or ahi is None else hi + ahi * c
                    ls, hs = ls or als, hs or ahs
                if lead > 0:
                    if hi is not None and (hi < v or (hi == v and hs)):
                        return True
                    if lo is not None and lo >= v:
                        return False
                else:
                    if lo is not None and (lo > v or (lo == v and ls)):
                        return True
                    if hi is not None and hi <= v:
                        return False
        return None

    def decide_eq0(self, e):
        r = norm_lin(e)
        if r is None:
            return None
        key, lead, k = r
        if not key:
            return k == 0
        v = -k / lead
        lo, ls, hi, hs = self.get_bounds(key)
        if lo is not None and (lo > v or (lo == v and ls)):
            return False
        if hi is not None and (hi < v or (hi == v and hs)):
            return False
        if lo is not None and hi is not None and lo == hi == v:
            return True
        if v in self.excl.get(key, ()):
            return False
        if is_int_key(key) and v.denominator != 1:
            return False
        if len(key) == 1 and self.bounds:
            b = self.derived(key)
            if b is not None:
                lo, ls, hi, hs = b
                if lo is not None and (lo > v or (lo == v and ls)) or hi is not None and (hi < v or (hi == v and hs)):
                    return False
                if lo is not None and lo == hi == v:
                    return True
        elif len(key) > 1:
            if self._combine(key, Fraction(1), v) is True or self._combine(key, Fraction(-1), v) is True:
                return False
        return None

    def assume_num(self, kind, e, val):
        r = norm_lin(e)
        if r is None:
            return
        key, lead, k = r
        if not key:
            return
        v = -k / lead
        new = (None, False, None, False)
        if kind == "lt0":
            if val:
                new = (None, False, v, True) if lead > 0 else (v, True, None, False)
            else:
                new = (v, False, None, False) if lead > 0 else (None, False, v, False)
        else:
            if val:
                new = (v, False, v, False)
            else:
                self.excl[key] = self.excl.get(key, frozenset()) | {v}
                lo, ls, hi, hs = self.get_bounds(key)
                if lo is not None and lo == hi == v:
                    raise Infeasible()
                if lo == v and lo is not None:
                    new = (v, True, None, False)
                if hi == v and hi is not None:
                    new = (None, False, v, True)
        if new == (None, False, None, False):
            return
        b = meet(self.bounds.get(key, (None, False, None, False)), new)
        self.bounds[key] = b
        lo, ls, hi, hs = self.get_bounds(key)
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            raise Infeasible()

    # -- implications (atom, value) => (atom, value)
    def add_rule(self, p, q):
        self.rules = self.rules + ((p, q), ((q[0], not q[1]), (p[0], not p[1])))
        self.fire()

    def fire(self):
        for p, q in self.rules:
            if self.decide(p[0]) == p[1]:
                r = self.decide(q[0])
                if r is None:
                    self._assume(q[0], q[1])
                elif r != q[1]:
                    raise Infeasible()

    # -- atoms
    def decide(self, a):
        k = a[0]
        if k == "c":
            return bool(a[1])
        if k == "not":
            r = self.decide(a[1])
            return None if r is None else not r
        if k == "lt0":
            r = self.decide_lt0(a[1])
            if r is not None:
                return r
            return self.atoms.get(a)
        if k == "eq0":
            r = self.decide_eq0(a[1])
            if r is not None:
                return r
            return self.atoms.get(a)
        if k == "eq":
            x, y = a[1], a[2]
            if x == y:
                return True
            cx = x if is_const(x) else self.eqc.get(x)
            cy = y if is_const(y) else self.eqc.get(y)
            if cx is not None and cy is not None:
                return cx[1] == cy[1]
            r = self.atoms.get(a)
            if r is not None:
                return r
            if is_const(y) and isinstance(y[1], str):
                r = self._str_excluded(x, y[1])
                if r:
                    return False
                if self.atoms.get(("isnone", x)) is True:
                    return False
            return None
        if k == "isnone":
            x = a[1]
            if is_const(x):
                return x[1] is None
            r = self.atoms.get(a)
            if r is not None:
                return r
            if not nullable(x):
                return False
            if x[0] == "rematch" and all(map(is_const, (x[2][1], x[2][2], x[3]))):
                return False        # a match of constants that fails is the constant None
            if x in self.eqc:
                return self.eqc[x][1] is None
            if self.atoms.get(("truth", x)) is True:
                return False
            if any(self.atoms.get((q, x)) is True for q in ("isnum",)):
                return False
            return None
        if k == "truth":
            x = a[1]
            r = self.atoms.get(a)
            if r is not None:
                return r
            if self.atoms.get(("isnone", x)) is True:
                return False
            if x in self.eqc:
                return bool(self.eqc[x][1])
            return None
        if k == "in":
            x, y = a[1], a[2]
            cy = y if is_const(y) else self.eqc.get(y)
            if is_const(x) and cy is not None and isinstance(cy[1], str):
                return x[1] in cy[1]
            if x[0] == "c" and y[0] == "cat" and isinstance(x[1], str):
                if any(p[0] == "c" and x[1] in p[1] for p in y[1:]):
                    return True
            if y[0] == "split" and is_const(x) and y[2] == x and y[3] == NONE:
                return False
            r = self.atoms.get(a)
            if r is None and y[0] in ("item", "itemt") and y[1][0] == "split" and y[1][2] == x:
                # a piece of a split does not contain the separator
                sp = y[1]
                if sp[3] == NONE or (is_const(sp[3]) and is_const(y[2]) and 0 <= y[2][1] < sp[3][1]):
                    return False
            if r is None and y[0] in ("strip", "lstrip", "rstrip") and len(y) == 2 and is_const(x) \
                    and isinstance(x[1], str) and x[1] and not x[1][:1].isspace() and not x[1][-1:].isspace():
                return self.decide(("in", x, y[1]))
            return r
        if k == "isnum":
            x = a[1]
            c = x if is_const(x) else self.eqc.get(x)
            if c is not None and isinstance(c[1], str):
                try:
                    float(c[1])
                    return True
                except ValueError:
                    return False
            return self.atoms.get(a)
        if k == "startswith":
            x = a[1]
            c = x if is_const(x) else self.eqc.get(x)
            if c is not None and is_const(a[2]):
                return c[1].startswith(a[2][1])
            if x[0] == "cat" and x[1][0] == "c" and is_const(a[2]):
                p, q = x[1][1], a[2][1]
                if len(p) >= len(q):
                    return p.startswith(q)
                if not q.startswith(p):
                    return False
            return self.atoms.get(a)
        if k == "endswith":
            x = a[1]
            c = x if is_const(x) else self.eqc.get(x)
            if c is not None and is_const(a[2]):
                return c[1].endswith(a[2][1])
            if x[0] == "cat" and x[-1][0] == "c" and is_const(a[2]):
                p, q = x[-1][1], a[2][1]
                if len(p) >= len(q):
                    return p.endswith(q)
                if not q.endswith(p):
                    return False
            return self.atoms.get(a)
        return self.atoms.get(a)

    def _str_excluded(self, x, s):
        """x cannot equal the string s."""
        if x[0] == "cat":
            if x[1][0] == "c" and not s.startswith(x[1][1]):
                return True
            if x[-1][0] == "c" and not s.endswith(x[-1][1]):
                return True
            for p in x[1:]:
                if p[0] == "c" and p[1] not in s:
                    return True
        for at, v in self.atoms.items():
            if at[0] == "in" and at[2] == x and is_const(at[1]) and isinstance(at[1][1], str):
                if (at[1][1] in s) != v:
                    return True
            if at[0] == "startswith" and at[1] == x and is_const(at[2]) and s.startswith(at[2][1]) != v:
                return True
            if at[0] == "endswith" and at[1] == x and is_const(at[2]) and s.endswith(at[2][1]) != v:
                return True
            if at == ("isnum", x):
                try:
                    float(s)
                    n = True
                except ValueError:
                    n = False
                if n != v:
                    return True
            if at == ("nonempty", x) and bool(s) != v:
                return True
            if at == ("truth", x) and bool(s) != v:
                return True
        return False

    def assume(self, a, val):
        while a[0] == "not":
            a, val = a[1], not val
        r = self.decide(a)
        if r is not None:
            if r != val:
                raise Infeasible()
            return
        self._assume(a, val)
        if self.rules:
            self.fire()

    def _assume(self, a, val):
        while a[0] == "not":
            a, val = a[1], not val
        self.log.append((a, val))
        k = a[0]
        if k in ("lt0", "eq0"):
            self.atoms[a] = val
            self.assume_num(k, a[1], val)
            return
        if k == "in" and a[2][0] in ("strip", "lstrip", "rstrip") and len(a[2]) == 2 and is_const(a[1]) \
                and isinstance(a[1][1], str) and a[1][1] and not a[1][1][:1].isspace() and not a[1][1][-1:].isspace():
            self.atoms[("in", a[1], a[2][1])] = val
        self.atoms[a] = val
        if k == "eq" and val:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if is_const(y):
                    self.eqc[x] = y
                elif y in self.eqc and x not in self.eqc:
                    self.eqc[x] = self.eqc[y]
        if k == "isnone" and val:
            self.eqc[a[1]] = NONE
        if k in ("truth", "nonempty") and val:
            self.atoms.setdefault(("isnone", a[1]), False)


def meet(a, b):
    lo, ls, hi, hs = a
    l2, s2, h2, t2 = b
    if l2 is not None and (lo is None or l2 > lo or (l2 == lo and s2)):
        lo, ls = l2, s2
    if h2 is not None and (hi is None or h2 < hi or (h2 == hi and t2)):
        hi, hs = h2, t2
    return lo, ls, hi, hs
