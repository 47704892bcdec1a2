"""What the builtins and the library functions the repository uses do, in terms."""
import math
import re as _re

from terms import *
import terms as T
from facts import Infeasible
import interp as IN
from interp import (Undecided, PyRaise, PyBreak, PyContinue, Obj, lcat, EXC_PARENT, EXC_ALIAS)

SPEC = _re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrs%])")
NUM = ("int", "float", "num", "bool")

CONSTS = {
    "sys.maxint": const(2 ** 63 - 1), "sys.maxsize": const(2 ** 63 - 1),
    "logging.DEBUG": const(10), "logging.INFO": const(20), "logging.WARNING": const(30),
    "logging.WARN": const(30), "logging.ERROR": const(40), "logging.CRITICAL": const(50),
    "math.pi": const(math.pi), "math.e": const(math.e),
    "twisted.web.http.INTERNAL_SERVER_ERROR": const(500), "twisted.web.http.OK": const(200),
    "twisted.web.http.NOT_FOUND": const(404), "twisted.web.http.FOUND": const(302),
    "os.sep": const("/"), "os.linesep": const("\n"),
    "re.I": const(2), "re.IGNORECASE": const(2), "re.M": const(8), "re.MULTILINE": const(8),
    "re.S": const(16), "re.DOTALL": const(16), "re.U": const(32), "re.UNICODE": const(32),
    "re.X": const(64), "re.VERBOSE": const(64), "re.L": const(4), "re.LOCALE": const(4),
    "string.ascii_letters": const("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
    "string.letters": const("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"),
    "string.digits": const("0123456789"), "string.whitespace": const(" \t\n\r\x0b\x0c"),
    "string.ascii_lowercase": const("abcdefghijklmnopqrstuvwxyz"),
    "string.ascii_uppercase": const("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
}
ALIASES = {"io.open": "builtin.open", "collections.namedtuple": "collections.namedtuple",
           "bisect.bisect": "bisect.bisect_right", "bisect.insort_right": "bisect.insort",
           "itertools.izip": "builtin.zip", "itertools.imap": "builtin.map",
           "itertools.ifilter": "builtin.filter",
           "twisted.application.internet.service": "twisted.application.service",
           "types.NoneType": "types.NoneType"}
BUILTINS = set("""abs all any bool basestring bytes bytearray callable chr classmethod cmp dict dir divmod
enumerate eval filter float frozenset getattr globals hasattr hash hex id input int isinstance issubclass
iter len list locals long map max min next object oct open ord pow print property range raw_input reduce
repr reversed round set setattr delattr slice sorted staticmethod str sum super tuple type unichr unicode
vars xrange zip file coerce intern execfile compile __import__ NotImplemented Ellipsis""".split())


class Models(object):
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTINS or name in EXC_PARENT or name == "BaseException":
            return ("x", "builtin." + name)
        if name == "__debug__":
            return TRUE
        return None

    def external(self, full):
        full = ALIASES.get(full, full)
        if full in self.I.cfg.stubs:
            r = self.I.lookup_global("stubs.twisted_model", self.I.cfg.stubs[full])
            if r is not None:
                return r
        if full in self.I.cfg.consts:
            return self.I.cfg.consts[full]
        if full in CONSTS:
            return CONSTS[full]
        if full == "sys.version_info":
            return ("tuple", const(2), const(7), const(3), const("final"), const(0))
        return ("x", full)

    def known_attrs(self, name):
        return ("maxint", "maxsize", "version_info", "argv", "stdout", "stderr") if name == "sys" else ()

    def ext_hasattr(self, o, name):
        n = o[1] + "." + name
        if n in CONSTS or n in self.I.st.xattrs:
            return True
        if n in self.I.cfg.absent_attrs:
            return False
        return None

    def inherited_attr(self, o, ob, ext, name, node):
        h = self.I.cfg.inherited.get(name)
        if h is not None:
            return h(self.I, o, ob, name, node) if callable(h) else h
        if name == "running" and any(b[1].startswith("twisted.application") for b in ext):
            return ("sym", "running#%s" % o[1], "bool")
        return ("attr", o, name)

    def opaque_attr(self, o, name):
        h = self.I.cfg.opaque_attrs.get(name)
        if h is not None:
            return h(self.I, o, name)
        return None

    def opaque_item(self, c, i):
        return ("item", c, const(i))

    def opaque_getitem(self, o, i, node):
        return ("item", o, i)

    def _items(self, ob, create=True):
        if "#items" not in ob.attrs:
            d = self.I.new_dict()
            x = self.I.obj(d)
            x.open = True
            x.label = "options"
            ob.attrs["#items"] = d
        return ob.attrs["#items"]

    def ext_getitem(self, o, ob, i, node):
        return self.I.dict_get(self._items(ob), i, node)

    def ext_setitem(self, o, ob, i, v, node):
        return self.I.dict_set(self._items(ob), i, v, node)

    def ext_init(self, t, o, args, kw, node):
        base = self.I.external_bases(o.cls)[0][1]
        self.call_external(base + ".__init__", [t] + args, kw, node, None)

    # ------------------------------------------------------------ arithmetic
    def bad(self, op, a, b, n):
        self.I.raise_("TypeError", n, "%s of %s and %s" % (op, show(a)[:60], show(b)[:60]))

    def binop(self, op, a, b, n):
        I = self.I
        if op == "Mod" and (ty(a) == "str"):
            return self.percent(a, b, n)
        if is_const(a) and is_const(b):
            r = self.fold(op, a, b, n)
            if r is not None:
                return r
        if op == "Add":
            r = self.add(a, b, n)
            if r is not None:
                return r
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x[0] == "obj" and I.isobj(x, "list"):
                    return self.lrep(I.obj(x).content, y)
                if x[0] == "tuple":
                    if is_const(y):
                        return ("tuple",) + x[1:] * max(0, y[1])
                    raise Undecided("tuple repetition")
                if ty(x) == "list":
                    return self.lrep(x, y)
                if ty(x) == "str":
                    if is_const(x) and is_const(y):
                        return const(x[1] * y[1])
                    return ("srep", x, y)
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and (I.isobj(a, "set") or I.isobj(b, "set")):
            return self.set_op(op, a, b, n)
        for x in (a, b):
            if x == NONE or ty(x) == "str" or x[0] == "tuple" or I.isobj(x, "dict", "list", "set"):
                self.bad(op, a, b, n)
        for x in (a, b):
            if I.isobj(x, "inst"):
                m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__div__",
                     "Mod": "__mod__"}.get(op)
                if m and x is a and I.class_lookup(I.obj(x).cls, m):
                    return I.call(I.getattr(x, m, n), [b], {}, n)
                raise Undecided("operator on an instance")
        for x in (a, b):
            if nullable(x) and x[0] in ("sym", "dget", "phi") and x[-1] != "unk" and "none" in I.cfg.hazards:
                if I.split(("isnone", x)):
                    self.bad(op, a, b, n)
        if op in ("Add", "Sub", "Mult"):
            t = ({"Add": "add", "Sub": "sub", "Mult": "mul"}[op], a, b)
            return self.simplify(t)
        if op in ("Div", "FloorDiv", "Mod"):
            self.zero_check(b, n, op)
            if op == "FloorDiv":
                return ("fdiv", a, b)
            if op == "Mod":
                return ("mod", a, b)
            ta, tb = ty(a), ty(b)
            future = I.stack and I.modules.get(I.stack[-1][3], {}).get("division") == ("x", "__future__.division")
            if ta in ("int", "bool") and tb in ("int", "bool") and not future:
                return ("fdiv", a, b)
            return ("div", a, b)
        if op == "Pow":
            return ("pow", a, b)
        k = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "RShift": "rshift", "LShift": "lshift"}.get(op)
        if k:
            return (k, a, b)
        raise Undecided("operator %s" % op)

    def simplify(self, t):
        """Keep sums of a single closed form small: constants folded only."""
        _, a, b = t
        if t[0] in ("add", "sub") and is_const(b) and b[1] == 0 and b[2] == "int" and ty(a) in NUM:
            return a
        if t[0] == "add" and is_const(a) and a[1] == 0 and a[2] == "int" and ty(b) in NUM:
            return b
        return t

    def zero_check(self, b, n, op):
        I = self.I
        at = I.eq0(b)
        if is_const(at):
            z = bool(at[1])
        else:
            z = I.decide(at)
        if z is None and "zerodiv" in I.cfg.hazards and not I.loading:
            z = I.split(at)
        if z:
            I.raise_("ZeroDivisionError", n, "division by %s" % show(b))

    def fold(self, op, a, b, n):
        x, y = a[1], b[1]
        num = (int, float)
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if op == "Add" and isinstance(x, str) and isinstance(y, str):
                return const(x + y)
            return None
        try:
            if op == "Add":
                return const(x + y)
            if op == "Sub":
                return const(x - y)
            if op == "Mult":
                return const(x * y)
            if op == "Div":
                if y == 0:
                    self.I.raise_("ZeroDivisionError", n, "division by zero")
                if isinstance(x, int) and isinstance(y, int):
                    return const(x // y)
                return const(x / y)
            if op == "FloorDiv":
                return const(x // y)
            if op == "Mod":
                return const(x % y)
            if op == "Pow":
                return const(x ** y)
            if op == "BitAnd":
                return const(x & y)
            if op == "BitOr":
                return const(x | y)
            if op == "BitXor":
                return const(x ^ y)
            if op == "RShift":
                return const(x >> y)
            if op == "LShift":
                return const(x << y)
        except ZeroDivisionError:
            self.I.raise_("ZeroDivisionError", n, "division by zero")
        except (OverflowError, TypeError, ValueError):
            return None
        return None

    def add(self, a, b, n):
        I = self.I
        ta, tb = ty(a), ty(b)
        if ta == "str" or tb == "str":
            for x in (a, b):
                if nullable(x) and ty(x) == "str":
                    r = I.decide(("isnone", x))
                    if r is None and "none" in I.cfg.hazards and x[0] in ("sym", "dget"):
                        r = I.split(("isnone", x))
                    if r:
                        self.bad("+", a, b, n)
            for x in (a, b):
                if x == NONE or ty(x) in NUM or x[0] in ("tuple", "obj", "fn"):
                    self.bad("+", a, b, n)
            return cat([a, b])
        if a[0] == "tuple" and b[0] == "tuple":
            return a + b[1:]
        la = I.content_of(a) if I.isobj(a, "list", "deque") else (a if ta == "list" else None)
        lb = I.content_of(b) if I.isobj(b, "list", "deque") else (b if tb == "list" else None)
        if la is not None and lb is not None:
            return I.new_list(content=lcat(la, lb))
        if la is not None or lb is not None:
            if (a[0] == "tuple" or b[0] == "tuple" or ta in NUM or tb in NUM or NONE in (a, b)):
                self.bad("+", a, b, n)
            if la is not None and b[0] != "obj":
                return I.new_list(content=lcat(la, b))
            if lb is not None and a[0] != "obj":
                return I.new_list(content=lcat(a, lb))
        if a[0] == "tuple" or b[0] == "tuple":
            if ta in NUM or tb in NUM or NONE in (a, b):
                self.bad("+", a, b, n)
            return ("tadd", a, b)
        return None

    def lrep(self, c, y):
        I = self.I
        if is_const(y):
            if c[0] == "list" and (len(c) - 1) * y[1] <= 64:
                return I.new_list(content=("list",) + c[1:] * max(0, y[1]))
        if c[0] == "list" and len(c) == 2:
            return I.new_list(content=("lrep", c[1], y))
        raise Undecided("repetition")

    # ------------------------------------------------------------ strings
    def str_of(self, v):
        I = self.I
        if v[0] == "obj":
            o = I.obj(v)
            if o.kind == "inst":
                m = I.class_lookup(o.cls, "__str__") or I.class_lookup(o.cls, "__repr__")
                if m is not None and m[0] == "fn":
                    return I.call(("bm", v, m), [], {}, None)
                return ("str", v)
            return ("str", I.snap(v))
        if v[0] == "exc":
            return ("str", v)
        if v[0] == "c" and isinstance(v[1], float):
            return ("str", v)
        if nullable(v) and ty(v) == "str":
            return ("str", v) if I.decide(("isnone", v)) is not False else v
        return to_str(v)

    def percent(self, a, b, n):
        I = self.I
        if not is_const(a):
            return ("fmt", a, I.snap(b))
        f = a[1]
        parts = []
        pos = 0
        args = list(b[1:]) if b[0] == "tuple" else [b]
        ai = 0
        mapping = None
        for m in SPEC.finditer(f):
            if m.start() > pos:
                parts.append(const(f[pos:m.start()]))
            pos = m.end()
            key, flags, width, prec, conv = m.groups()
            if conv == "%":
                parts.append(const("%"))
                continue
            if width == "*" or prec == "*":
                raise Undecided("star in a format")
            if key is not None:
                v = I.getitem(b, const(key), n)
                mapping = True
            else:
                if ai >= len(args):
                    if b[0] != "tuple" and ty(b) not in ("str",) + NUM and not is_const(b) and b[0] not in ("obj",):
                        # one opaque value may be a tuple
                        return ("fmt", a, b)
                    I.raise_("TypeError", n, "not enough arguments for format %r" % f)
                v = args[ai]
                ai += 1
            spec = "%" + flags + (width or "") + ("." + prec if prec else "") + conv
            parts.append(self.fmt1(spec, conv, v, n))
        if pos < len(f):
            parts.append(const(f[pos:]))
        if mapping is None and ai < len(args):
            if b[0] != "tuple" and (b[0] == "obj" or ty(b) == "unk"):
                return cat(parts)
            I.raise_("TypeError", n, "not all arguments converted by format %r" % f)
        return cat(parts)

    def fmt1(self, spec, conv, v, n):
        I = self.I
        if conv in "diouxXeEfFgGc":
            if v == NONE or (ty(v) == "str" and conv != "c") or v[0] == "tuple":
                I.raise_("TypeError", n, "format %s of %s" % (spec, show(v)[:60]))
            if nullable(v) and v[0] == "sym" and v[2] != "unk" and "none" in I.cfg.hazards:
                if I.split(("isnone", v)):
                    I.raise_("TypeError", n, "format %s of None" % spec)
        if conv == "s":
            s = self.str_of(v)
        elif conv == "r":
            s = const(repr(v[1])) if is_const(v) and isinstance(v[1], (int, type(None))) else ("repr", v)
            if spec == "%r":
                return s
        elif conv in "diu" and spec in ("%d", "%i", "%u"):
            if is_const(v) and isinstance(v[1], (int, float)):
                return const(str(int(v[1])))
            if ty(v) in ("int", "bool"):
                return ("str", v)
            return ("fmt", "%d", v)
        else:
            if is_const(v) and isinstance(v[1], (int, float)):
                try:
                    return const(spec % v[1])
                except (TypeError, ValueError):
                    pass
            return ("fmt", spec, v)
        if spec in ("%s", "%r"):
            return s
        if is_const(s):
            return const(spec.replace("r", "s") % s[1])
        return ("fmt", spec, s)

    def str_slice(self, c, lo, hi, step):
        if step == NONE and c[0] == "cat":
            if lo == NONE and is_const(hi) and isinstance(hi[1], int) and hi[1] < 0 and c[-1][0] == "c" \
                    and len(c[-1][1]) >= -hi[1]:
                return cat(c[1:-1] + (const(c[-1][1][:hi[1]]),))
            if hi == NONE and is_const(lo) and isinstance(lo[1], int):
                if lo[1] < 0 and c[-1][0] == "c" and len(c[-1][1]) >= -lo[1]:
                    return const(c[-1][1][lo[1]:])
                if lo[1] >= 0 and c[1][0] == "c" and len(c[1][1]) >= lo[1]:
                    return cat((const(c[1][1][lo[1]:]),) + c[2:])
            if lo == NONE and is_const(hi) and isinstance(hi[1], int) and hi[1] >= 0 and c[1][0] == "c" \
                    and len(c[1][1]) >= hi[1]:
                return const(c[1][1][:hi[1]])
        if lo == NONE and hi == NONE and step == NONE:
            return c
        if lo == const(0):
            lo = NONE
        return ("sslice", c, lo, hi, step)

    def exact_len(self, c):
        """The length of a content when the facts fix it."""
        I = self.I
        n = I.clen(c)
        if is_const(n):
            return n[1]
        from facts import norm_lin
        try:
            r = norm_lin(n)
        except NotNumeric:
            return None
        if r is None:
            return None
        key, lead, k = r
        lo, ls, hi, hs = I.st.facts.get_bounds(key)
        if lo is not None and lo == hi:
            return int(lead * lo + k)
        return None

    def slice_known(self, I, c, lo, hi):
        n = self.exact_len(c)
        if n is None or n > 16:
            if lo == NONE and is_const(hi) and 0 <= hi[1] <= 4:
                at = I.lt0(("sub", I.clen(c), hi))
                if (is_const(at) and not at[1]) or (not is_const(at) and I.decide(at) is False):
                    return ("list",) + tuple(I.item(c, const(i), None, hazard=False) for i in range(hi[1]))
            return None
        el = [I.item(c, const(i), None, hazard=False) for i in range(n)]
        return ("list",) + tuple(el[slice(lo[1], hi[1])])

    def split_list(self, s, sep, mx, n, right=False):
        I = self.I
        if is_const(s) and (sep == NONE or is_const(sep)) and is_const(mx):
            f = s[1].rsplit if right else s[1].split
            r = f(sep[1], mx[1] if mx[1] is not None else -1)
            return ("list",) + tuple(const(x) for x in r)
        if is_const(mx) and isinstance(mx[1], int) and mx[1] < 0:
            mx = NONE
        if I.cfg.alphabet and is_const(mx) and is_const(sep) and sep != const(""):
            m = I.marked(s)
            if m is not None and (sep == NONE and I.foreign(" \t\n\r\v\f") or sep != NONE and I.foreign(sep[1])):
                r = (m.rsplit if right else m.split)(sep[1], -1 if mx == NONE else mx[1])
                return ("list",) + tuple(I.unmarked(x) for x in r)
        if sep == const(""):
            I.raise_("ValueError", n, "empty separator")
        k = "rsplit" if right else "split"
        if sep == NONE:
            if mx == NONE and s[0] == "strip" and len(s) == 2:
                s = s[1]
            return (k, s, sep, mx)
        if s[0] == "cat" and is_const(sep) and len(sep[1]) == 1 and is_const(mx) and mx[1] is not None and mx[1] > 0:
            # separators in the constant part at the end the search begins with
            parts, got = list(s[1:]), []
            at = -1 if right else 0
            while len(got) < mx[1] and parts and is_const(parts[at]) and sep[1] in parts[at][1]:
                x, _, y = parts[at][1].rpartition(sep[1]) if right else parts[at][1].partition(sep[1])
                got.append(const(y if right else x))
                parts[at] = const(x if right else y)
            if len(got) == mx[1]:
                rest = cat(parts)
                return ("list",) + ((rest,) + tuple(got[::-1]) if right else tuple(got) + (rest,))
        r = I.decide(("in", sep, s))
        if r is False:
            return ("list", s)
        if mx == const(0):
            return ("list", s)
        c = (k, s, sep, mx)
        ln = ("len", c)
        try:
            I.assume(I.lt0(("sub", ln, const(2 if r else 1))), False)
            if is_const(mx) and isinstance(mx[1], int):
                I.assume(I.lt0(("sub", const(mx[1] + 1), ln)), False)
        except Infeasible:
            pass
        return c

    def sub_join(self, sep, lst, n):
        I = self.I
        if lst[0] == "gen" or lst[0] in ("enum", "zipit", "revit", "mapit", "dlive"):
            lst = self.to_list(lst, n)
        if lst[0] == "tuple":
            c = ("list",) + lst[1:]
        elif I.isobj(lst, "dict"):
            c = I.obj(self.dict_view(lst, "keys")).content
        else:
            c = I.content_of(lst)
        if c is None:
            raise Undecided("join")
        if c == NONE:
            I.raise_("TypeError", n, "join of None")
        if c[0] in ("list",):
            parts = []
            for i, e in enumerate(c[1:]):
                if e == NONE or ty(e) in NUM or e[0] in ("tuple",):
                    I.raise_("TypeError", n, "join of %s" % show(e)[:60])
                if i:
                    parts.append(sep)
                parts.append(e)
            return cat(parts)
        if c[0] in ("split",) and c[2] == sep and c[3] == NONE and sep != NONE:
            return c[1]
        if ty(c) == "str":
            return ("join", sep, c)
        return ("join", sep, I.snap(c))

    def method(self, o, name, args, kw, node, star=None):
        I = self.I
        if star is not None:
            raise Undecided("star arguments of a method")
        k = o[0]
        if k == "obj":
            kind = I.obj(o).kind
            f = getattr(self, "m_%s_%s" % (kind, name), None)
            if f is None and kind in ("deque",):
                f = getattr(self, "m_list_" + name, None)
            if f is None:
                known = {"dict": dict, "list": list, "set": set, "deque": list}.get(kind)
                if known is not None and not hasattr(known, name):
                    I.raise_("AttributeError", node, "%s has no attribute %s" % (kind, name))
                raise Undecided("%s.%s" % (kind, name))
            return f(o, args, kw, node)
        if k == "tuple":
            if name == "index" or name == "count":
                return (name, o, args[0])
            if name == "_asdict" and o in I.cfg.fields:
                return I.new_dict([(const(f), x) for f, x in zip(I.cfg.fields[o], o[1:])])
            if name == "_replace":
                raise Undecided("_replace")
            I.raise_("AttributeError", node, "tuple has no attribute %s" % name)
        if k == "regex":
            return self.regex_method(o, name, args, kw, node)
        if k == "rematch":
            return self.match_method(o, name, args, kw, node)
        if k in ("gen", "dlive", "iter"):
            return self.gen_method(o, name, args, kw, node)
        y = ty(o)
        if y == "str" or k == "group":
            if nullable(o) and I.decide(("isnone", o)) is True:
                I.raise_("AttributeError", node, "%s of None" % name)
            return self.str_method(o, name, args, kw, node)
        if y == "list":
            # an opaque list value: no identity, so mutation is not tracked
            t = I.new_list(content=o)
            f = getattr(self, "m_list_" + name, None)
            if f is None:
                raise Undecided("list.%s" % name)
            if name in ("append", "extend", "sort", "pop", "insert", "remove", "reverse"):
                I.event("write", "opaque", [o, const(name)] + args, node=node, extra={"label": show(o)[:80]})
                if name == "pop":
                    return I.item(o, args[0] if args else const(-1), node)
                return NONE
            return f(t, args, kw, node)
        if is_const(o):
            I.raise_("AttributeError", node, "%s has no attribute %s" % (show(o), name))
        return self.call_opaque(("attr", o, name), args, kw, node, star)

    def str_method(self, s, name, args, kw, node):
        I = self.I
        if s[0] == "str" and name not in ("join", "format") and nullable(s[1]):
            pass
        if is_const(s) and all(is_const(a) for a in args) and not kw and name not in ("split", "rsplit", "join"):
            f = getattr(s[1], name, None)
            if f is None:
                if name in ("decode",):
                    return s
                I.raise_("AttributeError", node, "str has no attribute %s" % name)
            if name == "encode":
                return s
            try:
                r = f(*[a[1] for a in args])
            except (ValueError, TypeError) as e:
                I.raise_(type(e).__name__, node, str(e))
            if isinstance(r, (str, int, bool)):
                return const(r)
            if isinstance(r, tuple):
                return ("tuple",) + tuple(const(x) for x in r)
            if isinstance(r, list):
                return I.new_list([const(x) for x in r])
        if I.cfg.alphabet and not kw:
            r = self.marked_method(s, name, args)
            if r is not None:
                return r
        if name in ("strip", "lstrip", "rstrip"):
            ch = args[0] if args and args[0] != NONE else None
            if s[0] == name and (len(s) == 2) == (ch is None) and (ch is None or s[2] == ch):
                return s
            return (name, s) if ch is None else (name, s, ch)
        if name in ("lower", "upper", "title", "capitalize", "swapcase"):
            if s[0] == name and name in ("lower", "upper"):
                return s
            return (name if name in ("lower", "upper", "title") else "fmt", s) if name in ("lower", "upper", "title") \
                else ("fmt", name, s)
        if name in ("split", "rsplit"):
            sep = args[0] if args else kw.get("sep", NONE)
            mx = args[1] if len(args) > 1 else kw.get("maxsplit", NONE)
            return I.new_list(content=self.split_list(s, sep, mx, node, name == "rsplit"))
        if name in ("partition", "rpartition"):
            sep = args[0]
            if I.test(I.contains(s, sep, node)):
                c = self.split_list(s, sep, const(1), node, name == "rpartition")
                return ("tuple", I.item(c, const(0), node, hazard=False), sep, I.item(c, const(1), node, hazard=False))
            return ("tuple", s, const(""), const("")) if name == "partition" else ("tuple", const(""), const(""), s)
        if name == "splitlines":
            return I.new_list(content=("splitlines", s))
        if name == "join":
            return self.sub_join(s, args[0], node)
        if name in ("startswith", "endswith"):
            a = args[0]
            if a[0] == "tuple":
                for x in a[1:]:
                    if I.test(self.str_method(s, name, [x], {}, node)):
                        return TRUE
                return FALSE
            if a == const(""):
                return TRUE
            if len(args) > 1:
                return ("truth", (name + "at", s) + tuple(args))
            return (name, s, a)
        if name == "replace":
            if args[0] == args[1]:
                return s
            return ("replace", s) + tuple(args)
        if name == "format":
            return self.format(s, args, kw, node)
        if name in ("encode", "decode"):
            enc = args[0] if args else const("ascii")
            return s
        if name in ("find", "rfind", "index", "rindex", "count"):
            if len(args) == 1 and is_const(args[0]) and len(args[0][1]) == 1 and s[0] == "cat" and name in ("find", "index") and is_const(s[1]) and args[0][1] in s[1][1]:
                return const(s[1][1].index(args[0][1]))
            if name in ("index", "rindex"):
                if not I.test(I.contains(s, args[0], node)):
                    I.raise_("ValueError", node, "substring not found")
                t = ("find" if name == "index" else "rfind", s) + tuple(args)
                I.assume(I.lt0(t), False)
                return t
            if name == "find" and len(args) == 1:
                if I.test(I.contains(s, args[0], node)):
                    t = ("find", s, args[0])
                    I.assume(I.lt0(t), False)
                    return t
                return const(-1)
            return (name, s) + tuple(args)
        if name in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower"):
            return ("truth", ("smeth", name, s))
        if name in ("zfill", "ljust", "rjust", "center", "expandtabs"):
            return ("fmt", name, s) + tuple(args)
        if name == "translate":
            return ("translate", s) + tuple(args)
        if name == "__len__":
            return I.len_of(s)
        I.raise_("AttributeError", node, "str has no attribute %s" % name)

    def marked_method(self, s, name, args):
        """A method of a text whose symbols have known alphabets, where its result does not depend on them."""
        I = self.I
        m = I.marked(s)
        if m is None or not all(is_const(a) for a in args):
            return None
        text = [a[1] for a in args if isinstance(a[1], str)]
        if name in ("strip", "lstrip", "rstrip"):
            if I.foreign(text[0] if text else " \t\n\r\v\f"):
                return I.unmarked(getattr(m, name)(*text))
        elif name == "splitlines":
            if I.foreign("\n\r"):
                return I.new_list([I.unmarked(x) for x in m.splitlines(*[a[1] for a in args])])
        elif name in ("partition", "rpartition") and text and text[0]:
            if I.foreign(text[0]):
                return ("tuple",) + tuple(I.unmarked(x) for x in getattr(m, name)(text[0]))
        elif name in ("startswith", "endswith") and len(args) == 1 and text and text[0]:
            if getattr(m, name)(text[0]):
                return TRUE
            if I.foreign(text[0]) or ord((m[:1] if name == "startswith" else m[-1:]) or "a") < 0xe000 and self.own_edge(m, text[0], name):
                return FALSE
        elif name == "replace" and len(args) == 2 and len(text) == 2 and text[0]:
            if I.foreign(text[0]):
                return I.unmarked(m.replace(*text))
        elif name == "count" and len(args) == 1 and text and text[0] and I.foreign(text[0]):
            return const(m.count(text[0]))
        elif name in ("isdigit", "isspace", "isalpha", "isalnum") and m and len(m) == 1:
            al = list(I.cfg.alphabet.values())[ord(m) - 0xe000] if ord(m) >= 0xe000 else set(m)
            t = {getattr(c, name)() for c in al}
            if len(t) == 1:
                return TRUE if t.pop() else FALSE
        elif name in ("lower", "upper") and all(c == getattr(c, name)() for ch in m if ord(ch) >= 0xe000 for c in list(I.cfg.alphabet.values())[ord(ch) - 0xe000]):
            return I.unmarked(getattr(m, name)())
        return None

    def own_edge(self, m, text, name):
        """The constant part at the edge already tells the two apart."""
        e = ""
        for ch in (m if name == "startswith" else m[::-1]):
            if ord(ch) >= 0xe000:
                break
            e += ch
        t = text if name == "startswith" else text[::-1]
        k = min(len(e), len(t))
        return e[:k] != t[:k] or len(m) < len(t)  and all(ord(ch) < 0xe000 for ch in m)

    FIELD = _re.compile(r"\{\{|\}\}|\{(\w*)(?:!([rs]))?(?::([^}]*))?\}")

    def format(self, s, args, kw, node):
        I = self.I
        if not is_const(s):
            return ("fmt", s) + tuple(I.snap(a) for a in args)
        parts, pos, auto = [], 0, 0
        for m in self.FIELD.finditer(s[1]):
            parts.append(const(s[1][pos:m.start()]))
            pos = m.end()
            if m.group(0) in ("{{", "}}"):
                parts.append(const(m.group(0)[0]))
                continue
            nm, conv, spec = m.groups()
            if nm == "":
                i, auto = auto, auto + 1
            elif nm.isdigit():
                i = int(nm)
            else:
                i = nm
            if isinstance(i, int):
                if i >= len(args):
                    I.raise_("IndexError", node, "format argument %d" % i)
                v = args[i]
            else:
                if i not in kw:
                    I.raise_("KeyError", node, "format argument %s" % i)
                v = kw[i]
            if spec:
                parts.append(self.fmt1("%" + spec if spec[-1].isalpha() else "%" + spec + "s",
                                       spec[-1] if spec[-1].isalpha() else "s", v, node))
            elif conv == "r":
                parts.append(("repr", v))
            else:
                parts.append(self.str_of(v))
        parts.append(const(s[1][pos:]))
        if "{" in _re.sub(self.FIELD, "", s[1]):
            raise Undecided("format string")
        return cat(parts)

    # ------------------------------------------------------------ regular expressions
    def regex_method(self, r, name, args, kw, node):
        I = self.I
        p, flags = r[1], r[2]
        if name in ("match", "search"):
            if not args:
                I.raise_("TypeError", node, "match without argument")
            if is_const(p) and is_const(args[0]) and is_const(flags):
                m = self.pyre(p, flags)
                if m is not None:
                    mo = getattr(m, name)(args[0][1])
                    if mo is None:
                        return NONE
            return ("rematch", name, r, args[0])
        if name in ("sub", "subn"):
            args = list(args)
            if "repl" in kw:
                args.insert(0, kw["repl"])
            if "string" in kw:
                args.insert(1, kw["string"])
            if "count" in kw:
                args.append(kw["count"])
            if len(args) < 2:
                I.raise_("TypeError", node, "sub without arguments")
            repl, s = args[0], args[1]
            if name == "subn":
                raise Undecided("subn")
            if is_const(p) and is_const(s) and is_const(repl) and is_const(flags) and len(args) == 2:
                m = self.pyre(p, flags)
                if m is not None:
                    return const(m.sub(repl[1], s[1]))
            return ("resub", r, repl, s) + tuple(args[2:])
        if name in ("findall", "finditer"):
            c = ("listof", "findall", r, args[0])
            g = self.pyre(p, flags)
            if g is not None and g.groups <= 1 and name == "findall":
                I.protos()[c] = "str"
            return I.new_list(content=c)
        if name == "split":
            c = ("listof", "resplit", r, args[0]) + tuple(args[1:])
            I.protos()[c] = "str"
            return I.new_list(content=c)
        if name == "pattern":
            return p
        raise Undecided("regex.%s" % name)

    def pyre(self, p, flags):
        if not (is_const(p) and is_const(flags)):
            return None
        try:
            return _re.compile(p[1], (flags[1] or 0) | _re.ASCII)
        except _re.error:
            return None

    def match_method(self, m, name, args, kw, node):
        I = self.I
        if I.decide(("isnone", m)) is True:
            I.raise_("AttributeError", node, "%s of None" % name)
        if name == "group":
            if not args:
                args = [const(0)]
            if len(args) == 1:
                return self.mgroup(m, args[0])
            return ("tuple",) + tuple(self.mgroup(m, a) for a in args)
        if name == "groups":
            g = self.pyre(m[2][1], m[2][2])
            if g is None:
                raise Undecided("groups of an unknown pattern")
            return ("tuple",) + tuple(self.mgroup(m, const(i + 1)) for i in range(g.groups))
        if name == "groupdict":
            g = self.pyre(m[2][1], m[2][2])
            if g is None:
                raise Undecided("groups of an unknown pattern")
            return I.new_dict([(const(k), self.mgroup(m, const(i))) for k, i in g.groupindex.items()])
        if name in ("start", "end"):
            return ("find", m, const(name)) + tuple(args)
        raise Undecided("match.%s" % name)

    def mgroup(self, m, i):
        """A group of a match; of a match of constants, a constant."""
        if is_const(i) and is_const(m[3]):
            g = self.pyre(m[2][1], m[2][2])
            mo = getattr(g, m[1])(m[3][1]) if g is not None else None
            if mo is not None:
                try:
                    return const(mo.group(i[1]))
                except (IndexError, KeyError):
                    pass
        return ("group", m, i)

    def gen_method(self, g, name, args, kw, node):
        if name == "close":
            return NONE
        raise Undecided("generator.%s" % name)

    # ------------------------------------------------------------ lists
    def list_append(self, l, v, n, quiet=False):
        I = self.I
        o = I.obj(l)
        o.content = lcat(o.content, ("list", v))
        if o.label:
            I.label_value(v, o.label + "[]")
        if not quiet:
            I.event("write", "append", [l, v], node=n, extra={"label": o.label})
        return NONE

    def list_extend(self, l, v, n, quiet=False):
        I = self.I
        if v[0] in ("gen", "enum", "zipit", "revit", "mapit", "dlive"):
            I.iterate(v, lambda e: self.list_append(l, e, n), n)
            return NONE
        if v[0] == "tuple":
            c = ("list",) + v[1:]
        elif I.isobj(v, "dict"):
            c = I.obj(self.dict_view(v, "keys")).content
        else:
            c = I.content_of(v)
            if c is None:
                v = self.to_list(v, n)
                c = I.obj(v).content
            elif c == NONE or ty(c) in NUM:
                I.raise_("TypeError", n, "extend with %s" % show(c))
            elif is_const(c) and isinstance(c[1], str):
                c = ("list",) + tuple(const(x) for x in c[1])
        o = I.obj(l)
        o.content = lcat(o.content, c)
        if not quiet:
            I.event("write", "extend", [l, c], node=n, extra={"label": o.label})
        return NONE

    def m_list_append(self, o, args, kw, n):
        return self.list_append(o, args[0], n)

    def m_list_extend(self, o, args, kw, n):
        return self.list_extend(o, args[0], n)

    def m_list_sort(self, o, args, kw, n):
        ob = self.I.obj(o)
        ob.content = self.sorted_content(ob.content, args, kw, n)
        self.I.event("write", "sort", [o], node=n, extra={"label": ob.label})
        return NONE

    def sorted_content(self, c, args, kw, n):
        I = self.I
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        cmpf = kw.get("cmp", args[0] if args else NONE)
        if I.cfg.exact_order and c[0] in ("list", "setc") and is_const(rev):
            import order
            return ("list",) + tuple(order.sort(I, list(c[1:]), None if cmpf == NONE else cmpf, key, bool(rev[1]), n))
        if cmpf != NONE:
            return ("sortedk", c, cmpf, key, rev)
        if key != NONE:
            return ("sortedk", c, NONE, key, rev)
        if c[0] == "list":
            r = ("list",) + tuple(I.sort_closed(list(c[1:])))
            if all(is_const(x) or (x[0] == "tuple" and is_const(x[1])) for x in c[1:]) or len(c) <= 2:
                out = r
            else:
                out = ("sorted", c) if not any(x[0] in ("tuple",) for x in c[1:]) else r
        elif c[0] in ("sorted",):
            out = c
        else:
            out = ("sorted", c)
        if rev in (FALSE, const(0)):
            return out
        if is_const(rev):
            return ("rev", out) if out[0] != "list" else ("list",) + tuple(reversed(out[1:]))
        return ("sortedk", c, NONE, NONE, rev)

    def m_list_pop(self, o, args, kw, n):
        I = self.I
        ob = I.obj(o)
        i = args[0] if args else const(-1)
        c = ob.content
        v = I.item(c, i, n)
        if c[0] == "list" and is_const(i):
            el = list(c[1:])
            del el[i[1]]
            ob.content = ("list",) + tuple(el)
        else:
            ob.content = ("lpop", c, i)
        I.event("write", "pop", [o, i, v], node=n, extra={"label": ob.label})
        return v

    def m_deque_popleft(self, o, args, kw, n):
        return self.m_list_pop(o, [const(0)], kw, n)

    def m_deque_appendleft(self, o, args, kw, n):
        return self.m_list_insert(o, [const(0), args[0]], kw, n)

    def m_deque_clear(self, o, args, kw, n):
        ob = self.I.obj(o)
        ob.content = ("list",)
        self.I.event("write", "clear", [o], node=n, extra={"label": ob.label})
        return NONE

    def m_list_insert(self, o, args, kw, n):
        I = self.I
        ob = I.obj(o)
        i, v = args
        if i == const(0):
            ob.content = lcat(("list", v), ob.content)
        elif ob.content[0] == "list" and is_const(i):
            el = list(ob.content[1:])
            el.insert(i[1], v)
            ob.content = ("list",) + tuple(el)
        else:
            ob.content = ("linsert", ob.content, i, v)
        I.event("write", "insert", [o, i, v], node=n, extra={"label": ob.label})
        return NONE

    def m_list_remove(self, o, args, kw, n):
        I = self.I
        ob = I.obj(o)
        if ob.content[0] == "list":
            for j, e in enumerate(ob.content[1:]):
                at = I.eq_atom(e, args[0])
                if (is_const(at) and at[1]) or (not is_const(at) and I.split(at)):
                    ob.content = ob.content[:1 + j] + ob.content[2 + j:]
                    I.event("write", "pop", [o, const(j), e], node=n, extra={"label": ob.label})
                    return NONE
            I.raise_("ValueError", n, "remove of a missing element")
        ob.content = ("lpop", ob.content, ("posof", args[0]))
        I.event("write", "pop", [o, ("posof", args[0]), args[0]], node=n, extra={"label": ob.label})
        return NONE

    def m_list_reverse(self, o, args, kw, n):
        ob = self.I.obj(o)
        c = ob.content
        ob.content = ("list",) + tuple(reversed(c[1:])) if c[0] == "list" else ("rev", c)
        self.I.event("write", "sort", [o], node=n, extra={"label": ob.label})
        return NONE

    def m_list_index(self, o, args, kw, n):
        return ("index", self.I.snap(o), args[0])

    def m_list_count(self, o, args, kw, n):
        return ("count", self.I.snap(o), args[0])

    def m_list___len__(self, o, args, kw, n):
        return self.I.len_of(o)

    def m_dict___len__(self, o, args, kw, n):
        return self.I.len_of(o)

    def m_list___iter__(self, o, args, kw, n):
        return ("iter", o)

    def list_delslice(self, o, lo, hi, n):
        I = self.I
        if not I.isobj(o, "list"):
            raise Undecided("del slice")
        ob = I.obj(o)
        if lo in (NONE, const(0)) and hi == NONE:
            ob.content = ("list",)
        elif ob.content[0] == "list" and all(is_const(x) for x in (lo, hi)):
            el = list(ob.content[1:])
            del el[lo[1]:hi[1]]
            ob.content = ("list",) + tuple(el)
        elif lo == NONE or lo == const(0):
            ob.content = ("slice", ob.content, hi, NONE, NONE)
        elif hi == NONE:
            ob.content = ("slice", ob.content, NONE, lo, NONE)
        else:
            raise Undecided("del slice")
        I.event("write", "clear", [o], node=n, extra={"label": ob.label})

    def list_setslice(self, o, lo, hi, v, n):
        I = self.I
        if not I.isobj(o, "list"):
            raise Undecided("slice assignment")
        l = self.to_list(v, n)
        c = I.obj(l).content
        ob = I.obj(o)
        if lo in (NONE, const(0)) and hi == NONE:
            ob.content = c
        elif ob.content[0] == "list" and c[0] == "list" and all(is_const(x) for x in (lo, hi)):
            el = list(ob.content[1:])
            el[lo[1]:hi[1]] = list(c[1:])
            ob.content = ("list",) + tuple(el)
        else:
            raise Undecided("slice assignment")
        I.event("write", "setslice", [o, c], node=n, extra={"label": ob.label})

    def to_list(self, v, node):
        """list(v)"""
        I = self.I
        if v[0] == "tuple":
            return I.new_list(v[1:])
        if v[0] == "iter":
            return self.to_list(v[1], node)
        if v[0] == "obj":
            o = I.obj(v)
            if o.kind in ("list", "deque", "set"):
                return I.new_list(content=o.content)
            if o.kind == "dict":
                return self.dict_view(v, "keys")
        if v[0] == "dlive":
            return self.dict_view(v[1], v[2])
        if v[0] in ("gen", "enum", "zipit", "revit", "mapit") or v[0] == "obj":
            out = I.new_list()
            I.iterate(v, lambda e: self.list_append(out, e, node, quiet=True), node)
            return out
        if v == NONE:
            I.raise_("TypeError", node, "list of None")
        if is_const(v) and isinstance(v[1], str):
            return I.new_list([const(x) for x in v[1]])
        if ty(v) in NUM:
            I.raise_("TypeError", node, "list of a number")
        return I.new_list(content=v)

    def adapter_segments(self, it, node):
        I = self.I
        k = it[0]
        if k == "enum":
            segs = I.segments(it[1], node)
            out = []
            off = it[2]
            for s in segs:
                if s[0] == "closed":
                    el = []
                    for i, e in enumerate(s[1]):
                        idx = self.binop("Add", off, const(i), node)
                        el.append((lambda e=e, idx=idx: ("tuple", idx, e() if callable(e) else e)))
                    out.append(("closed", el))
                    off = self.binop("Add", off, const(len(s[1])), node)
                else:
                    _, over, factory, live = s

                    def fac(loop, factory=factory, off=off):
                        e = factory(loop)
                        li = ("lidx", loop.id, "int")
                        idx = li if off == const(0) else ("add", off, li)
                        if over[0] in ("keys",):
                            pass
                        try:
                            n = I.clen(over)
                            I.assume(I.lt0(("sub", li, n)), True)
                        except Infeasible:
                            pass
                        return ("tuple", idx, e)
                    out.append(("open", over, fac, live))
                    off = ("add", off, ("len", over))
            return out
        if k == "revit":
            segs = I.segments(it[1], node)
            out = []
            for s in reversed(segs):
                out.append(("closed", list(reversed(s[1]))) if s[0] == "closed" else s)
            return out
        raise Undecided("iteration over %s" % k)

    # ------------------------------------------------------------ sets
    def set_update(self, s, v, n):
        return self.list_extend(s, v, n)

    def m_set_update(self, o, args, kw, n):
        for a in args:
            self.list_extend(o, a, n)
        return NONE

    def position(self, c, v):
        """Where v is among the elements: a position, -1 when it is none of them, None when that is open."""
        if c is None or c[0] not in ("list", "setc"):
            return None
        for j, e in enumerate(c[1:]):
            at = self.I.eq_atom(e, v)
            if not is_const(at):
                return None
            if at[1]:
                return j
        return -1

    def m_set_add(self, o, args, kw, n):
        at = self.position(self.I.obj(o).content, args[0])
        if at is not None and at >= 0:
            return NONE
        return self.list_append(o, args[0], n)

    def m_set_discard(self, o, args, kw, n):
        I = self.I
        ob = I.obj(o)
        at = self.position(ob.content, args[0])
        if at is not None:
            if at >= 0:
                ob.content = ob.content[:1 + at] + ob.content[2 + at:]
                I.event("write", "discard", [o, args[0]], node=n, extra={"label": ob.label})
            return NONE
        ob.content = ("lwithout", ob.content, args[0])
        I.event("write", "discard", [o, args[0]], node=n, extra={"label": ob.label})
        return NONE

    def m_set_remove(self, o, args, kw, n):
        if self.position(self.I.obj(o).content, args[0]) == -1:
            self.I.raise_("KeyError", n, "remove of a missing element")
        return self.m_set_discard(o, args, kw, n)

    def m_set_clear(self, o, args, kw, n):
        return self.m_deque_clear(o, args, kw, n)

    def m_set_copy(self, o, args, kw, n):
        return self.new_set(self.I.obj(o).content)

    def m_set_union(self, o, args, kw, n):
        t = self.new_set(self.I.obj(o).content)
        for a in args:
            self.list_extend(t, a, n, quiet=True)
        return t

    def new_set(self, c):
        o = Obj("set")
        if c is not None and c[0] not in ("list", "setc", "keys", "items", "uniq", "setof", "setop", "rangel"):
            c = ("uniq", c)
        o.content = c
        return self.I.alloc(o)

    def set_op(self, op, a, b, n):
        I = self.I
        if op == "BitOr":
            t = self.new_set(I.obj(self.to_list(a, n)).content)
            self.list_extend(t, b, n, quiet=True)
            return t
        xs, ys = self.closed_consts(a, n), self.closed_consts(b, n)
        if xs is not None and ys is not None:
            if op == "BitAnd":
                out = [x for x in xs if x in ys]
            elif op == "Sub":
                out = [x for x in xs if x not in ys]
            else:
                out = [x for x in xs if x not in ys] + [y for y in ys if y not in xs]
            return self.new_set(("list",) + tuple(out))
        return self.new_set(("setop", op, I.snap(a), I.snap(b)))

    def closed_consts(self, v, n):
        """The distinct elements of a collection of known constants, or None."""
        I = self.I
        c = I.obj(self.to_list(v, n)).content
        while c is not None and c[0] in ("uniq", "setof") and len(c) == 2:
            c = c[1]
        if c is None or c[0] not in ("list", "setc") or not all(is_const(x) for x in c[1:]):
            return None
        out = []
        for x in c[1:]:
            if x not in out:
                out.append(x)
        return out

    def m_set_intersection(self, o, args, kw, n):
        for a in args:
            o = self.set_op("BitAnd", o, a, n)
        return o

    def m_set_difference(self, o, args, kw, n):
        for a in args:
            o = self.set_op("Sub", o, a, n)
        return o

    def m_set_symmetric_difference(self, o, args, kw, n):
        return self.set_op("BitXor", o, args[0], n)

    def m_set_issubset(self, o, args, kw, n):
        xs, ys = self.closed_consts(o, n), self.closed_consts(args[0], n)
        if xs is None or ys is None:
            raise Undecided("issubset")
        return TRUE if all(x in ys for x in xs) else FALSE

    def m_set_issuperset(self, o, args, kw, n):
        xs, ys = self.closed_consts(o, n), self.closed_consts(args[0], n)
        if xs is None or ys is None:
            raise Undecided("issuperset")
        return TRUE if all(y in xs for y in ys) else FALSE

    # ------------------------------------------------------------ dicts
    def dict_view(self, d, what):
        I = self.I
        o = I.obj(d)
        if not o.open and not o.pieces:
            el = []
            for k, v in list(o.entries.items()):
                el.append(k if what == "keys" else v if what == "values" else ("tuple", k, v))
            return I.new_list(el)
        return I.new_list(content=(what, d[1], o.ver, o.label or "dict"))

    def m_dict_keys(self, o, args, kw, n):
        return self.dict_view(o, "keys")

    def m_dict_values(self, o, args, kw, n):
        return self.dict_view(o, "values")

    def m_dict_items(self, o, args, kw, n):
        return self.dict_view(o, "items")

    def m_dict_iterkeys(self, o, args, kw, n):
        return ("dlive", o, "keys")

    def m_dict_itervalues(self, o, args, kw, n):
        return ("dlive", o, "values")

    def m_dict_iteritems(self, o, args, kw, n):
        return ("dlive", o, "items")

    m_dict_viewkeys, m_dict_viewvalues, m_dict_viewitems = m_dict_iterkeys, m_dict_itervalues, m_dict_iteritems

    def m_dict___iter__(self, o, args, kw, n):
        return ("dlive", o, "keys")

    def m_dict_get(self, o, args, kw, n):
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        return self.I.dict_get(o, args[0], n, missing="default", default=d)

    def m_dict_has_key(self, o, args, kw, n):
        return TRUE if self.I.dict_has(o, args[0], n) else FALSE

    m_dict___contains__ = m_dict_has_key

    def m_dict___getitem__(self, o, args, kw, n):
        return self.I.dict_get(o, args[0], n)

    def m_dict___setitem__(self, o, args, kw, n):
        self.I.dict_set(o, args[0], args[1], n)
        return NONE

    def m_dict_setdefault(self, o, args, kw, n):
        I = self.I
        d = args[1] if len(args) > 1 else NONE
        if I.dict_has(o, args[0], n):
            return I.dict_get(o, args[0], n)
        I.dict_set(o, args[0], d, n)
        return d

    def m_dict_pop(self, o, args, kw, n):
        I = self.I
        if len(args) > 1:
            if not I.dict_has(o, args[0], n):
                return args[1]
        v = I.dict_get(o, args[0], n)
        I.delitem(o, args[0], n)
        return v

    def m_dict_clear(self, o, args, kw, n):
        I = self.I
        ob = I.obj(o)
        ob.entries, ob.mat, ob.present, ob.absent = {}, {}, set(), set()
        ob.pieces = ()
        ob.open = False
        ob.ver += 1
        I.event("write", "clear", [o], node=n, extra={"label": ob.label})
        return NONE

    def m_dict_copy(self, o, args, kw, n):
        I = self.I
        ob = I.obj(o).clone()
        ob.label = None
        t = I.alloc(ob)
        if ob.open:
            # a copy of an unknown dict: same keys, same values as now
            src, ver = o, ob.ver
            x = I.obj(t)
            x.extra = dict(x.extra or {}, copyof=(o[1], ob.ver))
        return t

    def m_dict_update(self, o, args, kw, n):
        I = self.I
        if args:
            self.dict_fill(o, args[0], n)
        for k, v in kw.items():
            if k == "**":
                self.dict_fill(o, v, n)
            else:
                I.dict_set(o, const(k), v, n)
        return NONE

    def dict_fill(self, o, src, n, quiet=False):
        I = self.I
        if I.isobj(src, "dict"):
            sob = I.obj(src)
            dob = I.obj(o)
            if not sob.open and not sob.pieces:
                for k, v in list(sob.entries.items()):
                    I.dict_set(o, k, v, n, quiet=quiet)
                return
            if not dob.open and not dob.entries and not dob.pieces:
                dob.open, dob.pieces, dob.ver = True, sob.pieces, dob.ver + 1
                dob.proto, dob.keyty = sob.proto, sob.keyty
                dob.entries, dob.mat = dict(sob.entries), dict(sob.mat)
                dob.present, dob.absent = set(sob.present), set(sob.absent)
                dob.extra = dict(sob.extra or {}, filledfrom=("dictof", src[1], sob.ver, sob.label or "dict"))
                I.event("write", "fill", [o, ("dictof", src[1], sob.ver, sob.label or "dict")], node=n,
                        extra={"label": dob.label})
                return
            I.event("write", "fill", [o, ("dictof", src[1], sob.ver, sob.label or "dict")], node=n,
                    extra={"label": dob.label})
            pr = dob.proto
            I.open_dict(dob)
            dob.proto = "unk"
            return
        if src == NONE or ty(src) in NUM:
            I.raise_("TypeError", n, "dict from %s" % show(src))
        if src[0] in ("sym", "ret", "attr", "dget", "elem", "item", "itemt", "unk", "exit", "phi") and ty(src) != "list":
            dob = I.obj(o)
            I.event("write", "fill", [o, src], node=n, extra={"label": dob.label})
            I.open_dict(dob)
            dob.proto = "unk"
            dob.extra = dict(dob.extra or {}, filledfrom=src)
            return

        def body(e):
            k, v = I.unpack(e, 2, n)
            I.dict_set(o, k, v, n, quiet=quiet)
        I.iterate(src, body, n)

    # ------------------------------------------------------------ calls
    def call_bound_ext(self, f, args, kw, node, star=None):
        I = self.I
        t = f[2]
        if t[0] == "x":
            return self.call_external(t[1], [f[1]] + args, kw, node, star)
        return I.call(t, [f[1]] + args, kw, node, star)

    def call_opaque(self, f, args, kw, node, star=None):
        I = self.I
        if star is not None:
            args = list(args) + [("star", star)]
        if f[0] == "attr":
            name = f[2]
            base = f[1]
            h = I.cfg.opaque_methods.get(name)
            if h is not None:
                r = h(I, base, args, kw, node)
                if r is not None:
                    return r
            if name in ("hexdigest", "digest") and base[0] == "pure" and base[1] in ("hashlib.md5", "hashlib.sha1", "hashlib.sha256") and len(base) == 3 and is_const(base[2]) and isinstance(base[2][1], str):
                import hashlib
                h = hashlib.new(base[1][8:], base[2][1].encode("latin-1"))
                return const(h.hexdigest() if name == "hexdigest" else h.digest().decode("latin-1"))
            if name == "hexdigest" and base[0] == "pure":
                return ("hexdigest", base)
            if name == "digest" and base[0] == "pure":
                return ("fmt", "digest", base)
            if base[0] == "pure":
                return ("pure", "." + name, base) + tuple(I.snap(a) for a in args)
        else:
            name = f[1] if f[0] in ("sym",) else f[0]
        ex = I.cfg.raisers.get("." + name) if f[0] == "attr" else I.cfg.raisers.get(name)
        rty = (I.cfg.ret_types.get("." + name) if f[0] == "attr" else I.cfg.ret_types.get(name)) or "unk"
        ret = ("ret", I.fresh(), name, rty)
        ev = I.event("call", f, args, kw, node=node, ret=ret)
        if ex and not I.loading:
            j = I.choose(len(ex) + 1)
            if j:
                ev.extra = "raises"
                raise PyRaise(ex[j - 1], node, "%s may raise it" % name, where=I.where(node))
        return ret

    PURE = {"hashlib.md5", "hashlib.sha1", "hashlib.sha256", "zlib.crc32", "binascii.crc32", "struct.pack",
            "struct.unpack", "os.path.join", "os.path.basename", "os.path.exists", "collections.namedtuple",
            "operator.itemgetter", "operator.attrgetter", "itertools.repeat", "itertools.count",
            "twisted.internet.abstract.isIPAddress"}
    QUIET = {"zope.interface.implements", "zope.interface.classImplements", "zope.interface.directlyProvides",
             "zope.interface.classProvides", "zope.interface.moduleProvides"}

    def call_external(self, name, args, kw, node, star=None):
        I = self.I
        h = I.cfg.ext.get(name)
        if h is not None:
            r = h(I, args, kw, node)
            if r is not None:
                return r
        if name.startswith("builtin."):
            b = name[8:]
            if b in EXC_PARENT or b == "BaseException":
                return ("exc", b, args[0] if args else const(""))
            if "." in b:
                return self.builtin_unbound(b, args, kw, node, star)
            f = getattr(self, "b_" + b, None)
            if f is None:
                raise Undecided("builtin %s" % b)
            if star is not None:
                if b in ("max", "min", "sum") and not args:
                    args = [I.new_list(content=star)]
                else:
                    raise Undecided("star arguments of %s" % b)
            return f(args, kw, node)
        f = getattr(self, "e_" + name.replace(".", "_"), None)
        if f is not None and star is None:
            return f(args, kw, node)
        if name in self.QUIET:
            return NONE
        if name in self.PURE:
            if name == "twisted.internet.abstract.isIPAddress":
                if is_const(args[0]) and isinstance(args[0][1], str):
                    parts = args[0][1].split(".")
                    return TRUE if len(parts) == 4 and all(x.isdigit() and int(x) < 256 for x in parts) else FALSE
                return ("isip", args[0])
            if name.endswith(".crc32") and len(args) == 1 and is_const(args[0]) and isinstance(args[0][1], str):
                import zlib
                v = zlib.crc32(args[0][1].encode("latin-1"))
                return const(v - (1 << 32) if v >> 31 else v)
            return ("pure", name) + tuple(I.snap(a) for a in args)
        ename = EXC_ALIAS.get(name, name)
        if ename in EXC_PARENT:
            return ("exc", ename, args[0] if args else const(""))
        if name.split(".")[-1].endswith(("Error", "Exception")):
            return ("exc", name, args[0] if args else const(""))
        if star is not None:
            args = list(args) + [("star", star)]
        rty = I.cfg.ret_types.get(name, "unk")
        ret = ("ret", I.fresh(), name, rty)
        ev = I.event("call", name, args, kw, node=node, ret=ret)
        ex = I.cfg.raisers.get(name)
        if ex and not I.loading:
            j = I.choose(len(ex) + 1)
            if j:
                ev.extra = "raises"
                raise PyRaise(ex[j - 1], node, "%s may raise it" % name, where=I.where(node))
        return ret

    def builtin_unbound(self, b, args, kw, node, star=None):
        """Unbound methods such as str.lower or object.__init__."""
        I = self.I
        cls, m = b.split(".", 1)
        if m in ("__init__", "__new__", "__setattr__"):
            if m == "__setattr__":
                I.setattr(args[0], args[1][1], args[2], node)
            return NONE
        if cls == "dict" and m == "fromkeys":
            d = I.new_dict()

            def body(e):
                I.dict_set(d, e, args[1] if len(args) > 1 else NONE, node, quiet=True)
            I.iterate(args[0], body, node)
            return d
        if not args:
            raise Undecided("unbound method")
        return self.method(args[0], m, args[1:], kw, node, star)

    # -- builtins
    def b_len(self, a, kw, n):
        v = a[0]
        if v[0] in ("gen", "dlive") or v == NONE or ty(v) in NUM:
            self.I.raise_("TypeError", n, "len() of %s" % show(v)[:60])
        return self.I.len_of(v)

    def b_str(self, a, kw, n):
        return self.str_of(a[0]) if a else const("")

    b_unicode = b_bytes = b_str

    def b_repr(self, a, kw, n):
        return ("repr", a[0])

    def b_float(self, a, kw, n):
        I = self.I
        if not a:
            return const(0.0)
        v = a[0]
        if is_const(v):
            if isinstance(v[1], str):
                try:
                    return const(float(v[1]))
                except ValueError:
                    I.raise_("ValueError", n, "float(%r)" % v[1])
            if v[1] is None:
                I.raise_("TypeError", n, "float(None)")
            return const(float(v[1]))
        y = ty(v)
        if y in NUM:
            if nullable(v) and "none" in I.cfg.hazards and I.split(("isnone", v)):
                I.raise_("TypeError", n, "float(None)")
            return v if y == "float" else ("float", v)
        if v[0] in ("tuple", "fn", "cls", "bm") or I.isobj(v, "list", "dict", "set", "deque"):
            I.raise_("TypeError", n, "float of %s" % show(v)[:60])
        if y == "str":
            self.parse_check("isnum", v, n, "float(%s)" % show(v)[:80])
        return ("float", v)

    def parse_check(self, kind, v, n, text):
        I = self.I
        if v in I.cfg.alphabet and (I.cfg.alphabet[v] <= set("0123456789") or kind == "isnum" and I.cfg.alphabet[v] <= set("0123456789.")):
            return      # figures: digits, with a decimal point where it is a real number
        at = (kind, v)
        r = I.decide(at)
        if r is None and kind == "isnum" and self.always_number(v):
            return
        if r is None:
            if "parse" in I.cfg.hazards and not I.loading:
                r = I.split(at)
            else:
                return
        if r is False:
            I.raise_("ValueError", n, "%s: the text need not be a number" % text)

    def always_number(self, v):
        if v[0] == "group" and is_const(v[2]):
            m = v[1]
            if m[0] == "rematch" and is_const(m[2][1]) and is_const(m[2][2]):
                import relang
                try:
                    return relang.group_is_number(m[2][1][1], m[2][2][1] or 0, v[2][1])
                except relang.Unsupported:
                    return False
        return False

    def b_int(self, a, kw, n):
        I = self.I
        if not a:
            return const(0)
        v = a[0]
        base = a[1] if len(a) > 1 else kw.get("base")
        if is_const(v):
            try:
                return const(int(v[1], base[1]) if base is not None else int(v[1]))
            except ValueError:
                I.raise_("ValueError", n, "int(%r)" % (v[1],))
            except TypeError:
                I.raise_("TypeError", n, "int(%r)" % (v[1],))
            except OverflowError:
                I.raise_("OverflowError", n, "int(%r)" % (v[1],))
        y = ty(v)
        if y == "int":
            return v
        if y in NUM:
            return ("trunc", v)
        if y == "str":
            if base is None or base == const(10):
                self.parse_check("isint", v, n, "int(%s)" % show(v)[:80])
                return ("int", v)
            if v[0] in ("sslice", "hexdigest") :
                return ("int", v, base)
            self.parse_check("isint%s" % show(base), v, n, "int(%s)" % show(v)[:80])
            return ("int", v, base)
        if v[0] in ("tuple", "fn", "cls", "bm", "obj"):
            I.raise_("TypeError", n, "int of %s" % show(v)[:60])
        return ("int", v)

    b_long = b_int

    def b_bool(self, a, kw, n):
        if not a:
            return FALSE
        return self.I.truth_atom(a[0])

    def b_abs(self, a, kw, n):
        v = a[0]
        if is_const(v):
            return const(abs(v[1]))
        I = self.I
        at = I.lt0(v)
        if (at[1] if is_const(at) else I.split(at)):
            return ("neg", v)
        return v

    def b_round(self, a, kw, n):
        if all(is_const(x) for x in a):
            x = a[0][1]
            nd = a[1][1] if len(a) > 1 else 0
            from decimal import Decimal, ROUND_HALF_UP
            try:
                return const(float(Decimal(repr(x)).quantize(Decimal(1).scaleb(-nd), rounding=ROUND_HALF_UP)))
            except Exception:
                pass
        if a[0] == NONE or ty(a[0]) == "str":
            self.I.raise_("TypeError", n, "round of %s" % show(a[0])[:60])
        if len(a) == 1 or a[1] == const(0):
            return ("round", a[0])
        return ("round", a[0], a[1])

    def b_divmod(self, a, kw, n):
        return ("tuple", self.binop("FloorDiv", a[0], a[1], n), self.binop("Mod", a[0], a[1], n))

    def b_pow(self, a, kw, n):
        return self.binop("Pow", a[0], a[1], n)

    def b_ord(self, a, kw, n):
        if is_const(a[0]):
            return const(ord(a[0][1]))
        return ("ord", a[0])

    def b_chr(self, a, kw, n):
        if is_const(a[0]):
            return const(chr(a[0][1]))
        return ("fmt", "%c", a[0])

    b_unichr = b_chr

    def b_hex(self, a, kw, n):
        return ("fmt", "%#x", a[0])

    def b_hash(self, a, kw, n):
        I = self.I
        if I.cfg.world is not None and (is_const(a[0]) or I.isobj(a[0], "inst")):
            return const(I.cfg.world("hashof", I.snap(a[0])))
        return ("hashof", I.snap(a[0]))

    def b_id(self, a, kw, n):
        if self.I.cfg.world is not None:
            return const(self.I.cfg.world("idof", a[0]))
        return ("idof", a[0])

    def b_cmp(self, a, kw, n):
        I = self.I
        if I.test(I.compare("Lt", a[0], a[1], n)):
            return const(-1)
        if I.test(I.eq_atom(a[0], a[1])):
            return const(0)
        return const(1)

    def minmax(self, a, kw, n, mx):
        I = self.I
        if "key" in kw:
            raise Undecided("min/max with key")
        if len(a) == 1:
            v = a[0]
            if v[0] == "tuple":
                a = list(v[1:])
            else:
                t = v if I.isobj(v, "list", "set", "deque") else self.to_list(v, n) if v[0] in ("gen", "dlive", "obj", "enum") else None
                c = I.obj(t).content if t is not None else v
                if c[0] == "list":
                    a = list(c[1:])
                else:
                    if c[0] in ("sorted", "rev", "uniq"):
                        c = c[1] if c[0] != "sorted" else c
                    if c[0] != "sorted":
                        c = ("sorted", c)
                    z = I.eq0(I.clen(c))
                    r = bool(z[1]) if is_const(z) else I.decide(z)
                    if r is None and "index" in I.cfg.hazards and I.index_source(c) and not I.loading:
                        r = I.split(z)
                    if r:
                        I.raise_("ValueError", n, "min or max of an empty sequence")
                    return I.item(c, const(-1 if mx else 0), n, hazard=False)
            if not a:
                I.raise_("ValueError", n, "min or max of an empty sequence")
        r = a[0]
        for x in a[1:]:
            op = "Gt" if mx else "Lt"
            if I.test(I.compare(op, x, r, n)):
                r = x
        return r

    def b_max(self, a, kw, n):
        return self.minmax(a, kw, n, True)

    def b_min(self, a, kw, n):
        return self.minmax(a, kw, n, False)

    def b_sum(self, a, kw, n):
        I = self.I
        v = a[0]
        start = a[1] if len(a) > 1 else const(0)
        if v[0] == "tuple":
            c = ("list",) + v[1:]
        elif I.isobj(v, "list", "deque", "set"):
            c = I.obj(v).content
        elif v[0] in ("gen", "obj", "dlive", "enum", "zipit", "revit", "mapit"):
            c = I.obj(self.to_list(v, n)).content
        else:
            c = v
        return self.sum_content(c, start, n)

    def sum_content(self, c, start, n):
        if c[0] == "list":
            r = start
            for e in c[1:]:
                r = self.binop("Add", r, e, n)
            return r
        if c[0] == "lcat":
            r = start
            for p in c[1:]:
                r = self.sum_content(p, r, n)
            return r
        if c[0] in ("sorted", "rev"):
            return self.sum_content(c[1], start, n)
        if c[0] == "lmap":
            alts = []
            for i, el in c[3]:
                d = const(0)
                for e in el:
                    d = ("add", d, e)
                alts.append((i, canon(d)))
            ds = {d for i, d in alts}
            if len(ds) == 1:
                return self.binop("Add", start, self.I.sumover(c[1], ds.pop()), n)
            return ("add", start, ("psum", c[1], tuple(alts), "num"))
        t = ("sum", c)
        return t if start == const(0) else ("add", start, t)

    def b_sorted(self, a, kw, n):
        I = self.I
        l = self.to_list(a[0], n)
        kw = dict(kw)
        args = []
        if len(a) > 1:
            kw["cmp"] = a[1]
        if len(a) > 2:
            kw["key"] = a[2]
        I.obj(l).content = self.sorted_content(I.obj(l).content, args, kw, n)
        return l

    def b_reversed(self, a, kw, n):
        return ("revit", self.to_list(a[0], n) if a[0][0] in ("gen",) else a[0])

    def b_enumerate(self, a, kw, n):
        src = self.to_list(a[0], n) if a[0][0] in ("gen",) else a[0]
        return ("enum", src, a[1] if len(a) > 1 else kw.get("start", const(0)))

    def b_iter(self, a, kw, n):
        if a[0][0] == "gen" or a[0][0] == "dlive":
            return a[0]
        return ("iter", a[0])

    def b_next(self, a, kw, n):
        raise Undecided("next()")

    def b_list(self, a, kw, n):
        return self.to_list(a[0], n) if a else self.I.new_list()

    def b_tuple(self, a, kw, n):
        if not a:
            return ("tuple",)
        if a[0][0] == "tuple":
            return a[0]
        l = self.to_list(a[0], n)
        c = self.I.obj(l).content
        if c[0] == "list":
            return ("tuple",) + c[1:]
        return c

    def b_set(self, a, kw, n):
        c = self.I.obj(self.to_list(a[0], n)).content if a else ("list",)
        return self.new_set(c)

    b_frozenset = b_set

    def b_dict(self, a, kw, n):
        I = self.I
        d = I.new_dict()
        if a:
            self.dict_fill(d, a[0], n, quiet=True)
        for k, v in kw.items():
            if k == "**":
                self.dict_fill(d, v, n, quiet=True)
            else:
                I.dict_set(d, const(k), v, n, quiet=True)
        return d

    def seq_content(self, v, n):
        I = self.I
        if v[0] == "tuple":
            return ("list",) + v[1:]
        if I.isobj(v, "list", "deque", "set"):
            return I.obj(v).content
        return I.obj(self.to_list(v, n)).content

    def b_zip(self, a, kw, n):
        I = self.I
        cs = [self.seq_content(v, n) for v in a]
        if all(c[0] == "list" for c in cs):
            return I.new_list([("tuple",) + t for t in zip(*[c[1:] for c in cs])])
        closed = [len(c) - 1 for c in cs if c[0] == "list"]
        if closed:
            m = min(closed)
            el = []
            for i in range(m):
                el.append(("tuple",) + tuple(I.item(c, const(i), n, hazard=False) for c in cs))
            return I.new_list(el)
        return I.new_list(content=("zip",) + tuple(cs))

    def b_map(self, a, kw, n):
        I = self.I
        f = a[0]
        if len(a) > 2:
            src = self.b_zip(a[1:], {}, n)
            out = I.new_list()
            I.iterate(src, lambda e: self.list_append(
                out, I.call(f, I.unpack(e, len(a) - 1, n), {}, n), n, quiet=True), n)
            return out
        out = I.new_list()

        def body(e):
            self.list_append(out, e if f == NONE else I.call(f, [e], {}, n), n, quiet=True)
        I.iterate(a[1], body, n)
        return out

    def b_filter(self, a, kw, n):
        I = self.I
        f = a[0]
        out = I.new_list()

        def body(e):
            if I.test(e if f == NONE else I.call(f, [e], {}, n)):
                self.list_append(out, e, n, quiet=True)
        I.iterate(a[1], body, n)
        return out

    def b_reduce(self, a, kw, n):
        I = self.I
        c = self.seq_content(a[1], n)
        if c[0] != "list":
            raise Undecided("reduce")
        el = list(c[1:])
        if len(a) > 2:
            el.insert(0, a[2])
        if not el:
            I.raise_("TypeError", n, "reduce of an empty sequence")
        r = el[0]
        for e in el[1:]:
            r = I.call(a[0], [r, e], {}, n)
        return r

    def b_any(self, a, kw, n):
        I = self.I

        def body(e):
            if I.test(e):
                raise PyBreak()
        return TRUE if I.iterate(a[0], body, n) else FALSE

    def b_all(self, a, kw, n):
        I = self.I

        def body(e):
            if not I.test(e):
                raise PyBreak()
        return FALSE if I.iterate(a[0], body, n) else TRUE

    def b_range(self, a, kw, n):
        I = self.I
        for x in a:
            if x == NONE or ty(x) in ("str", "float") or x[0] in ("tuple", "obj"):
                I.raise_("TypeError", n, "range(%s)" % show(x)[:60])
        if all(is_const(x) for x in a):
            r = range(*[x[1] for x in a])
            if len(r) <= I.cfg.unroll:
                return I.new_list([const(i) for i in r])
            if len(a) == 1 or (a[0] == const(0) and len(a) == 2):
                return I.new_list(content=("rangel", const(len(r))))
            if len(a) == 2:
                return I.new_list(content=("rangel2", a[0], a[1]))
            raise Undecided("range with a step")
        if len(a) == 1:
            return I.new_list(content=("rangel", a[0]))
        if len(a) == 2:
            if a[0] == const(0):
                return I.new_list(content=("rangel", a[1]))
            return I.new_list(content=("rangel2", a[0], a[1]))
        raise Undecided("range with a step")

    b_xrange = b_range

    def e_types_NoneType(self, a, kw, n):
        self.I.raise_("TypeError", n, "cannot create 'NoneType' instances")

    def b_type(self, a, kw, n):
        v = a[0]
        if self.I.isobj(v, "inst"):
            return ("cls", self.I.obj(v).cls)
        if len(a) == 1:
            y = ty(v)
            if is_const(v) or y in ("str", "int", "float", "bool"):
                if v == NONE:
                    return ("x", "types.NoneType")
                return ("x", "builtin." + y)
            if v[0] == "tuple":
                return ("x", "builtin.tuple")
            if v[0] == "obj":
                return ("x", "builtin." + self.I.obj(v).kind)
            return ("typeof", v)
        raise Undecided("type()")

    def b_isinstance(self, a, kw, n):
        I = self.I
        v, c = a
        if c[0] == "tuple":
            for x in c[1:]:
                if I.test(self.b_isinstance([v, x], {}, n)):
                    return TRUE
            return FALSE
        if I.isobj(v, "inst"):
            if c[0] == "cls":
                return TRUE if any(isinstance(k, IN.Class) and k.q == c[1] for k in I.mro(I.obj(v).cls)) else FALSE
            if c[0] == "x":
                if c[1] in ("builtin.object",):
                    return TRUE
                if any(not isinstance(k, IN.Class) and k == c for k in I.mro(I.obj(v).cls)):
                    return TRUE
                if c[1].startswith("builtin."):
                    return FALSE
                return ("isinstance", v, c)
        if c[0] == "x" and c[1].startswith("builtin."):
            t = c[1][8:]
            y = ty(v)
            if v == NONE:
                return FALSE
            kind = None
            if v[0] == "obj":
                kind = I.obj(v).kind
            elif v[0] == "tuple":
                kind = "tuple"
            elif y in ("str", "int", "float", "bool", "list") and not nullable(v):
                kind = y
            if kind is not None:
                sup = {"bool": ("bool", "int", "object"), "int": ("int", "object"), "long": ("long", "object"),
                       "str": ("str", "basestring", "object")}.get(kind, (kind, "object"))
                return TRUE if t in sup else FALSE
            if y == "num" and t in ("str", "basestring", "unicode", "list", "dict", "tuple"):
                return FALSE
        if c[0] == "cls" and (is_const(v) or v[0] == "tuple" or ty(v) in ("str", "int", "float", "bool")
                              or v[0] in ("fn", "bm", "exc") or v[0] == "obj" and I.obj(v).kind in ("list", "dict", "set", "gen", "deque")):
            return FALSE
        return ("isinstance", v, c)

    def b_issubclass(self, a, kw, n):
        I = self.I
        if a[0][0] == "cls" and a[1][0] == "cls":
            return TRUE if any(isinstance(k, IN.Class) and k.q == a[1][1] for k in I.mro(a[0][1])) else FALSE
        return ("isinstance", a[0], a[1])

    def b_callable(self, a, kw, n):
        v = a[0]
        if v[0] in ("fn", "bm", "cls", "x", "partial", "meth", "pywrap"):
            return TRUE
        if v == NONE or is_const(v) or v[0] == "tuple":
            return FALSE
        if self.I.isobj(v, "inst"):
            return TRUE if self.I.class_lookup(self.I.obj(v).cls, "__call__") else FALSE
        return ("callable", v)

    def enum_names(self, o):
        I = self.I
        out = []
        if I.isobj(o, "inst"):
            out.extend(I.obj(o).attrs)
            for c in I.mro(I.obj(o).cls):
                if isinstance(c, IN.Class):
                    out.extend(c.dict)
        elif o[0] == "cls":
            for c in I.mro(o[1]):
                if isinstance(c, IN.Class):
                    out.extend(c.dict)
        elif o[0] == "mod":
            out.extend(I.modules[o[1]])
        else:
            return None
        seen = []
        for x in out:
            if x not in seen:
                seen.append(x)
        return seen

    def b_getattr(self, a, kw, n):
        I = self.I
        o, name = a[0], a[1]
        default = a[2] if len(a) > 2 else None
        if is_const(name):
            return I.getattr(o, name[1], n, default)
        names = self.enum_names(o)
        if names is None:
            raise Undecided("getattr with an unknown name")
        pre = name[1][1] if name[0] == "cat" and name[1][0] == "c" else ""
        post = name[-1][1] if name[0] == "cat" and name[-1][0] == "c" else ""
        for x in names:
            if x.startswith(pre) and x.endswith(post) and len(x) > len(pre) + len(post) and not x.startswith("#"):
                if I.test(I.eq_atom(name, const(x))):
                    return I.getattr(o, x, n, default)
        if default is not None:
            return default
        I.raise_("AttributeError", n, "attribute %s" % show(name))

    def b_hasattr(self, a, kw, n):
        I = self.I
        o, name = a[0], a[1]
        if not is_const(name):
            raise Undecided("hasattr with an unknown name")
        if I.isobj(o, "inst"):
            ob = I.obj(o)
            if name[1] in ob.attrs or I.class_lookup(ob.cls, name[1]) is not None:
                return TRUE
            if I.external_bases(ob.cls):
                return ("hasattr", o, name)
            return FALSE
        if o[0] == "mod":
            return TRUE if name[1] in I.modules[o[1]] else FALSE
        if o == NONE:
            return FALSE
        if o[0] == "x":
            r = self.ext_hasattr(o, name[1])
            if r is not None:
                return TRUE if r else FALSE
        if o[0] == "tuple":
            return TRUE if hasattr((), name[1]) or name[1] in I.cfg.fields.get(o, ()) + (("_asdict", "_fields") if o in I.cfg.fields else ()) else FALSE
        if o[0] in ("obj",):
            return TRUE if hasattr({"list": list, "dict": dict, "set": set}.get(I.obj(o).kind, list), name[1]) else FALSE
        return ("hasattr", o, name)

    def b_setattr(self, a, kw, n):
        if not is_const(a[1]):
            raise Undecided("setattr with an unknown name")
        self.I.setattr(a[0], a[1][1], a[2], n)
        return NONE

    def b_delattr(self, a, kw, n):
        raise Undecided("delattr")

    def b_property(self, a, kw, n):
        return ("property", a[0])

    def b_classmethod(self, a, kw, n):
        return ("classmethod", a[0])

    def b_staticmethod(self, a, kw, n):
        return ("staticmethod", a[0])

    def b_super(self, a, kw, n):
        if len(a) != 2 or a[0][0] != "cls":
            raise Undecided("super()")
        return ("super", a[0][1], a[1])

    def b_object(self, a, kw, n):
        o = Obj("inst", "object")
        return self.I.alloc(o)

    def b_print(self, a, kw, n):
        self.I.event("call", "print", a, node=n)
        return NONE

    def b_open(self, a, kw, n):
        I = self.I
        ret = ("ret", I.fresh(), "open", "unk")
        I.event("call", "open", a, kw, node=n, ret=ret)
        return ret

    b_file = b_open

    # -- library functions
    def e_time_time(self, a, kw, n):
        I = self.I
        t = ("now", I.fresh())
        I.event("time", "time.time", [t], node=n, ret=t)
        return t

    def e_random_random(self, a, kw, n):
        t = ("rand", self.I.fresh())
        self.I.event("rand", "random.random", [], node=n, ret=t)
        return t

    def e_random_uniform(self, a, kw, n):
        return ("add", a[0], ("mul", ("sub", a[1], a[0]), self.e_random_random([], {}, n)))

    def e_random_randint(self, a, kw, n):
        I = self.I
        t = ("ret", I.fresh(), "random.randint", "int")
        I.event("rand", "random.randint", a, node=n, ret=t)
        I.assume(I.lt0(("sub", t, a[0])), False)
        I.assume(I.lt0(("sub", a[1], t)), False)
        return t

    def e_random_randrange(self, a, kw, n):
        I = self.I
        lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
        t = ("ret", I.fresh(), "random.randrange", "int")
        I.event("rand", "random.randrange", a, node=n, ret=t)
        I.assume(I.lt0(("sub", t, lo)), False)
        I.assume(I.lt0(("sub", t, hi)), True)
        return t

    def e_random_choice(self, a, kw, n):
        return ("ret", self.I.fresh(), "random.choice", "unk")

    def _m1(self, name, a, n):
        v = a[0]
        if v == NONE or ty(v) == "str":
            self.I.raise_("TypeError", n, "math.%s of %s" % (name, show(v)[:60]))
        return v

    def e_math_isnan(self, a, kw, n):
        v = self._m1("isnan", a, n)
        if is_const(v):
            return TRUE if isinstance(v[1], float) and math.isnan(v[1]) else FALSE
        if ty(v) == "int":
            return FALSE
        return ("isnan", v)

    def e_math_isinf(self, a, kw, n):
        v = self._m1("isinf", a, n)
        if is_const(v):
            return TRUE if isinstance(v[1], float) and math.isinf(v[1]) else FALSE
        if ty(v) == "int":
            return FALSE
        return ("isinf", v)

    def e_math_trunc(self, a, kw, n):
        v = self._m1("trunc", a, n)
        if is_const(v):
            return const(math.trunc(v[1]))
        return v if ty(v) == "int" else ("trunc", v)

    def e_math_floor(self, a, kw, n):
        v = self._m1("floor", a, n)
        if is_const(v):
            return const(float(math.floor(v[1])))
        return ("floor", v)

    def e_math_ceil(self, a, kw, n):
        v = self._m1("ceil", a, n)
        if is_const(v):
            return const(float(math.ceil(v[1])))
        return ("ceil", v)

    def e_math_sqrt(self, a, kw, n):
        v = self._m1("sqrt", a, n)
        self.domain(self.I.lt0(v), n, "sqrt", v)
        if is_const(v):
            return const(math.sqrt(v[1]))
        return ("sqrt", v)

    def e_math_log(self, a, kw, n):
        v = self._m1("log", a, n)
        I = self.I
        self.domain(I.not_(I.lt0(("neg", v))), n, "log", v)
        if all(is_const(x) for x in a):
            return const(math.log(*[x[1] for x in a]))
        return ("log", v) + tuple(a[1:])

    def e_math_log10(self, a, kw, n):
        return self.e_math_log([a[0], const(10)], kw, n)

    def domain(self, at, n, name, v):
        I = self.I
        r = bool(at[1]) if is_const(at) else I.decide(at)
        if r is None and name == "sqrt" and T.nonnegative_form(v):
            return
        if r:
            I.raise_("ValueError", n, "math domain error: %s(%s)" % (name, show(v)[:80]))
        if r is None and "domain" in I.cfg.hazards and I.split(at):
            I.raise_("ValueError", n, "math domain error: %s(%s)" % (name, show(v)[:80]))

    def e_math_exp(self, a, kw, n):
        v = self._m1("exp", a, n)
        if is_const(v):
            if v[1] > 709:
                self.I.raise_("OverflowError", n, "math.exp of %s" % show(v)[:60])
            return const(math.exp(v[1]))
        return ("exp", v)

    def e_math_pow(self, a, kw, n):
        return ("pow", a[0], a[1])

    def e_math_fabs(self, a, kw, n):
        return self.b_abs(a, kw, n)

    def e_math_fsum(self, a, kw, n):
        return self.b_sum(a, kw, n)

    def e_re_compile(self, a, kw, n):
        I = self.I
        if a[0][0] == "regex":
            return a[0]
        if is_const(a[0]) and isinstance(a[0][1], str):
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    _re.compile(a[0][1])
            except _re.error as e:
                I.raise_("re.error", n, str(e))
        elif not is_const(a[0]) and "regex" in I.cfg.hazards:
            at = ("truth", ("validregex", a[0]))
            if not I.split(at):
                I.raise_("re.error", n, "%s need not be a valid pattern" % show(a[0]))
        return ("regex", a[0], a[1] if len(a) > 1 else kw.get("flags", const(0)))

    def e_re_match(self, a, kw, n):
        return self.regex_method(self.e_re_compile([a[0]] + a[2:], kw, n), "match", [a[1]], {}, n)

    def e_re_search(self, a, kw, n):
        return self.regex_method(self.e_re_compile([a[0]] + a[2:], kw, n), "search", [a[1]], {}, n)

    def e_re_sub(self, a, kw, n):
        return self.regex_method(self.e_re_compile([a[0]], {}, n), "sub", list(a[1:]), kw, n)

    def e_re_split(self, a, kw, n):
        return self.regex_method(self.e_re_compile([a[0]], {}, n), "split", a[1:], {}, n)

    def e_re_findall(self, a, kw, n):
        return self.regex_method(self.e_re_compile([a[0]], {}, n), "findall", a[1:2], {}, n)

    def e_re_escape(self, a, kw, n):
        return ("fmt", "reescape", a[0])

    def e_fnmatch_fnmatch(self, a, kw, n):
        if all(is_const(x) for x in a):
            import fnmatch
            return TRUE if fnmatch.fnmatchcase(a[0][1], a[1][1]) else FALSE
        return ("fnmatch", a[0], a[1])

    e_fnmatch_fnmatchcase = e_fnmatch_fnmatch

    def bisect(self, a, kw, n, right):
        """The place of a[1] in the list a[0], when its elements are all known."""
        I = self.I
        import order
        c = I.obj(a[0]).content if I.isobj(a[0], "list", "deque") else a[0]
        if not I.cfg.exact_order or c[0] != "list":
            return None
        lo = a[2] if len(a) > 2 else kw.get("lo", const(0))
        hi = a[3] if len(a) > 3 else kw.get("hi", NONE)
        if not is_const(lo) or not is_const(hi):
            return None
        return order.find(I, c[1:], a[1], right, n, lo[1], hi[1])

    def insort(self, a, kw, n, right):
        I = self.I
        o = a[0]
        if not I.isobj(o, "list"):
            I.event("write", "opaque", [o, const("insort"), a[1]], node=n, extra={"label": show(o)[:80]})
            return NONE
        ob = I.obj(o)
        k = self.bisect(a, kw, n, right)
        if k is not None:
            ob.content = ob.content[:k + 1] + (a[1],) + ob.content[k + 1:]
            return NONE
        ob.content = ("insorted", ob.content, a[1])
        I.event("write", "insort", [o, a[1]], node=n, extra={"label": ob.label})
        return NONE

    def e_bisect_insort(self, a, kw, n):
        return self.insort(a, kw, n, True)

    def e_bisect_insort_left(self, a, kw, n):
        return self.insort(a, kw, n, False)

    def e_bisect_bisect_left(self, a, kw, n):
        I = self.I
        k = self.bisect(a, kw, n, False)
        if k is not None:
            return const(k)
        t = ("index", "bisect_left", I.snap(a[0]), I.snap(a[1]))
        I.assume(I.lt0(t), False)
        return t

    def e_bisect_bisect_right(self, a, kw, n):
        I = self.I
        k = self.bisect(a, kw, n, True)
        if k is not None:
            return const(k)
        t = ("index", "bisect_right", I.snap(a[0]), I.snap(a[1]))
        I.assume(I.lt0(t), False)
        return t

    def e_functools_partial(self, a, kw, n):
        f = a[0]
        if f[0] == "partial":
            k = dict(f[3])
            k.update(kw)
            return ("partial", f[1], f[2] + tuple(a[1:]), tuple(sorted(k.items(), key=lambda x: x[0])))
        return ("partial", f, tuple(a[1:]), tuple(sorted(kw.items(), key=lambda x: x[0])))

    def copy_name(self, w, f):
        I = self.I
        if w[0] == "fn":
            if f[0] in ("partial",) or I.isobj(f, "inst"):
                I.raise_("AttributeError", None, "update_wrapper of an object without __name__")
            nm = I.getattr(f, "__name__", None) if f[0] in ("fn", "bm", "cls") else ("attr", f, "__name__")
            I.fns[w[1]].extra["func_name"] = I.fns[w[1]].extra["__name__"] = nm
        return w

    def e_functools_wraps(self, a, kw, n):
        f = a[0]
        return ("pywrap", lambda I, args, kw2, node: self.copy_name(args[0], f))

    def e_functools_update_wrapper(self, a, kw, n):
        return self.copy_name(a[0], a[1])

    def e_zope_interface_implementer(self, a, kw, n):
        return ("pywrap", lambda I, args, kw2, node: args[0])

    def e_collections_deque(self, a, kw, n):
        I = self.I
        o = Obj("deque")
        o.content = I.obj(self.to_list(a[0], n)).content if a and a[0] != NONE else ("list",)
        mx = a[1] if len(a) > 1 else kw.get("maxlen", NONE)
        if mx != NONE:
            o.extra = {"maxlen": mx}
        return I.alloc(o)

    def e_collections_defaultdict(self, a, kw, n):
        I = self.I
        d = I.new_dict()
        f = a[0] if a else NONE
        if f != NONE:
            I.obj(d).extra = {"default": f}
        if len(a) > 1:
            self.dict_fill(d, a[1], n, quiet=True)
        return d

    def e_collections_OrderedDict(self, a, kw, n):
        return self.b_dict(a, kw, n)

    def e_collections_Counter(self, a, kw, n):
        raise Undecided("Counter")

    def e_copy_copy(self, a, kw, n):
        I = self.I
        v = a[0]
        if I.isobj(v, "dict"):
            return self.m_dict_copy(v, [], {}, n)
        if I.isobj(v, "list", "deque", "set"):
            o = I.obj(v).clone()
            o.label = None
            return I.alloc(o)
        raise Undecided("copy")

    def e_itertools_chain(self, a, kw, n):
        I = self.I
        out = I.new_list()
        for x in a:
            self.list_extend(out, x, n, quiet=True)
        return out

    def e_itertools_chain_from_iterable(self, a, kw, n):
        I = self.I
        out = I.new_list()
        I.iterate(a[0], lambda e: self.list_extend(out, e, n, quiet=True), n)
        return out

    def e_itertools_islice(self, a, kw, n):
        l = self.to_list(a[0], n)
        lo, hi = (NONE, a[1]) if len(a) == 2 else (a[1], a[2])
        return self.I.getslice(l, lo, hi, NONE, n)

    def e_twisted_application_service_Service_startService(self, a, kw, n):
        I = self.I
        I.event("call", "Service.startService", a, node=n)
        if I.isobj(a[0], "inst"):
            I.obj(a[0]).attrs["running"] = const(1)
        return NONE

    def e_twisted_application_service_Service_stopService(self, a, kw, n):
        I = self.I
        I.event("call", "Service.stopService", a, node=n)
        if I.isobj(a[0], "inst"):
            I.obj(a[0]).attrs["running"] = const(0)
        return NONE

    def e_operator_add(self, a, kw, n):
        return self.binop("Add", a[0], a[1], n)

    def e_operator_mul(self, a, kw, n):
        return self.binop("Mult", a[0], a[1], n)

    def e_twisted_internet_defer_succeed(self, a, kw, n):
        ret = ("ret", self.I.fresh(), "succeed", "obj")
        self.I.event("call", "twisted.internet.defer.succeed", a, node=n, ret=ret)
        return ret
