"""Questions about regular expressions, decided on their automata (never by running them)."""
import re
import warnings

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:             # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

ALPHA = [chr(i) for i in range(256)]
SPACE = set(" \t\n\r\f\v")
DIGIT = set("0123456789")
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


class Unsupported(Exception):
    pass


def parse(pattern, flags=0):
    if not isinstance(pattern, str):
        raise Unsupported("pattern is not a constant")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return sre_parse.parse(pattern, (flags if isinstance(flags, int) else 0) | re.ASCII)
    except Exception as e:
        raise Unsupported("cannot parse %r: %s" % (pattern, e))


def category(c):
    n = str(c)
    base = SPACE if n.endswith("SPACE") else DIGIT if n.endswith("DIGIT") else WORD if n.endswith("WORD") else None
    if base is None:
        raise Unsupported(n)
    return set(ALPHA) - base if "_NOT_" in n else set(base)


def charset(op, av, flags=0):
    """The characters a one-character item matches."""
    n = str(op)
    if n == "LITERAL":
        s = {chr(av)} if av < 256 else set()
    elif n == "NOT_LITERAL":
        s = set(ALPHA) - {chr(av)}
    elif n == "ANY":
        s = set(ALPHA) if flags & re.DOTALL else set(ALPHA) - {"\n"}
    elif n == "IN":
        s, neg = set(), False
        for o, a in av:
            on = str(o)
            if on == "NEGATE":
                neg = True
            elif on == "LITERAL":
                if a < 256:
                    s.add(chr(a))
            elif on == "RANGE":
                s |= {chr(i) for i in range(a[0], min(a[1], 255) + 1)}
            elif on == "CATEGORY":
                s |= category(a)
            else:
                raise Unsupported(on)
        if flags & re.IGNORECASE:
            s |= {c.lower() for c in s} | {c.upper() for c in s}
        if neg:
            s = set(ALPHA) - s
    else:
        raise Unsupported(n)
    if flags & re.IGNORECASE and n == "LITERAL":
        s |= {c.lower() for c in s} | {c.upper() for c in s}
    return s


class NFA(object):
    def __init__(self):
        self.eps = []
        self.tr = []
        self.start = self.new()
        self.end = None

    def new(self):
        self.eps.append(set())
        self.tr.append([])
        return len(self.eps) - 1


def build(nfa, items, s, flags):
    """Append the automaton of a parsed sequence after state s."""
    for op, av in items:
        n = str(op)
        if n in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            e = nfa.new()
            nfa.tr[s].append((frozenset(charset(op, av, flags)), e))
            s = e
        elif n == "AT":
            continue            # position assertions only narrow the language
        elif n == "SUBPATTERN":
            s = build(nfa, av[-1], s, flags)
        elif n == "BRANCH":
            e = nfa.new()
            for alt in av[1]:
                b = nfa.new()
                nfa.eps[s].add(b)
                nfa.eps[build(nfa, alt, b, flags)].add(e)
            s = e
        elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = av
            if lo > 200:
                raise Unsupported("repeat")
            for _ in range(lo):
                s = build(nfa, sub, s, flags)
            if hi == sre_c.MAXREPEAT:
                b = nfa.new()
                nfa.eps[s].add(b)
                e = build(nfa, sub, b, flags)
                nfa.eps[e].add(b)
                s = b
            else:
                if hi - lo > 200:
                    raise Unsupported("repeat")
                ends = [s]
                for _ in range(hi - lo):
                    s = build(nfa, sub, s, flags)
                    ends.append(s)
                e = nfa.new()
                for x in ends:
                    nfa.eps[x].add(e)
                s = e
        else:
            raise Unsupported(n)
    return s


def automaton(items, flags=0):
    n = NFA()
    n.end = build(n, items, n.start, flags)
    return n


def closure(nfa, states):
    out, todo = set(states), list(states)
    while todo:
        for e in nfa.eps[todo.pop()]:
            if e not in out:
                out.add(e)
                todo.append(e)
    return frozenset(out)


def step(nfa, states, ch):
    return closure(nfa, {e for s in states for cs, e in nfa.tr[s] if ch in cs})


def included(a, b):
    """Language inclusion of automaton a in automaton b; (True, None) or (False, word)."""
    s = (closure(a, {a.start}), closure(b, {b.start}))
    seen, todo = {s: ""}, [s]
    while todo:
        x = todo.pop(0)
        if a.end in x[0] and b.end not in x[1]:
            return False, seen[x]
        chars = set()
        for q in x[0]:
            for cs, _ in a.tr[q]:
                chars |= cs
        moves = {}
        for c in sorted(chars):
            y = (step(a, x[0], c), step(b, x[1], c))
            if y not in moves:
                moves[y] = c
        for y, c in moves.items():
            if y[0] and y not in seen:
                seen[y] = seen[x] + c
                todo.append(y)
                if len(seen) > 20000:
                    raise Unsupported("too large")
    return True, None


FLOAT = r"[ \t\n\r\f\v]*[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?[ \t\n\r\f\v]*"
INT = r"[ \t\n\r\f\v]*[+-]?\d+[ \t\n\r\f\v]*"


def find_group(items, group):
    for op, av in items:
        n = str(op)
        if n == "SUBPATTERN":
            if av[0] == group:
                return av[-1]
            r = find_group(av[-1], group)
            if r is not None:
                return r
        elif n == "BRANCH":
            for alt in av[1]:
                r = find_group(alt, group)
                if r is not None:
                    return r
        elif n.endswith("_REPEAT"):
            r = find_group(av[-1], group)
            if r is not None:
                return r
    return None


def group_items(pattern, flags, group):
    p = parse(pattern, flags)
    if group == 0:
        return p, p.state.flags
    if isinstance(group, str):
        group = p.state.groupdict.get(group)
    g = find_group(p, group)
    if g is None:
        raise Unsupported("no group %r" % (group,))
    return g, p.state.flags


def group_is(pattern, flags, group, lang):
    """Whether everything the group can match is in the language of lang."""
    g, fl = group_items(pattern, flags, group)
    b = automaton(parse(lang))
    return included(automaton(g, fl), b)


def group_is_number(pattern, flags, group, integer=False):
    return group_is(pattern, flags, group, INT if integer else FLOAT)[0]


def ngroups(pattern, flags=0):
    return parse(pattern, flags).state.groups - 1


def group_optional(pattern, flags, group):
    """Whether the group can be left out of a successful match (its value is then None)."""
    p = parse(pattern, flags)
    if isinstance(group, str):
        group = p.state.groupdict.get(group)

    def look(items):
        for op, av in items:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] == group:
                    return False
                r = look(av[-1])
                if r is not None:
                    return r
            elif n == "BRANCH":
                for alt in av[1]:
                    r = look(alt)
                    if r is not None:
                        return True
            elif n.endswith("_REPEAT"):
                r = look(av[-1])
                if r is not None:
                    return r or av[0] == 0
        return None
    r = look(p)
    if r is None:
        raise Unsupported("no group")
    return r
