# Runs under Jython 2.7 (the Python the repository is built with).  Parses the
# sources named on the command line and writes their syntax trees as JSON.
# Nothing of the repository is imported.
import ast
import json
import sys


def conv(n):
    if isinstance(n, ast.AST):
        d = {"_": n.__class__.__name__}
        for f in n._fields:
            try:
                d[f] = conv(getattr(n, f))
            except AttributeError:
                d[f] = None
        for f in ("lineno", "col_offset"):
            v = getattr(n, f, None)
            if isinstance(v, (int, long)):
                d[f] = int(v)
        return d
    if isinstance(n, list) or isinstance(n, tuple):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return n
    if isinstance(n, float):
        if n != n or n in (float("inf"), float("-inf")):
            return {"_": "#float", "v": repr(n)}
        return n
    if isinstance(n, complex):
        return {"_": "#complex", "v": repr(n)}
    if isinstance(n, unicode):
        return n
    if isinstance(n, str):
        return n.decode("latin-1")
    try:
        return [conv(x) for x in n]
    except TypeError:
        return unicode(n)


out = {}
names = [l.rstrip("\n") for l in open(sys.argv[1])]
for name in names:
    src = open(name, "rb").read()
    try:
        out[name] = conv(ast.parse(src, name))
    except SyntaxError, e:
        out[name] = {"_": "#error", "msg": str(e)}
f = open(sys.argv[2], "wb")
f.write(json.dumps(out))
f.close()
