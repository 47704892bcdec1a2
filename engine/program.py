"""Loads the syntax trees of the repository's sources."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """The front end failed, or a public anchor is gone: no verdict."""


class Node(object):
    def __init__(self, kind):
        self._ = kind

    def __repr__(self):
        return "<%s@%s>" % (self._, getattr(self, "lineno", "?"))


def _build(d, fname, parent_line=0):
    if isinstance(d, list):
        return [_build(x, fname, parent_line) for x in d]
    if isinstance(d, dict):
        if d.get("_") == "#float":
            return float(d["v"])
        n = Node(d["_"])
        line = d.get("lineno") or parent_line
        n.lineno = line
        n.file = fname
        for k, v in d.items():
            if k in ("_", "lineno"):
                continue
            setattr(n, k, _build(v, fname, line))
        return n
    return d


def iter_nodes(n):
    if isinstance(n, list):
        for x in n:
            yield from iter_nodes(x)
    elif isinstance(n, Node):
        yield n
        for k, v in vars(n).items():
            if isinstance(v, (Node, list)):
                yield from iter_nodes(v)


def _own_nodes(body):
    """Nodes of a function body, without nested functions and classes."""
    stack = list(body) if isinstance(body, list) else [body]
    while stack:
        n = stack.pop()
        if isinstance(n, list):
            stack.extend(n)
            continue
        if not isinstance(n, Node):
            continue
        yield n
        if n._ in ("FunctionDef", "ClassDef", "Lambda", "GeneratorExp"):
            if n._ == "GeneratorExp":
                stack.append(n.generators[0].iter)
            continue
        for v in vars(n).values():
            if isinstance(v, (Node, list)):
                stack.append(v)


def is_generator(fn):
    if not hasattr(fn, "_isgen"):
        body = fn.body
        fn._isgen = any(x._ == "Yield" for x in _own_nodes(body))
    return fn._isgen


def _target_names(t, out):
    if t._ == "Name":
        out.add(t.id)
    elif t._ in ("Tuple", "List"):
        for e in t.elts:
            _target_names(e, out)


def local_names(fn):
    """Names bound in a function: its parameters and everything it assigns."""
    if hasattr(fn, "_locals"):
        return fn._locals
    names, glob = set(), set()
    for a in fn.args.args:
        _target_names(a, names)
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            names.add(a if isinstance(a, str) else a.arg)
    if fn._ != "Lambda":
        for n in _own_nodes(fn.body):
            if n._ == "Name" and n.ctx._ in ("Store", "Del", "Param", "AugStore"):
                names.add(n.id)
            elif n._ in ("FunctionDef", "ClassDef"):
                names.add(n.name)
            elif n._ in ("Import", "ImportFrom"):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif n._ == "ExceptHandler" and isinstance(n.name, Node):
                _target_names(n.name, names)
            elif n._ == "Global":
                glob.update(n.names)
    fn._locals = names - glob
    fn._globals = glob
    return fn._locals


class Program(object):
    def __init__(self, repo=REPO, files=None):
        self.repo = repo
        self.files = files or self._find()
        self.modules = {}
        self.errors = {}
        self._load()

    def _find(self):
        out = []
        for root in ("txstatsd", "twisted"):
            for dp, dn, fn in os.walk(os.path.join(self.repo, root)):
                dn[:] = [d for d in dn if d != "tests" and not d.startswith(".") and d != "__pycache__"]
                for f in sorted(fn):
                    if f.endswith(".py"):
                        out.append(os.path.join(dp, f))
        stubs = os.path.join(HERE, "..", "stubs")
        return sorted(out) + [os.path.join(stubs, f) for f in sorted(os.listdir(stubs)) if f.endswith(".py")] if out else []

    def _load(self):
        if not self.files:
            raise AnalysisBroken("no source file of txstatsd found in %s" % self.repo)
        with tempfile.TemporaryDirectory(prefix="vfast") as td:
            names = os.path.join(td, "names")
            outf = os.path.join(td, "out.json")
            with open(names, "w") as f:
                f.write("\n".join(self.files) + "\n")
            env = dict(os.environ)
            env.pop("JYTHONPATH", None)
            p = None
            for attempt in range(3):
                p = subprocess.run(
                    ["/usr/bin/jython", "-Dpython.cachedir.skip=true",
                     os.path.join(HERE, "..", "frontend", "dump_ast.py"), names, outf],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
                if p.returncode == 0 and os.path.exists(outf):
                    break
            else:
                raise AnalysisBroken("the parser failed: %s" % p.stdout.decode("latin-1")[-2000:])
            with open(outf) as f:
                data = json.load(f)
        for name, tree in data.items():
            rel = os.path.relpath(name, self.repo)
            if "stubs" in name.split(os.sep) and not name.startswith(os.path.join(self.repo, "txstatsd")):
                rel = os.path.join("stubs", os.path.basename(name))
            if tree["_"] == "#error":
                self.errors[rel] = tree["msg"]
                continue
            mod = rel[:-3].replace(os.sep, ".")
            if mod.endswith(".__init__"):
                mod = mod[:-9]
            self.modules[mod] = _build(tree, rel)
        if self.errors:
            raise AnalysisBroken("syntax errors: %r" % (self.errors,))

    def has(self, mod):
        return mod in self.modules
