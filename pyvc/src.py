"""Load the code under verification: parse every module of /repo/src on each run.

Nothing here is a copy of repository code: class tables, method resolution orders,
property tables and function bodies all come from the parsed source of the current
working tree.  What the extraction drops: docstrings, type annotations, decorators
other than property/setter/classmethod, and text inside f-strings.
"""
import ast, os

REPO = os.environ.get("PYVC_REPO", "/repo")
ROOT = os.path.join(REPO, "src", "aligned_textgrid")

BUILTIN_BASES = {"Sequence", "object"}


class Func:
    def __init__(self, name, node, cls, module, kind):
        self.name, self.node, self.cls, self.module, self.kind = name, node, cls, module, kind

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.base_names = []
        for b in node.bases:
            self.base_names.append(b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else "?"))
        self.methods, self.props, self.setters, self.attrs = {}, {}, {}, {}
        for it in node.body:
            if isinstance(it, ast.FunctionDef):
                decs = [ast.unparse(d) for d in it.decorator_list]
                if "property" in decs:
                    self.props[it.name] = Func(it.name, it, self, module, "property")
                elif any(d.endswith(".setter") for d in decs):
                    self.setters[it.name] = Func(it.name, it, self, module, "setter")
                elif "classmethod" in decs:
                    self.methods[it.name] = Func(it.name, it, self, module, "classmethod")
                elif "staticmethod" in decs:
                    self.methods[it.name] = Func(it.name, it, self, module, "staticmethod")
                else:
                    self.methods[it.name] = Func(it.name, it, self, module, "method")
            elif isinstance(it, ast.Assign) and len(it.targets) == 1 and isinstance(it.targets[0], ast.Name):
                self.attrs[it.targets[0].id] = it.value
        self.mro = None

    def __repr__(self):
        return f"<Cls {self.name}>"


class Program:
    def __init__(self, root=ROOT):
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.srclines = 0
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    text = open(p).read()
                    self.srclines += text.count("\n")
                    tree = ast.parse(text, p)
                    m = os.path.relpath(p, root)
                    self.modules[m] = tree
                    for it in tree.body:
                        if isinstance(it, ast.ClassDef):
                            self.classes[it.name] = Cls(it.name, it, m)
                        elif isinstance(it, ast.FunctionDef):
                            self.funcs[it.name] = Func(it.name, it, None, m, "function")
        for c in self.classes.values():
            c.mro = self._mro(c.name)

    def _mro(self, name):
        c = self.classes.get(name)
        if c is None:
            return [name]
        seqs = [self._mro(b) for b in c.base_names] + [list(c.base_names)]
        out = [name]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise RuntimeError("inconsistent MRO for " + name)
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, clsname, attr, after=None):
        """(kind, Func|ast, owner) of attr in the MRO of clsname (after class `after` for super())."""
        mro = self.classes[clsname].mro if clsname in self.classes else [clsname]
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            c = self.classes.get(k)
            if c is None:
                continue
            if attr in c.props:
                return ("property", c.props[attr], c)
            if attr in c.methods:
                return (c.methods[attr].kind, c.methods[attr], c)
            if attr in c.attrs:
                return ("attr", c.attrs[attr], c)
        return None

    def setter(self, clsname, attr):
        mro = self.classes[clsname].mro if clsname in self.classes else [clsname]
        for k in mro:
            c = self.classes.get(k)
            if c is not None and attr in c.setters:
                return c.setters[attr]
            if c is not None and attr in c.props:
                return "readonly"
        return None

    def isa(self, clsname, base):
        return clsname in self.classes and base in self.classes[clsname].mro or clsname == base


def mangle(cls, name):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return f"_{cls.name.lstrip('_')}{name}"
    return name


def unmangle(name, classes):
    if name.startswith("_") and "__" in name[1:]:
        c, _, rest = name[1:].partition("__")
        if c in classes:
            return c, "__" + rest
    return None
