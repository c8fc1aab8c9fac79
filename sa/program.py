""" Whole-package loader: modules, symbol tables, classes, MRO, callee resolution.  Nothing is imported or run. """
import ast
import builtins
import hashlib
import os


class AnalysisError(Exception):
    """ The analysis cannot decide (anchor vanished, unsupported construct at an anchor). """


class Func:
    """ A function or method definition. """

    alias = None

    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.decorators = [] if isinstance(node, ast.Lambda) else [deco_name(d) for d in node.decorator_list]

    @property
    def qual(self):
        """ Dotted name. """
        if self.alias is not None:
            return self.alias
        if self.cls is not None:
            return f"{self.cls.qual}.{self.name}"
        return f"{self.module.name}.{self.name}"

    @property
    def short(self):
        """ Class.name or name. """
        return f"{self.cls.name}.{self.name}" if self.cls is not None else self.name

    @property
    def where(self):
        """ file:line. """
        return f"{self.module.rel}:{self.node.lineno}"

    @property
    def is_property(self):
        return any(d.split(".")[-1] in ("property", "cached_property") for d in self.decorators)

    @property
    def is_setter(self):
        return any(d.endswith(".setter") or d.endswith(".deleter") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_class(self):
        return "classmethod" in self.decorators or self.name in ("__new__", "__init_subclass__")

    def params(self):
        """ [(name, kind, default_node, annotation)] with kind in pos, kwonly, vararg, kwarg. """
        a = self.node.args
        pos = a.posonlyargs + a.args
        res = []
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            d = a.defaults[i - (len(pos) - nd)] if i >= len(pos) - nd else None
            res.append((p.arg, "pos", d, p.annotation))
        if a.vararg:
            res.append((a.vararg.arg, "vararg", None, None))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            res.append((p.arg, "kwonly", d, p.annotation))
        if a.kwarg:
            res.append((a.kwarg.arg, "kwarg", None, None))
        return res

    def call_params(self):
        """ Params without the bound receiver. """
        p = self.params()
        if self.cls is not None and not self.is_static:
            return p[1:]
        return p

    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False


def walk_own(node):
    """ Walk a function body without entering nested functions/classes. """
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def deco_name(node):
    """ Dotted name of a decorator expression. """
    if isinstance(node, ast.Call):
        return deco_name(node.func)
    if isinstance(node, ast.Attribute):
        return f"{deco_name(node.value)}.{node.attr}"
    if isinstance(node, ast.Name):
        return node.id
    return "?"


class Class:
    """ A class definition. """

    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name, self.outer = module, node, node.name, outer
        self.methods, self.setters, self.attrs, self.annots = {}, {}, {}, {}
        self.base_nodes = node.bases
        self.bases = []          # Class objects
        self.external = []       # names of unresolved bases
        self.subclasses = []
        for item in node.body:
            self._add(item)

    def _add(self, item):
        if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(self.module, item, cls=self)
            if f.is_setter:
                self.setters[f.name] = f
            else:
                self.methods[f.name] = f
        elif isinstance(item, ast.Assign):
            for t in item.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = item.value
        elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name):
            self.annots[item.target.id] = item.annotation
            if item.value is not None:
                self.attrs[item.target.id] = item.value
        elif isinstance(item, (ast.If, ast.Try)):
            for sub in ast.iter_child_nodes(item):
                self._add(sub)

    alias = None

    @property
    def qual(self):
        return self.alias or f"{self.module.name}.{self.name}"

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def mro(self):
        """ C3 linearisation (falls back on depth first). """
        if not hasattr(self, "_mro"):
            self._mro = c3(self)
        return self._mro

    def find(self, name):
        """ Method lookup. """
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        """ Class-level attribute (class, value node). """
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def find_after(self, cls, name):
        """ Lookup in the MRO after cls (super). """
        mro = self.mro()
        idx = mro.index(cls) + 1 if cls in mro else 0
        for c in mro[idx:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def is_subclass(self, other):
        return other in self.mro()

    def all_subclasses(self):
        """ Transitive subclasses, self excluded. """
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return merge([[cls]] + [list(b.mro()) for b in cls.bases] + [list(cls.bases)])


class Module:
    """ A parsed module. """

    def __init__(self, program, name, path, rel, source):
        self.program, self.name, self.path, self.rel, self.source = program, name, path, rel, source
        self.tree = ast.parse(source, filename=path)
        self.symbols = {}   # name -> ("func", Func) | ("class", Class) | ("import", dotted) | ("const", node)
        self.is_package = path.endswith("__init__.py")
        for item in self.tree.body:
            self._top(item)

    def _top(self, item):
        if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.symbols[item.name] = ("func", Func(self, item))
        elif isinstance(item, ast.ClassDef):
            self.symbols[item.name] = ("class", Class(self, item))
        elif isinstance(item, ast.Import):
            for a in item.names:
                if a.asname:
                    self.symbols[a.asname] = ("import", a.name)
                else:
                    self.symbols[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(item, ast.ImportFrom):
            base = item.module or ""
            if item.level:
                parts = self.name.split(".")
                if not self.is_package:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (item.level - 1)]
                base = ".".join(parts + ([item.module] if item.module else []))
            for a in item.names:
                if a.name == "*":
                    self.symbols.setdefault("*", ("star", []))[1].append(base)
                else:
                    self.symbols[a.asname or a.name] = ("import", f"{base}.{a.name}")
        elif isinstance(item, ast.Assign):
            for t in item.targets:
                if isinstance(t, ast.Name):
                    self.symbols[t.id] = ("const", item.value)
        elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name) and item.value is not None:
            self.symbols[item.target.id] = ("const", item.value)
        elif isinstance(item, (ast.If, ast.Try)):
            for sub in ast.iter_child_nodes(item):
                if isinstance(sub, ast.ExceptHandler):
                    continue
                if isinstance(sub, ast.stmt):
                    self._top(sub)


class Program:
    """ All modules of the package. """

    MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard",
                "popitem", "sort", "reverse", "__setitem__", "__delitem__"}

    def written_globals(self):
        """ Names of module variables that some function of the program changes: their content is not known. """
        if self._written is None:
            self._written = out = set()

            def name(x):
                while isinstance(x, ast.Subscript):
                    x = x.value
                return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            for m in self.modules.values():
                for fn in ast.walk(m.tree):
                    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        continue
                    declared, changed, bound = set(), set(), {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Global):
                            declared |= set(n.names)
                        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            bound.add(n.id)
                        elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                            changed.add(name(n))
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                                n.func.attr in self.MUTATORS:
                            changed.add(name(n.func.value))
                        elif isinstance(n, ast.AugAssign):
                            changed.add(name(n.target))
                    out |= declared | (changed - bound)
        return self._written

    def __init__(self, root="/repo", package="dessia_common", reference=None):
        """ reference: the program whose functions, constants and class attributes are the vocabulary in which both are
        compared; everything else is seen through.  By default a program is its own reference. """
        self.root, self.package = root, package
        self._written = None
        self.modules = {}
        digest = hashlib.sha256()
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} is missing")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                digest.update(rel.encode() + b"\0" + src.encode())
                try:
                    self.modules[name] = Module(self, name, path, rel, src)
                except SyntaxError as exc:
                    raise AnalysisError(f"{rel}: does not parse: {exc}") from exc
        self.digest = digest.hexdigest()
        self.classes = {}
        self.funcs = {}
        for m in self.modules.values():
            for kind, obj in list(m.symbols.values()):
                if kind == "class" and obj.module is m:
                    self.classes[obj.qual] = obj
                elif kind == "func" and obj.module is m:
                    self.funcs[obj.qual] = obj
        for c in self.classes.values():
            for b in c.base_nodes:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subclasses.append(c)
                else:
                    c.external.append(r[1] if r and r[0] == "ext" else ast.unparse(b))
        self.method_index = {}
        for c in self.classes.values():
            for f in list(c.methods.values()):
                self.funcs[f.qual] = f
                self.method_index.setdefault(f.name, []).append(f)
            for f in c.setters.values():
                self.funcs[f.qual + "@setter"] = f
        self.ref, self._fresh = reference, {}
        self.set_vocabulary(reference)

    def set_vocabulary(self, reference):
        """ Names that stay symbolic. """
        if reference is not None:
            self.vocabulary, self.known_consts = reference.vocabulary, reference.known_consts
            self.adopt(reference)
            return
        self.vocabulary = set(self.funcs)
        self.known_consts = {f"{m.name}.{n}" for m in self.modules.values() for n, s in m.symbols.items()
                             if s[0] == "const"}
        self.known_consts |= {f"{c.qual}.{n}" for c in self.classes.values() for n in c.attrs}

    def adopt(self, reference):
        """ Functions and classes that moved but are still reachable under their old name keep that name. """
        for q, old in reference.classes.items():
            if q not in self.classes and old.module.name in self.modules:
                r = self.resolve(self.modules[old.module.name], old.name)
                if r and r[0] == "class" and r[1].qual not in reference.classes:
                    r[1].alias = q
                    self.classes[q] = r[1]
                    for f in r[1].methods.values():
                        self.funcs[f.qual] = f
        for q, old in reference.funcs.items():
            if q not in self.funcs and old.cls is None and old.module.name in self.modules:
                r = self.resolve(self.modules[old.module.name], old.name)
                if r and r[0] == "func" and r[1].qual not in reference.funcs:
                    r[1].alias = q
                    self.funcs[q] = r[1]

    @property
    def effects(self):
        """ In-place modification summaries (computed once). """
        if self._effects is None:
            from sa.effects import Effects
            self._effects = Effects(self)
        return self._effects

    _effects = None

    def add_helper(self, module, f):
        """ Register a function that is not in the source (development aid). """
        module.symbols[f.name] = ("func", f)
        self.funcs[f.qual] = f

    def del_helper(self, module, f):
        """ Forget it. """
        module.symbols.pop(f.name, None)
        self.funcs.pop(f.qual, None)

    # -- resolution ------------------------------------------------------------------------------------------------
    def resolve(self, module, name, _seen=None):
        """ Resolve a global name of a module: ("func",Func)|("class",Class)|("module",Module)|("ext",dotted)|
        ("const",module,node)|("builtin",name)|None. """
        _seen = _seen or set()
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        if name in module.symbols:
            kind, obj = module.symbols[name]
            if kind in ("func", "class"):
                return (kind, obj)
            if kind == "const":
                # alias of another symbol ?
                if isinstance(obj, (ast.Name, ast.Attribute)):
                    r = self.resolve_expr(module, obj)
                    if r and r[0] in ("func", "class"):
                        return r
                return ("const", module, obj, name)
            if kind == "import":
                return self.resolve_dotted(obj, _seen)
        if "*" in module.symbols:
            for base in module.symbols["*"][1]:
                if base in self.modules:
                    r = self.resolve(self.modules[base], name, _seen)
                    if r and r[0] != "builtin":
                        return r
        if hasattr(builtins, name):
            return ("builtin", name)
        return None

    def resolve_dotted(self, dotted, _seen=None):
        """ Resolve an absolute dotted name. """
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if "." in dotted:
            mod, _, attr = dotted.rpartition(".")
            if mod in self.modules:
                r = self.resolve(self.modules[mod], attr, _seen)
                if r and r[0] != "builtin":
                    return r
        return ("ext", dotted)

    def resolve_expr(self, module, node):
        """ Resolve a Name / dotted Attribute expression at module scope. """
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(module, node.value)
            if not base:
                return None
            if base[0] == "module":
                r = self.resolve(base[1], node.attr)
                if r and r[0] != "builtin":
                    return r
                sub = f"{base[1].name}.{node.attr}"
                if sub in self.modules:
                    return ("module", self.modules[sub])
                return None
            if base[0] == "ext":
                return ("ext", f"{base[1]}.{node.attr}")
        return None

    # -- freshness -------------------------------------------------------------------------------------------------
    def fresh(self, kind):
        """ Functions (dotted), methods and properties (by name, every definition) whose result is always a new list
        (or dict): (calls, properties). """
        if self.ref is not None:
            return self.ref.fresh(kind)
        if kind not in self._fresh:
            stored = {n.attr for m in self.modules.values() for n in ast.walk(m.tree)
                      if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
            cand = {q: f for q, f in self.funcs.items() if not f.is_generator() and
                    isinstance(f.node, ast.FunctionDef) and
                    all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property")
                        for d in f.node.decorator_list)}
            changed = True
            calls, props = set(), set()
            while changed:
                calls, props = {q for q, f in cand.items() if f.cls is None}, set()
                for n, fs in self.method_index.items():
                    if fs and all(f.qual in cand for f in fs) and n not in dir(list) and n not in dir(dict):
                        if all(f.is_property for f in fs) and n not in stored:
                            props.add(n)
                        elif not any(f.is_property for f in fs):
                            calls.add(n)
                bad = [q for q, f in cand.items() if not self._fresh_body(f, calls, props, kind)]
                for q in bad:
                    del cand[q]
                changed = bool(bad)
            self._fresh[kind] = calls, props
        return self._fresh[kind]

    def _fresh_body(self, f, calls, props, kind):
        returns, assigned, used = [], {}, {}
        todo = list(f.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Return):
                returns.append(n.value)
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                                assigned.setdefault(x.id, []).append(None)
                if isinstance(n.value, ast.Name) and any(not isinstance(t, ast.Name) for t in
                                                         (n.targets if isinstance(n, ast.Assign) else [n.target])):
                    used[n.value.id] = True
            if isinstance(n, ast.Call):
                for a in n.args + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and not (isinstance(n.func, ast.Name) and
                                                        n.func.id in ("len", "sorted", "list", "set", "tuple",
                                                                      "enumerate", "zip", "any", "all", "sum")):
                        used[a.id] = True
            if isinstance(n, (ast.For, ast.With)):
                for t in ([n.target] if isinstance(n, ast.For) else [i.optional_vars for i in n.items]):
                    for x in (ast.walk(t) if t is not None else ()):
                        if isinstance(x, ast.Name):
                            assigned.setdefault(x.id, []).append(None)
            todo.extend(ast.iter_child_nodes(n))
        params = {p[0] for p in f.params()}

        def fresh(e, seen=()):
            if isinstance(e, (ast.List, ast.ListComp) if kind == "list" else (ast.Dict, ast.DictComp)):
                return True
            if kind == "list" and isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                return fresh(e.left, seen) or fresh(e.right, seen)
            if isinstance(e, ast.IfExp):
                return fresh(e.body, seen) and fresh(e.orelse, seen)
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Name):
                    if e.func.id in (("list", "sorted") if kind == "list" else ("dict",)):
                        return True
                    r = self.resolve(f.module, e.func.id)
                    return bool(r and r[0] == "func" and r[1].qual in calls)
                if isinstance(e.func, ast.Attribute) and e.func.attr == f.node.name and \
                        ast.unparse(e.func.value).split("(")[0] not in ("self", "cls", "super") and \
                        (self.resolve_expr(f.module, e.func.value) or ("",))[0] != "class":
                    return False    # of something else, maybe from elsewhere
                return isinstance(e.func, ast.Attribute) and e.func.attr in calls
            if isinstance(e, ast.Attribute):
                return e.attr in props
            if isinstance(e, ast.Name) and e.id not in params and e.id not in seen and e.id in assigned:
                return e.id not in used and all(v is not None and fresh(v, seen + (e.id,)) for v in assigned[e.id])
            return False
        return bool(returns) and all(fresh(r) for r in returns)

    # -- lists -----------------------------------------------------------------------------------------------------
    def list_attributes(self):
        """ Names of attributes that only ever hold lists. """
        if self.ref is not None:
            return self.ref.list_attributes()
        if "attrs" not in self._fresh:
            good, bad = set(), set()
            for f in self.funcs.values():
                anns = {a.arg: ast.unparse(a.annotation) for a in
                        f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None} \
                    if isinstance(f.node, ast.FunctionDef) else {}

                def listy(e):
                    if isinstance(e, (ast.List, ast.ListComp)):
                        return True
                    if isinstance(e, ast.Name):
                        return anns.get(e.id, "").startswith(("List[", "list", "Optional[List["))
                    if isinstance(e, ast.IfExp):
                        return listy(e.body) and listy(e.orelse)
                    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                        return listy(e.left) or listy(e.right)
                    if isinstance(e, ast.Call):
                        return isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted")
                    return False
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                                    (good if x is t and listy(n.value) else bad).add(x.attr)
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                        (good if n.value is not None and listy(n.value) else bad).add(n.target.attr)
            self._fresh["attrs"] = good - bad - set(self.method_index)
        return self._fresh["attrs"]

    # -- booleans --------------------------------------------------------------------------------------------------
    def booleans(self):
        """ Functions (dotted), methods and properties (by name, every definition) that always return a boolean. """
        if self.ref is not None:
            return self.ref.booleans()
        if "bool" not in self._fresh:
            stored = {n.attr for m in self.modules.values() for n in ast.walk(m.tree)
                      if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
            cand = {q: f for q, f in self.funcs.items() if not f.is_generator() and
                    isinstance(f.node, ast.FunctionDef) and
                    all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property")
                        for d in f.node.decorator_list)}
            changed = True
            calls, props = set(), set()
            while changed:
                calls, props = {q for q, f in cand.items() if f.cls is None}, set()
                for n, fs in self.method_index.items():
                    if fs and all(f.qual in cand for f in fs):
                        if all(f.is_property for f in fs) and n not in stored:
                            props.add(n)
                        elif not any(f.is_property for f in fs):
                            calls.add(n)
                bad = [q for q, f in cand.items() if not self._bool_body(f, calls, props)]
                for q in bad:
                    del cand[q]
                changed = bool(bad)
            self._fresh["bool"] = calls, props
        return self._fresh["bool"]

    def _bool_body(self, f, calls, props):
        returns, assigned = [], {}
        todo = list(f.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Return):
                returns.append(n.value)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                assigned.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                assigned.setdefault(n.id, [])
            todo.extend(ast.iter_child_nodes(n))
        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stores[n.id] = stores.get(n.id, 0) + 1
        params = {p[0] for p in f.params()}

        def ends(body):
            n = body[-1]
            if isinstance(n, ast.If):
                return bool(n.orelse) and ends(n.body) and ends(n.orelse)
            if isinstance(n, ast.Try):
                return (ends(n.body) or bool(n.orelse) and ends(n.orelse)) and all(ends(h.body) for h in n.handlers)
            return isinstance(n, (ast.Return, ast.Raise))

        def is_bool(e, seen=()):
            if isinstance(e, ast.Constant):
                return e.value is True or e.value is False
            if isinstance(e, ast.Compare):
                return len(e.ops) == 1
            if isinstance(e, ast.UnaryOp):
                return isinstance(e.op, ast.Not)
            if isinstance(e, ast.BoolOp):
                return all(is_bool(v, seen) for v in e.values)
            if isinstance(e, ast.IfExp):
                return is_bool(e.body, seen) and is_bool(e.orelse, seen)
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Name):
                    if e.func.id in ("bool", "isinstance", "issubclass", "hasattr", "any", "all", "callable"):
                        return True
                    r = self.resolve(f.module, e.func.id)
                    return bool(r and r[0] == "func" and r[1].qual in calls)
                if isinstance(e.func, ast.Attribute):
                    r = self.resolve_expr(f.module, e.func) if hasattr(self, "resolve_expr") else None
                    if r and r[0] == "func":
                        return r[1].qual in calls
                    return e.func.attr in calls or e.func.attr in ("startswith", "endswith", "isclass", "isdigit")
            if isinstance(e, ast.Attribute):
                return e.attr in props
            if isinstance(e, ast.Name) and e.id not in params and e.id not in seen and e.id in assigned:
                return stores[e.id] == len(assigned[e.id]) and all(is_bool(v, seen + (e.id,)) for v in assigned[e.id])
            return False
        return bool(returns) and ends(f.node.body) and all(r is not None and is_bool(r) for r in returns)

    # -- anchors ---------------------------------------------------------------------------------------------------
    def cls(self, name, required=True):
        """ Class by short or dotted name. """
        if name in self.classes:
            return self.classes[name]
        found = [c for c in self.classes.values() if c.qual.endswith("." + name)]
        if len(found) == 1:
            return found[0]
        if required:
            raise AnalysisError(f"anchor class {name!r} not found (candidates: {[c.qual for c in found]})")
        return None

    def func(self, name, required=True):
        """ Function by dotted suffix. Methods resolve through the MRO of the class. """
        if name in self.funcs:
            return self.funcs[name]
        found = [f for q, f in self.funcs.items() if q.endswith("." + name)]
        if len(found) == 1:
            return found[0]
        if not found and "." in name:
            cname, _, meth = name.rpartition(".")
            c = self.cls(cname, required=False)
            if c is not None and c.find(meth):
                return c.find(meth)
        if not found:
            # moved or re-exported: look for a resolvable symbol
            if "." in name:
                mod, _, attr = name.rpartition(".")
                for m in self.modules.values():
                    if m.name == mod or m.name.endswith("." + mod):
                        r = self.resolve(m, attr)
                        if r and r[0] == "func":
                            return r[1]
        if required:
            raise AnalysisError(f"anchor function {name!r} not found (candidates: {[f.qual for f in found]})")
        return None
