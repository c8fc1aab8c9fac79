""" Which parameters and which attributes of its receiver a repository function may modify in place (transitively).

Purely syntactic, flow-insensitive and closed under the call graph (methods by class when the receiver is self, by name
otherwise).  Used to forget what is known about containers that escape into calls. """
import ast

from sa.program import walk_own

CONTAINER_MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "popitem", "remove", "clear", "setdefault",
                      "sort", "reverse", "discard", "appendleft", "popleft", "difference_update",
                      "intersection_update", "symmetric_difference_update"}


class Effects:
    """ Fixpoint of (mutated parameters, written receiver attributes) for every function of a program. """

    def __init__(self, program):
        self.p = program
        self.params = {}   # qual -> set of parameter names mutated as containers
        self.attrs = {}    # qual -> set of receiver attributes assigned or mutated
        self.sites = {}    # qual -> [(callee list, {callee param: own param}, receiver is self)]
        for f in list(program.funcs.values()):
            self.scan(f)
        if program.ref is not None:
            # what a function of the vocabulary may modify is part of the reference; its own conformance is checked
            known = program.ref.effects
            for q in known.params:
                if q in self.params:
                    self.params[q], self.attrs[q], self.sites[q] = set(known.params[q]), set(known.attrs[q]), []
        changed = True
        while changed:
            changed = False
            for q, sites in self.sites.items():
                for callees, binding, onself, attrbind in sites:
                    for c in callees:
                        mp = self.params.get(c, ())
                        for cp, own in binding.items():
                            if cp in mp and own not in self.params[q]:
                                self.params[q].add(own)
                                changed = True
                        for cp, own in attrbind.items():
                            if cp in mp and own not in self.attrs[q]:
                                self.attrs[q].add(own)
                                changed = True
                        if onself:
                            new = self.attrs.get(c, set()) - self.attrs[q]
                            if new:
                                self.attrs[q] |= new
                                changed = True

    def candidates(self, f, call, selfname):
        """ (callees, receiver is self). """
        fn = call.func
        if isinstance(fn, ast.Name):
            r = self.p.resolve(f.module, fn.id)
            if r is not None and r[0] == "func":
                return [r[1]], False
            if r is not None and r[0] == "class":
                init = r[1].find("__init__")
                return ([init] if init else []), False
            return [], False
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Name) and v.id == selfname and f.cls is not None:
                out = []
                g = f.cls.find(fn.attr)
                if g is not None:
                    out.append(g)
                for s in f.cls.all_subclasses():
                    if fn.attr in s.methods:
                        out.append(s.methods[fn.attr])
                return out, True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                for c in f.cls.mro()[1:]:
                    if fn.attr in c.methods:
                        return [c.methods[fn.attr]], True
                return [], True
            r = self.p.resolve_expr(f.module, fn)
            if r is not None and r[0] == "func":
                return [r[1]], False
            if fn.attr in CONTAINER_MUTATORS or fn.attr in ("get", "items", "keys", "values", "copy", "index"):
                return [], False
            return list(self.p.method_index.get(fn.attr, [])), False
        return [], False

    def scan(self, f):
        q = f.key if hasattr(f, "key") else f.qual
        names = [p[0] for p in f.params()]
        selfname = names[0] if f.cls is not None and not f.is_static and names else None
        alias = {n: ("param", n) for n in names}
        nodes = [n for n in ast.walk(f.node)]

        def place(e):
            """ What a mutated expression denotes: own parameter or receiver attribute. """
            if isinstance(e, ast.Name):
                return alias.get(e.id)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == selfname:
                return ("attr", e.attr)
            if isinstance(e, (ast.Subscript, ast.Attribute)):
                return place(e.value)
            if isinstance(e, ast.IfExp):
                return place(e.body) or place(e.orelse)
            if isinstance(e, ast.BoolOp):
                return next((x for x in map(place, e.values) if x is not None), None)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                    e.func.attr in ("values", "items", "keys", "get", "setdefault"):
                return place(e.func.value)
            return None
        for _ in range(3):
            for n in nodes:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    pl = place(n.value)
                    if pl is not None:
                        alias.setdefault(n.targets[0].id, pl)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pl = place(n.iter)
                    if pl is not None:
                        for t in ast.walk(n.target):
                            if isinstance(t, ast.Name):
                                alias.setdefault(t.id, pl)
        mp, ma = set(), set()

        def hit(pl):
            if pl is not None and pl[1] != selfname:
                (mp if pl[0] == "param" else ma).add(pl[1])
        for n in nodes:
            targets = []
            if isinstance(n, ast.Assign):
                targets = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                targets = [n.target]
            elif isinstance(n, ast.Delete):
                targets = n.targets
            for t in targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript):
                        hit(place(x.value))
                    elif isinstance(x, ast.Attribute):
                        if isinstance(x.value, ast.Name) and x.value.id == selfname:
                            ma.add(x.attr)
                    elif isinstance(x, ast.Name) and isinstance(n, ast.AugAssign):
                        hit(place(x))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CONTAINER_MUTATORS:
                hit(place(n.func.value))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and \
                    isinstance(n.args[0], ast.Name) and n.args[0].id == selfname and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant):
                ma.add(n.args[1].value)
        sites = []
        for n in nodes:
            if not isinstance(n, ast.Call):
                continue
            callees, onself = self.candidates(f, n, selfname)
            for c in callees:
                cps = [p[0] for p in (c.call_params() if c.cls is not None else c.params())]
                b, ab = {}, {}
                for i, a in enumerate(n.args):
                    if i < len(cps):
                        pl = place(a)
                        if pl is not None and pl[1] != selfname:
                            (b if pl[0] == "param" else ab)[cps[i]] = pl[1]
                for k in n.keywords:
                    pl = place(k.value) if k.arg else None
                    if pl is not None and pl[1] != selfname:
                        (b if pl[0] == "param" else ab)[k.arg] = pl[1]
                if b or ab or onself:
                    sites.append(([c.qual], b, onself, ab))
        self.params[q], self.attrs[q], self.sites[q] = mp, ma, sites
