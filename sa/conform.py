""" Conformance of the current source with the reference model, function by function.

Both programs are abstracted to behaviours (returned value, attributes written, effects, raised errors, signature) over
the same vocabulary; a difference is reported only when both behaviours are fully known and provably not the same in
the abstraction. """
import ast
import fnmatch

from sa.behave import Behaviour, Canon, Equiv, diff
from sa.flow import Flow, State, Frame
from sa.program import Func
from sa.terms import T, mk, subterms, show

ROUNDS = 7
UNKNOWN = ("unk",)


class Verdict:
    """ Outcome for one obligation. """

    def __init__(self, kind, name, where, status, details=(), facets=()):
        self.kind, self.name, self.where, self.status, self.details, self.facets = \
            kind, name, where, status, list(details), list(facets)


class Conformance:
    """ Compares a program with a reference. """

    def __init__(self, impl, ref, budget=60000, depth=7):
        self.impl, self.ref, self.budget, self.depth = impl, ref, budget, depth
        self.analysed = set()
        self._reshaped = None

    # -- selection -------------------------------------------------------------------------------------------------
    def select(self, patterns):
        """ Reference functions matching glob patterns over the name without the package prefix ('!' excludes). """
        out = []
        pre = self.ref.package + "."
        for q in self.ref.funcs:
            short = q[len(pre):] if q.startswith(pre) else q
            hit = False
            for p in patterns:
                if p.startswith("!"):
                    if fnmatch.fnmatchcase(short, p[1:]):
                        hit = False
                elif fnmatch.fnmatchcase(short, p):
                    hit = True
            if hit:
                out.append(q)
        return out

    # -- functions -------------------------------------------------------------------------------------------------
    def locate(self, q):
        """ Implementation of a reference function in the current tree. """
        f = self.impl.funcs.get(q)
        if f is not None:
            return f, None
        r = self.ref.funcs[q]
        if r.cls is not None:
            c = self.impl.classes.get(r.cls.qual)
            if c is None:
                return None, None
            if q.endswith("@setter"):
                for k in c.mro():
                    if r.name in k.setters:
                        return k.setters[r.name], c
                return None, c
            return c.find(r.name), c
        return None, None

    def behave(self, prog, f, cls, inline, args=None):
        flow = Flow(prog, inline=inline, depth=self.depth, budget=self.budget)
        b = Behaviour(flow.run(f, cls, args=args))
        self.analysed |= flow.n_funcs
        return b

    def function(self, q, facets):
        ref = self.ref.funcs[q]
        f, cls = self.locate(q)
        if f is None:
            if ref.name.startswith("_") and not ref.name.startswith("__"):
                return Verdict("function", q, ref.where, "gone")
            return Verdict("function", q, ref.where, "violated", [("missing", None, None)], facets)
        cls = cls or f.cls
        inline, args = set(), None
        names, rnames = [p[0] for p in f.call_params()], [p[0] for p in ref.call_params()]
        private = ref.name.startswith("_") and not ref.name.startswith("__")
        if private and names != rnames and len(names) == len(rnames) and \
                [p[1] for p in f.call_params()] == [p[1] for p in ref.call_params()]:
            args = {n: mk("param", r) for n, r in zip(names, rnames)}
        if private:
            facets = [x for x in facets if x != "signature"]
        inline = set(self.reshaped())
        extra = self.extra_params(f, ref)
        if extra:
            args = dict(args or {})
            for n, d in extra:
                v = self.content(self.impl, f.module, d)
                args[n] = v if v.tag != "ref" else mk("unk", "container")
        last = None
        todo, tried = [frozenset(inline)], set()
        while todo and len(tried) < ROUNDS:
            inline = todo.pop(0)
            if inline in tried:
                continue
            tried.add(inline)
            a = self.behave(self.impl, f, cls, inline, args)
            b = self.behave(self.ref, ref, ref.cls, inline)
            a.dropped = {n for n, _ in extra}
            d, gave_up = diff2(a, b, facets)
            if not d:
                return Verdict("function", q, f.where, "holds", (), facets)
            unknown = gave_up or a.exhausted or b.exhausted or self.unknowns(d)
            if last is None or not unknown:
                last = Verdict("function", q, f.where, "undecided" if unknown else "violated", d, facets)
            x, y = self.mentions(a), self.mentions(b)
            for more in ((x - y) - inline, (x ^ y) - inline, (y - x) - inline):
                if more:
                    todo.append(inline | more)
        return last

    @staticmethod
    def extra_params(f, ref):
        """ Optional parameters the current function has beyond the model's: a caller of the model's interface leaves
        them to their default. """
        a, b = f.call_params(), ref.call_params()
        known = {p[0] for p in b}
        pos = [p for p in a if p[1] == "pos"]
        tail = set()
        for p in reversed(pos):
            if p[0] in known or p[2] is None:
                break
            tail.add(p[0])
        if any(p[0] not in known and p[1] in ("vararg", "kwarg") for p in a) or len(a) <= len(b):
            return []
        return [(p[0], p[2]) for p in a if p[0] not in known and p[2] is not None and
                (p[1] == "kwonly" or p[0] in tail)]

    def reshaped(self):
        """ Private functions whose parameters are not the model's: seen through rather than compared by call. """
        if self._reshaped is None:
            self._reshaped = set()
            for q, r in self.ref.funcs.items():
                if not r.name.startswith("_") or r.name.startswith("__"):
                    continue
                f = self.impl.funcs.get(q)
                if f is not None and [p[:2] for p in f.call_params()] != [p[:2] for p in r.call_params()]:
                    self._reshaped.add(f.short if f.cls is not None else q)
        return self._reshaped

    def unknowns(self, d):
        """ The implementation contains something the analysis does not understand and the model does not have. """
        got, want = set(), set()
        for _, x, y in d:
            for t, acc in ((x, got), (y, want)):
                if t is not None:
                    acc |= {s for s in subterms(t if isinstance(t, (T, tuple)) else ()) if s.tag in UNKNOWN}
        return bool(got - want)

    def mentions(self, b):
        terms = set(subterms(b.value))
        for (base, _), v in b.over.items():
            terms |= subterms(v) | subterms(base)
        for e in b.effects:
            for t in e[1:]:
                if isinstance(t, (T, tuple)):
                    terms |= subterms(t)
        out = set()
        prog = b.summary.flow.p
        for t in terms:
            if t.tag == "call" and isinstance(t.a[0], str) and t.a[0].startswith("func:"):
                q = t.a[0][5:]
                f = prog.funcs.get(q)
                if f is not None:
                    out.add(f.short if f.cls is not None else q)
            elif t.tag == "mcall":
                c = prog.method_index.get(t.a[1], [])
                if len(c) == 1 or t.a[1].startswith("_") and c:
                    out.add(t.a[1])
                elif len(c) <= 6:
                    out |= {f.short for f in c}
            elif t.tag == "global":
                out.add(t.a[0])
            elif t.tag == "attr" and isinstance(t.a[1], str):
                if any(f.is_property for f in prog.method_index.get(t.a[1], [])):
                    out.add(t.a[1])
        return out

    # -- classes and tables ----------------------------------------------------------------------------------------
    def content(self, prog, module, node):
        flow = Flow(prog, budget=self.budget)
        flow.events, flow.order, flow.budget, flow.stack, flow.while_ids = [], 0, self.budget, [], {}
        flow.oid, flow.mute, flow.exhausted, flow.expanding, flow.types = 0, 1, False, [], {}
        fr = Frame(Func(module, ast.parse("def _g(): pass").body[0]), None)
        st = State({}, {}, {}, ())
        return Canon(flow)(flow.freeze(flow.ev(node, st, fr), st))

    def table(self, q):
        """ A module constant, dotted name. """
        mod, _, name = q.rpartition(".")
        rm, im = self.ref.modules[mod], self.impl.modules.get(mod)
        rs = rm.symbols[name]
        r = self.impl.resolve(im, name) if im is not None else None
        if r is None:
            return Verdict("table", q, rm.rel, "violated", [("missing", None, None)])
        want = self.content(self.ref, rm, rs[1])
        if r[0] != "const":
            got = mk("ext", str(r[1]))
            where = im.rel
        else:
            got = self.content(self.impl, r[1], r[2])
            where = f"{r[1].rel}:{r[2].lineno}"
        return self.compare("table", q, where, got, want)

    def tables(self, patterns):
        """ Module constants of the model matching dotted globs (without the package prefix). """
        out = []
        for m in self.ref.modules.values():
            for n, s in m.symbols.items():
                if s[0] == "const":
                    q = f"{m.name}.{n}"
                    if any(fnmatch.fnmatchcase(q, f"{self.ref.package}.{p}") for p in patterns):
                        out.append(q)
        return out

    def compare(self, kind, name, where, got, want):
        eq = Equiv()
        if eq(got, want):
            return Verdict(kind, name, where, "holds")
        d = [("content", got, want)]
        return Verdict(kind, name, where, "undecided" if self.unknowns(d) or eq.gave_up else "violated", d)

    def klass(self, q, attrs=None):
        """ Base classes and class-level attributes of a class. """
        rc, ic = self.ref.classes[q], self.impl.classes.get(q)
        if ic is None:
            return [Verdict("class", q, rc.where, "violated", [("missing", None, None)])]
        out = []
        for c in [b for b in rc.mro()[1:]]:
            k = self.impl.classes.get(c.qual)
            ok = k is not None and ic.is_subclass(k)
            out.append(Verdict("base", f"{q} < {c.name}", ic.where, "holds" if ok else "violated",
                               [] if ok else [("missing base", None, mk("class", c.qual))]))
        for n in (attrs if attrs is not None else rc.attrs):
            if n not in rc.attrs:
                continue
            owner, node = ic.find_attr(n)
            if node is None:
                out.append(Verdict("attribute", f"{q}.{n}", ic.where, "violated", [("missing", None, None)]))
                continue
            out.append(self.compare("attribute", f"{q}.{n}", f"{owner.module.rel}:{node.lineno}",
                                    self.content(self.impl, owner.module, node),
                                    self.content(self.ref, rc.module, rc.attrs[n])))
        return out

    def decorators(self, q):
        """ Decorators of a method (static/class/property and display/export declarations). """
        ref = self.ref.funcs[q]
        f, _ = self.locate(q)
        if f is None or not ref.node.decorator_list and not f.node.decorator_list:
            return None
        got = tuple(self.content(self.impl, f.module, d) for d in f.node.decorator_list)
        want = tuple(self.content(self.ref, ref.module, d) for d in ref.node.decorator_list)
        return self.compare("decorators", q, f.where, mk("tuple", got), mk("tuple", want))


def diff2(a, b, facets):
    """ diff and whether the comparison gave up somewhere. """
    import sa.behave as sb
    made = []
    orig = sb.Equiv

    class Probe(orig):
        def __init__(self, assume=()):
            super().__init__(assume)
            made.append(self)
    sb.Equiv = Probe
    try:
        d = diff(a, b, facets)
    finally:
        sb.Equiv = orig
    return d, any(e.gave_up for e in made)


def describe(d, width=400):
    """ One line per difference. """
    out = []
    for facet, got, want in d:
        g = show(got)[:width] if got is not None else "-"
        w = show(want)[:width] if want is not None else "-"
        out.append(f"{facet}: got {g} | expected {w}")
    return out
