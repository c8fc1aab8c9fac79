""" Interned value terms, boolean normalisation and term queries. """


class T:
    """ Interned term: identity is structural equality. """

    __slots__ = ("tag", "a", "_leaves", "_size", "_n", "_neg")
    _table = {}

    def __hash__(self):     # creation order: analyses are deterministic
        return self._n

    def __repr__(self):
        return show(self)


def mk(tag, *a):
    """ Build (or find) a term. """
    key = (tag, a)
    t = T._table.get(key)
    if t is None:
        t = T()
        t.tag, t.a = tag, a
        t._leaves = None
        t._size = None
        t._n = len(T._table) * 2654435761 % 4294967291
        t._neg = None
        T._table[key] = t
    return t


def const(v):
    """ Constant. """
    return mk("const", type(v).__name__, v)


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_const(t, v=Ellipsis):
    """ Constant (with the given value). """
    if not isinstance(t, T) or t.tag != "const":
        return False
    return v is Ellipsis or (t.a[1] == v and t.a[0] == type(v).__name__)


def attr(base, name):
    return mk("attr", base, name)


def item(base, key):
    return mk("item", base, key)


def param(name):
    return mk("param", name)


# -- booleans -------------------------------------------------------------------------------------------------------
def neg(c):
    """ Negation in normal form. """
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.tag == "not":
        return c.a[0]
    if c._neg is None:
        if c.tag == "and":
            c._neg = disj(*[neg(x) for x in c.a[0]])
        elif c.tag == "or":
            c._neg = conj(*[neg(x) for x in c.a[0]])
        else:
            c._neg = mk("not", c)
    return c._neg


def conj(*cs):
    """ Conjunction. """
    out = set()
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.tag == "and":
            out |= set(c.a[0])
        else:
            out.add(c)
    for c in out:
        if neg(c) in out:
            return FALSE
    # unit propagation into disjunctions: a & (~a | b) = a & b ; a & (a | b) = a
    changed = True
    while changed:
        changed = False
        for c in list(out):
            if c.tag == "or":
                ops = set(c.a[0])
                if ops & (out - {c}):
                    out.discard(c)
                    changed = True
                    break
                dead = {o for o in ops if neg(o) in out}
                if dead:
                    out.discard(c)
                    r = disj(*(ops - dead))
                    if r is FALSE:
                        return FALSE
                    if r.tag == "and":
                        out |= set(r.a[0])
                    elif r is not TRUE:
                        out.add(r)
                    changed = True
                    break
    for c in out:
        if neg(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk("and", frozenset(out))


def disj(*cs):
    """ Disjunction with absorption. """
    out = set()
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.tag == "or":
            out |= set(c.a[0])
        else:
            out.add(c)
    for c in out:
        if neg(c) in out:
            return TRUE
    changed = True
    rounds = 0
    while changed and rounds < 30:
        changed = False
        rounds += 1
        for c in list(out):
            if c.tag == "and":
                ops = set(c.a[0])
                rest = out - {c}
                if ops & rest:
                    out.discard(c)
                    changed = True
                    break
                dead = {o for o in ops if neg(o) in rest}
                if dead:
                    out.discard(c)
                    r = conj(*(ops - dead))
                    if r is TRUE:
                        return TRUE
                    if r.tag == "or":
                        out |= set(r.a[0])
                    else:
                        out.add(r)
                    changed = True
                    break
        if not changed:
            # resolution of and-pairs differing by one complementary literal
            ands = [c for c in out]
            done = False
            for i, x in enumerate(ands):
                xs = set(x.a[0]) if x.tag == "and" else {x}
                for y in ands[i + 1:]:
                    ys = set(y.a[0]) if y.tag == "and" else {y}
                    dx, dy = xs - ys, ys - xs
                    if len(dx) == 1 and len(dy) == 1 and neg(next(iter(dx))) is next(iter(dy)):
                        out.discard(x)
                        out.discard(y)
                        r = conj(*(xs & ys))
                        if r is TRUE:
                            return TRUE
                        out.add(r)
                        done = True
                        break
                    if xs < ys:
                        out.discard(y)
                        done = True
                        break
                    if ys < xs:
                        out.discard(x)
                        done = True
                        break
                if done:
                    break
            changed = done
    for c in out:
        if neg(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk("or", frozenset(out))


def guards_cond(guards):
    """ Condition equivalent to "some iteration passes these guards". """
    rest = TRUE
    for g in reversed(guards):
        if g.tag == "foreach":
            rest = exists(g, rest)
        else:
            rest = conj(g, rest)
    return rest


def exists(foreach, cond):
    if cond is FALSE:
        return FALSE
    return member(foreach.a[0], foreach.a[1], cond) or mk("exists", foreach.a[0], foreach.a[1], cond)


def member(coll, k, cond):
    """ Some element equal to x: x is in the collection. """
    if cond.tag == "cmp" and cond.a[0] == "==":
        el = mk("elem", coll, k)
        for x, y in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
            if x is el and not any(z.tag in ("elem", "idx") and z.a[0] is coll and z.a[1] == k for z in subterms(y)):
                return mk("cmp", "in", y, coll)
    return None


def guard_lits(guards):
    """ Flatten a guard tuple into a set of literals. """
    out = set()
    for g in guards:
        if g.tag == "and":
            out |= guard_lits(tuple(g.a[0]))
        else:
            out.add(g)
    return out


def norm_guards(guards):
    """ Dedupe, flatten ands, keep order; None if contradictory. """
    out = []
    seen = set()
    def add(g):
        if g is TRUE or g in seen:
            return True
        if g is FALSE:
            return False
        if g.tag == "and":
            return all(add(x) for x in sorted(g.a[0], key=show))
        if g.tag == "or":
            ops = set(g.a[0])
            if ops & seen:
                return True
            live = [o for o in ops if neg(o) not in seen]
            if not live:
                return False
            if len(live) < len(ops):
                return add(disj(*live))
        if neg(g) in seen:
            return False
        seen.add(g)
        out.append(g)
        return True
    for g in guards:
        if not add(g):
            return None
    return tuple(out)


# -- phi -------------------------------------------------------------------------------------------------------------
MAXPHI = 24


def phi(alts):
    """ Guarded choice [(guards, value)]. """
    flat = []
    for g, v in alts:
        if isinstance(v, T) and v.tag == "phi":
            for g2, v2 in v.a[0]:
                gg = norm_guards(tuple(g) + tuple(g2))
                if gg is not None:
                    flat.append((gg, v2))
        else:
            gg = norm_guards(tuple(g))
            if gg is not None:
                flat.append((gg, v))
    if not flat:
        return mk("unk", "nopath")
    groups = {}
    for g, v in flat:
        groups.setdefault(v, []).append(g)
    if len(groups) == 1:
        v, gs = next(iter(groups.items()))
        if len(gs) == 1 and any(x.tag == "foreach" and iterates(v, x) for x in gs[0]) and \
                any(x.tag != "foreach" for x in gs[0]):
            return mk("phi", ((gs[0], v),))     # the first element that satisfies the conditions
        return v
    out = []
    for v, gs in groups.items():
        if len(gs) == 1:
            out.append((gs[0], v))
        else:
            qs, rest = [], []
            for g in gs:
                fes = [x for x in g if x.tag == "foreach"]
                if not fes:
                    qs.append(g)
                elif any(iterates(v, x) for x in fes):
                    rest.append(g)
                else:
                    qs.append((quantify(g),))
            if rest:
                out.extend((g, v) for g in rest)
                if len(qs) < 2:
                    out.extend((g, v) for g in qs)
                    continue
            gs = qs
            if len(gs) <= 16:
                d = disj(*[conj(*g) for g in gs])
                g = norm_guards((d,)) if d is not TRUE else ()
                out.append((g if g is not None else (), v))
            else:
                common = [x for x in gs[0] if all(x in g for g in gs)]
                out.append((tuple(common), v))
    if len(out) > MAXPHI:
        out = [((), v) for _, v in out]
    return mk("phi", tuple(out))


def iterates(t, fe):
    """ t depends on the iteration fe. """
    return any(x.tag in ("elem", "idx") and x.a[0] is fe.a[0] and x.a[1] == fe.a[1] for x in subterms(t)) or \
        fe in subterms(t)


def quantify(guards):
    """ Existential condition of a guard tuple, conditions at the outermost position where they make sense. """
    fes = [g for g in guards if g.tag == "foreach"]
    conds = [g for g in guards if g.tag != "foreach"]
    acc = TRUE
    for fe in reversed(fes):
        inner = [c for c in conds if iterates(c, fe)]
        conds = [c for c in conds if not iterates(c, fe)]
        dep, ind = [], []
        for x in (list(acc.a[0]) if acc.tag == "and" else [acc]):
            (dep if iterates(x, fe) else ind).append(x)
        body = conj(*(inner + dep))
        acc = conj(*(ind + [mk("truth", fe.a[0]) if body is TRUE else
                             member(fe.a[0], fe.a[1], body) or mk("exists", fe.a[0], fe.a[1], body)]))
    return conj(*(conds + [acc]))


def alts(t):
    """ [(guards, value)] of a value. """
    if isinstance(t, T) and t.tag == "phi":
        return list(t.a[0])
    return [((), t)]


# -- queries ---------------------------------------------------------------------------------------------------------
def children(x):
    """ Direct sub-terms. """
    if isinstance(x, T):
        for a in x.a:
            yield from _kids(a)


def _kids(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, (tuple, frozenset, list)):
        for b in a:
            yield from _kids(b)


def subterms(t, into=None, prune=None):
    """ All sub-terms (each once). """
    seen = set()
    todo = [t] if isinstance(t, T) else list(_kids(t))
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if prune is not None and prune(x):
            continue
        todo.extend(children(x))
    return seen


def contains(t, sub):
    """ sub occurs in t. """
    return sub in subterms(t)


def size(t):
    """ DAG size, capped. """
    return len(subterms(t))


def value_leaves(t):
    """ Access-path roots occurring in a term: maximal attr/item chains. """
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.tag in ("attr", "item", "param", "global", "elem", "slice"):
            out.add(x)
        for c in children(x):
            go(c)
    if isinstance(t, T):
        go(t)
    else:
        for k in _kids(t):
            go(k)
    return out


def subst(t, mapping, _memo=None):
    """ Replace sub-terms. """
    memo = {} if _memo is None else _memo

    def go(x):
        if isinstance(x, T):
            if x in mapping:
                return mapping[x]
            if x in memo:
                return memo[x]
            na = tuple(go(a) for a in x.a)
            if na == x.a:
                r = x
            elif x.tag == "phi":
                r = phi([(g, v) for g, v in na[0]])
            elif x.tag == "and":
                r = conj(*na[0])
            elif x.tag == "or":
                r = disj(*na[0])
            elif x.tag == "not":
                r = neg(na[0])
            elif x.tag in ("list", "dict", "set"):
                es = [(norm_guards(e[0]),) + tuple(e[1:]) for e in na[0]]
                r = mk(x.tag, tuple(e for e in es if e[0] is not None))
            else:
                r = mk(x.tag, *na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if isinstance(x, frozenset):
            return frozenset(go(a) for a in x)
        return x
    return go(t)


def narrow(t, mapping, loops=True):
    """ Replace sub-terms, but not inside what binds the element they are about anew, nor inside loops when told. """
    memos = {}

    def entry(e, known):
        fes = [x for x in e[0] if isinstance(x, T) and x.tag == "foreach"]
        return tuple(go(a, without(known, fes)) for a in e)

    def without(known, fes):
        drop = {k for k in known if any(iterates(k, fe) for fe in fes)} if fes else ()
        return frozenset(known - drop) if drop else known

    def go(x, known):
        if not known:
            return x
        if isinstance(x, T):
            if x in known:
                return mapping[x]
            memo = memos.setdefault(known, {})
            if x in memo:
                return memo[x]
            if x.tag == "fix" and not loops:
                r = x
            elif x.tag == "phi":
                es = tuple(entry(e, known) for e in x.a[0])
                r = x if es == x.a[0] else phi(list(es))
            elif x.tag in ("list", "dict", "set"):
                es = tuple(entry(e, known) for e in x.a[0])
                if es == x.a[0]:
                    r = x
                else:
                    es = [(norm_guards(e[0]),) + tuple(e[1:]) for e in es]
                    r = mk(x.tag, tuple(e for e in es if e[0] is not None))
            elif x.tag == "exists":
                inner = without(known, [mk("foreach", x.a[0], x.a[1])])
                r = quantify((mk("foreach", go(x.a[0], known), x.a[1]), go(x.a[2], inner)))
            else:
                fes = x.a[0] if x.tag == "fix" else [y for y in x.a if isinstance(y, T) and y.tag == "foreach"]
                inner = without(known, fes) if x.tag in ("partial", "fix") else known
                na = tuple(go(a, inner) for a in x.a)
                if na == x.a:
                    r = x
                elif x.tag == "and":
                    r = conj(*na[0])
                elif x.tag == "or":
                    r = disj(*na[0])
                elif x.tag == "not":
                    r = neg(na[0])
                else:
                    r = mk(x.tag, *na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a, known) for a in x)
        if isinstance(x, frozenset):
            return frozenset(go(a, known) for a in x)
        return x
    return go(t, frozenset(mapping))


# -- printing --------------------------------------------------------------------------------------------------------
def show(t, depth=0):
    """ Readable form. """
    if depth > 14:
        return "..."
    d = depth + 1
    if not isinstance(t, T):
        if isinstance(t, (tuple, list)):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(show(x, d) for x in t)) + "}"
        return repr(t) if not isinstance(t, str) else t
    tag, a = t.tag, t.a
    if tag == "const":
        return repr(a[1])
    if tag == "param":
        return a[0]
    if tag == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if tag == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if tag == "elem":
        return f"elem{a[1] or ''}({show(a[0], d)})"
    if tag == "idx":
        return f"idx{a[1] or ''}({show(a[0], d)})"
    if tag == "foreach":
        return f"foreach{a[1] or ''}({show(a[0], d)})"
    if tag in ("class", "func", "module", "ext", "global"):
        return a[0].split(".")[-1] if tag in ("class", "func") else a[0]
    if tag == "classof":
        return f"type({show(a[0], d)})"
    if tag == "phi":
        return "phi<" + " | ".join((("[" + " & ".join(show(x, d) for x in g) + "] ") if g else "") + show(v, d)
                                   for g, v in a[0]) + ">"
    if tag == "not":
        return f"!{show(a[0], d)}"
    if tag == "and":
        return "(" + " & ".join(sorted(show(x, d) for x in a[0])) + ")"
    if tag == "or":
        return "(" + " | ".join(sorted(show(x, d) for x in a[0])) + ")"
    if tag == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if tag == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if tag == "exists":
        return f"exists{a[1] or ''} in {show(a[0], d)}: {show(a[2], d)}"
    if tag == "truth":
        return f"?{show(a[0], d)}"
    if tag == "call":
        return f"{a[0].split(':')[-1]}({', '.join(_kv(x, d) for x in a[1])})"
    if tag == "mcall":
        return f"{show(a[0], d)}.{a[1]}({', '.join(_kv(x, d) for x in a[2])})"
    if tag == "vcall":
        return f"({show(a[0], d)})({', '.join(_kv(x, d) for x in a[1])})"
    if tag == "new":
        return f"new {show(a[0], d)}({', '.join(_kv(x, d) for x in a[1])})"
    if tag in ("list", "set"):
        o, c = ("[", "]") if tag == "list" else ("{", "}")
        return o + ", ".join(_entry(e, d) for e in a[0]) + c
    if tag == "tuple":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ",)"
    if tag == "dict":
        return "{" + ", ".join(_dentry(e, d) for e in a[0]) + "}"
    if tag == "str":
        return "f'" + "".join(p if isinstance(p, str) else "{" + show(p[1], d) + "}" for p in a[0]) + "'"
    return f"{tag}({', '.join(show(x, d) for x in a)})"


def _kv(x, d):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
        return show(x[1], d) if x[0].isdigit() else f"{x[0]}={show(x[1], d)}"
    return show(x, d)


def _g(g, d):
    return ("[" + " & ".join(show(x, d) for x in g) + "] ") if g else ""


def _entry(e, d):
    g, kind, v = e[0], e[1], mk("tuple", tuple(e[2:])) if len(e) > 3 else e[2]
    return _g(g, d) + ("*" if kind == "splat" else "") + show(v, d)


def _dentry(e, d):
    g, kind, k, v = e
    if kind == "splat":
        return _g(g, d) + "**" + show(v, d)
    if kind == "del":
        return _g(g, d) + "del " + show(k, d)
    return _g(g, d) + f"{show(k, d)}: {show(v, d)}"
