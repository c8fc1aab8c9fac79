""" Behaviour of a function as a comparable value: returned term, attribute results, effects, raised errors.

Two functions with equal behaviours compute the same thing on every input as far as the value-flow abstraction sees:
guards are compared as propositional formulas, loops as element-wise maps, dict and set entries without order. """
import ast

from sa.terms import (T, mk, const, TRUE, FALSE, NONE, is_const, neg, conj, disj, guards_cond, norm_guards, phi, alts,
                      show, subterms, subst, narrow, iterates, quantify)
from sa.flow import Frame, State, Flow, is_cut, FAILING

PURE_EXT = {"len", "str", "int", "float", "bool", "list", "dict", "tuple", "set", "isinstance", "hasattr", "getattr",
            "type", "min", "max", "sum", "sorted", "any", "all", "zip", "range", "enumerate", "repr", "abs", "round",
            "callable", "issubclass", "iter", "id", "hash", "map", "filter", "reversed", "frozenset", "time.time",
            "datetime.datetime.now", "time.gmtime", "time.strftime"}
PURE_METHODS = {"items", "keys", "values", "get", "copy", "split", "join", "strip", "lower", "upper", "startswith",
                "endswith", "format", "replace", "index", "count", "encode", "decode", "rstrip", "lstrip", "title",
                "capitalize", "splitlines", "issubset", "union", "intersection", "difference", "isdigit"}
ASKED = {"builtin:" + x for x in FAILING}
LOG = ("warnings.warn", "print", "logging", "time.sleep")


class Canon:
    """ Canonical terms of one analysed function. """

    def __init__(self, flow):
        self.flow = flow
        self.memo = {}
        self.lam = {}
        self.depth = 0

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if isinstance(t, frozenset):
            return frozenset(self(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.one(t)
        return r

    def one(self, t):
        tag = t.tag
        if tag == "closure":
            return self.closure(t)
        if tag == "phi":
            pairs = []
            for g, v in t.a[0]:
                g, v = self(g), self(v)
                fes = [x for x in g if x.tag == "foreach"]
                if fes and not any(iterates(v, x) for x in fes):
                    q = quantify(g)
                    g = tuple(norm_guards((q,)) or ()) if q is not FALSE else (FALSE,)
                v = given(g, v)
                if v.tag in ("cmp", "not", "and", "or", "exists", "isinst"):
                    pairs += [(g + (v,), TRUE), (g + (neg(v),), FALSE)]
                else:
                    pairs.append((g, v))
            out = phi([first_match(g, v) for g, v in overrides(pairs)])
            if out.tag == "phi":
                out = one_container(out)
            if out.tag != "phi":
                return out
            return mk("phi", tuple(sorted(((self.guards(g), v) for g, v in out.a[0]), key=show)))
        if tag == "and":
            return conj(*self(t.a[0]))
        if tag == "or":
            return disj(*self(t.a[0]))
        if tag == "not":
            return neg(self(t.a[0]))
        if tag == "exists":
            return quantify((mk("foreach", self(t.a[0]), t.a[1]), self(t.a[2])))
        if tag == "except":
            return mk("except", t.a[0])
        if tag == "dict":
            es = self.contents(t.a[0])
            return mk("dict", tuple(dict_order(merge_keys(without(rewritten(
                [x for i, e in enumerate(es) for x in (kept(e) if i == 0 else None) or [whole(e)]]))))))
        if tag == "set":
            es = self.contents(t.a[0])
            if len(es) == 1 and es[0][1] == "splat" and not es[0][0] and es[0][2].tag == "bin" and \
                    es[0][2].a[0] in ("-", "&") and es[0][2].a[1].tag == "set":
                return es[0][2]
            out, run = [], []
            for e in splat(es):
                if e[1] == "op":
                    out += sorted(set(run), key=show) + [e]
                    run = []
                else:
                    run.append(e)
            return mk("set", tuple(out + sorted(set(run), key=show)))
        if tag == "list":
            es = self.contents(t.a[0])
            return mk("list", tuple(alike(commute(branches(splat(es))))))
        if tag == "cmp":
            a, b = self(t.a[1]), self(t.a[2])
            if t.a[0] in ("==", "is") and show(b) < show(a):
                a, b = b, a
            return self.sizes(t.a[0], a, b) or mk("cmp", t.a[0], a, b)
        if tag == "truth":
            return inhabited(self(t.a[0]))
        if tag == "bin":
            return self.binary(t.a[0], self(t.a[1]), self(t.a[2]))
        na = tuple(self(a) for a in t.a)
        if tag == "item" and is_const(na[1], 0) and na[0].tag == "list" and len(na[0].a[0]) == 1:
            e = na[0].a[0][0]
            if e[1] == "item" and e[0] and e[0][0].tag == "foreach":
                return sort_phi(phi([(e[0], e[2])]))
        if tag in ("str", "join"):
            t = text(tag, na)
            if t.tag == "phi":
                return sort_phi(phi([(g, self.bare(v)) for g, v in t.a[0]]))
            return self.bare(t)
        if tag == "idx" and na[0].tag == "list" and len(na[0].a[0]) == 1:
            # the position among selected elements is the number of those selected before
            e = na[0].a[0][0]
            if e[1] == "item" and e[0] and [x.tag for x in e[0]].count("foreach") == 1 and e[0][0].tag == "foreach":
                return mk("partial", const(0), e[0][0], mk("list", ((e[0], "item", const(1)),)))
        if tag == "partial" and na[0].tag == "const" and na[0].a[0] == "int" and na[0].a[1] and \
                na[2].tag == "list" and all(e[1] == "item" and is_const(e[2], 1) for e in na[2].a[0]):
            return self.binary("+", na[0], mk("partial", const(0), *na[1:]))
        if tag == "call" and na[0] in ("builtin:max", "builtin:min") and [k for k, _ in na[1]] == ["0", "1"]:
            return mk("call", na[0], tuple((str(i), v) for i, v in enumerate(sorted((v for _, v in na[1]), key=show))))
        if tag == "call" and na[0] in ("builtin:len", "builtin:sum") and len(na[1]) == 1:
            v = na[1][0][1]
            if v.tag != "list" and v.tag not in ("phi", "dict", "set", "tuple") and na[0] == "builtin:sum":
                v = mk("list", tuple(splat([((), "splat", v)])))
            if v.tag == "list" and na[0] == "builtin:sum":
                v = mk("list", tuple(sorted(exclusive_items(v.a[0]), key=show)))
                if len(v.a[0]) == 1 and is_const(v.a[0][0][2], 1) and len(v.a[0][0][0]) == 1 and \
                        v.a[0][0][0][0].tag == "foreach":
                    return mk("call", "builtin:len", (("0", v.a[0][0][0][0].a[0]),))
                if all(e[1] == "item" and is_const(e[2], 1) for e in v.a[0]):
                    return mk("call", "builtin:len", (("0", v),))
                return mk("call", na[0], (("0", v),))
            if v.tag == "list" and len(v.a[0]) == 1 and v.a[0][0][1] == "item" and len(v.a[0][0][0]) == 1 and \
                    v.a[0][0][0][0].tag == "foreach":
                return mk("call", "builtin:len", (("0", v.a[0][0][0][0].a[0]),))
            if v.tag == "list" and all(e[1] in ("item", "front") for e in v.a[0]):
                v = mk("list", tuple(sorted(((e[0], "item", const(1)) for e in v.a[0]), key=show)))
                return mk("call", na[0], (("0", v),))
        return mk(tag, *na)

    def bare(self, t):
        """ A text that only holds a text. """
        if t.tag == "str" and len(t.a[0]) == 1 and isinstance(t.a[0][0], tuple) and not t.a[0][0][2] and \
                self.flow.is_text(t.a[0][0][1]):
            return t.a[0][0][1]
        return t

    def contents(self, entries):
        out = []
        for e in entries:
            g = self.guards(self(e[0]))
            out.append((g, e[1]) + tuple(given(g, self(x)) for x in e[2:]))
        return out

    @staticmethod
    def sizes(op, a, b):
        """ Comparisons of a length with a number, as "at least k elements". """
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.tag == "call" and x.a[0] == "builtin:len" and len(x.a[1]) == 1 and y.tag == "const" and \
                    y.a[0] == "int":
                k, v = y.a[1], x.a[1][0][1]
                if op == "==":
                    return conj(at_least(v, k), neg(at_least(v, k + 1))) if k >= 0 else FALSE
                if op == "<":
                    return neg(at_least(v, k)) if left else at_least(v, k + 1)
        return None

    def binary(self, op, a, b):
        """ An operation on a choice is a choice of operations. """
        for i, x in enumerate((a, b)):
            if x.tag == "phi" and len(x.a[0]) <= 6 and not any(y.tag == "foreach" for g, _ in x.a[0] for y in g):
                return sort_phi(phi([(g, self.binary(op, v, b) if i == 0 else self.binary(op, a, v))
                                     for g, v in x.a[0]]))
        if op in ("+", "-"):
            return linear(op, a, b)
        if op in ("&", "|"):
            a, b = sorted((a, b), key=show)
        return mk("bin", op, a, b)

    @staticmethod
    def guards(g):
        """ Foreach guards keep their order, conditions are a set. """
        fe = [x for x in g if x.tag == "foreach"]
        cs = {x for x in g if x.tag != "foreach"}
        for c in [c for c in cs if c.tag == "exists"]:
            # a condition that holds for this element holds for some element
            body = set(c.a[2].a[0]) if c.a[2].tag == "and" else {c.a[2]}
            if body <= cs and any(x.a == c.a[:2] for x in fe):
                cs.discard(c)
        for c in [c for c in cs if c.tag == "or"]:
            for e in c.a[0]:
                if e.tag == "exists" and any(x.a == e.a[:2] for x in fe) and \
                        (set(e.a[2].a[0]) if e.a[2].tag == "and" else {e.a[2]}) <= cs:
                    cs.discard(c)
                    break
        for x in fe:
            # something iterated over is there and not empty
            none = mk("cmp", "is", *sorted((NONE, x.a[0]), key=show))
            known = {mk("truth", x.a[0]), neg(none), neg(mk("cmp", "==", *sorted((NONE, x.a[0]), key=show)))}
            if any(known & (set(c.a[0]) if c.tag in ("and", "or") else {c}) or
                   {neg(k) for k in known} & (set(c.a[0]) if c.tag in ("and", "or") else {c}) for c in cs):
                out = conj(*[subst(c, {**{k: TRUE for k in known if k.tag != "not"},
                                       **{neg(k): FALSE for k in known if k.tag == "not"}}) for c in cs])
                cs = set(norm_guards((out,)) or (FALSE,)) if out is not TRUE else set()
        return tuple(fe + sorted(cs, key=show))

    def closure(self, t):
        """ An escaping function value: its behaviour over symbolic arguments. """
        cid = t.a[0]
        if cid in self.lam:
            return self.lam[cid]
        self.lam[cid] = mk("lam", "rec")
        flow = self.flow
        f, defstate, penv, dframe = flow.closures[cid]
        if self.depth > 2:
            return self.lam[cid]
        self.depth += 1
        env, params = {}, f.params()
        for i, p in enumerate(params):
            env[p[0]] = mk("lamvar", self.depth, i)
        parent = dict(penv)
        parent.update(defstate.env)
        saved = flow.events, flow.stack, flow.mute
        flow.events, flow.stack, flow.mute = [], [f.node], 0
        try:
            fr = Frame(f, dframe.cls_exact, parent_env=parent, self_term=dframe.self_term)
            v, out = flow.run_frame(fr, State(env, dict(defstate.heap), dict(defstate.over), ()))
            body = flow.freeze(v, out) if out is not None else mk("unk", "noreturn")
            evs = tuple(sorted({(e.kind, tuple(e.pc), e.term, e.extra) for e in flow.events
                                if e.kind in ("raise", "setattr", "mutate", "call")}, key=show))
        except Exception as e:      # the closure cannot be summarised
            if type(e).__name__ != "Budget":
                raise
            body, evs = mk("unk", "budget"), ()
        finally:
            flow.events, flow.stack, flow.mute = saved
        r = mk("lam", len(params), self(body), self(evs))
        self.depth -= 1
        self.lam[cid] = r
        return r


def joined(ents, new, rel=()):
    return list(Flow.joined(None, ents, new, rel))


def text(tag, na):
    """ Concatenations with joined parts are one joined list. """
    if tag == "str":
        for i, p in enumerate(na[0]):
            if isinstance(p, tuple) and p[1].tag == "phi" and not p[2] and len(p[1].a[0]) <= 4 and \
                    any(v.tag in ("str", "const", "join") for _, v in p[1].a[0]) and \
                    not any(y.tag == "foreach" for g, _ in p[1].a[0] for y in g):
                out = []
                for g, v in p[1].a[0]:
                    put = (v.a[1],) if v.tag == "const" and isinstance(v.a[1], str) else \
                        v.a[0] if v.tag == "str" else ((p[0], v, p[2]),)
                    out.append((g, given(g, text("str", (glue(na[0][:i] + put + na[0][i + 1:]),)))))
                return sort_phi(phi(out))
        if len(na[0]) == 1 and isinstance(na[0][0], str):
            return const(na[0][0])
    if tag == "str" and any(isinstance(p, tuple) and p[1].tag == "join" and is_const(p[1].a[0], "") and not p[2]
                            for p in na[0]):
        es = []
        for p in na[0]:
            if isinstance(p, str):
                es.append(((), "item", const(p)))
            elif p[1].tag == "join" and is_const(p[1].a[0], "") and not p[2] and p[1].a[1].tag == "list":
                es = joined(es, p[1].a[1].a[0])
            else:
                es.append(((), "item", p[1] if not p[2] else mk("str", (p,))))
        return text("join", (const(""), mk("list", tuple(es))))
    if tag == "join" and is_const(na[0], "") and na[1].tag == "list":
        cut = separated(na[1].a[0])
        if cut is not None:
            return mk("join", cut[0], mk("list", tuple(cut[1])))
        flat = []
        for e in na[1].a[0]:
            if e[1] == "item" and e[2].tag == "join" and is_const(e[2].a[0], "") and e[2].a[1].tag == "list" and \
                    not any(x[1] == "op" and not is_cut(x) for x in e[2].a[1].a[0]):
                flat = joined(flat, [(Canon.guards(tuple(e[0]) + tuple(x[0])),) + tuple(x[1:])
                                     for x in e[2].a[1].a[0]], e[0])
            else:
                flat.append(e)
        es = []
        for e in flat:
            parts = None
            if e[1] == "item":
                v = e[2]
                parts = v.a[0] if v.tag == "str" else (v.a[1],) if v.tag == "const" and isinstance(v.a[1], str) else \
                    (("hole", v, ""),)
            if parts is not None and es and es[-1][1] == "parts" and es[-1][0] == tuple(e[0]):
                es[-1] = (tuple(e[0]), "parts", es[-1][2] + parts)
            else:
                es.append((tuple(e[0]), "parts", parts) if parts is not None else e)
        out = []
        for e in es:
            if e[1] == "parts":
                merged = []
                for p in e[2]:
                    if isinstance(p, str) and merged and isinstance(merged[-1], str):
                        merged[-1] += p
                    elif p != "":
                        merged.append(p)
                if not merged:
                    continue
                e = (e[0], "item", const(merged[0]) if len(merged) == 1 and isinstance(merged[0], str) else
                     merged[0][1] if len(merged) == 1 and not merged[0][2] else mk("str", tuple(merged)))
            out.append(e)
        return mk("join", na[0], mk("list", tuple(out)))
    return mk(tag, *na)


def boundary(c, fe):
    """ Whether c says that the element of the iteration fe is not the last (not the first) one. """
    pos = c.a[0] if c.tag == "not" else c
    i, n = mk("idx", *fe.a), mk("call", "builtin:len", (("0", fe.a[0]),))
    if pos.tag == "truth" and pos.a[0] is i:
        return "first" if c.tag == "not" else "not first"
    if pos.tag != "cmp" or pos.a[0] not in ("<", "==") or not all(numeric(x) for x in pos.a[1:]):
        return None
    gaps = [linear("-", pos.a[2], pos.a[1])]
    if pos.a[0] == "==":
        gaps.append(linear("-", pos.a[1], pos.a[2]))
    end = [k for k, v in (("last", linear("-", linear("-", n, i), const(1))), ("first", i)) if v in gaps]
    if not end:
        return None
    return end[0] if (c.tag == "not") == (pos.a[0] == "<") else "not " + end[0]


def separated(es):
    """ (separator, texts) where the parts of a text are one per element, with a separator between two elements. """
    if len(es) < 2 or any(e[1] != "item" or not e[0] or e[0][0].tag != "foreach" for e in es) or \
            len({e[0][0] for e in es}) != 1:
        return None
    fe = es[0][0][0]
    if any(x.tag == "foreach" for e in es for x in e[0][1:]):
        return None
    marks = [[boundary(x, fe) for x in e[0][1:]] for e in es]
    if not any(any(m) for m in marks):
        return None
    ends = [m[0] if len(m) == 1 else None for m in marks]
    if len(es) == 2 and all(ends) and {"not " + x for x in ends if " " not in x} == {x for x in ends if " " in x}:
        # the separator is part of the text of an element
        full, bare = (0, 1) if " " in ends[0] else (1, 0)
        a, b = es[full][2], es[bare][2]
        if a.tag == "str":
            other = b.a[0] if b.tag == "str" else (("hole", b, ""),)
            ps = a.a[0]
            if "last" in ends and isinstance(ps[-1], str) and ps[:-1] == other:
                return const(ps[-1]), [((fe,), "item", b)]
            if "first" in ends and isinstance(ps[0], str) and ps[1:] == other:
                return const(ps[0]), [((fe,), "item", b)]
        return None
    at = [k for k, e in enumerate(es) if ends[k] in ("not first", "not last") and e[2].tag == "const"]
    if len(at) != 1 or at[0] != (0 if ends[at[0]] == "not first" else len(es) - 1):
        return None
    rest = [e for k, e in enumerate(es) if k != at[0]]
    conds = [conj(*e[0][1:]) for e in rest]
    if disj(*conds) is not TRUE or any(conj(a, b) is not FALSE for k, a in enumerate(conds) for b in conds[:k]):
        return None
    return es[at[0]][2], rest


def glue(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


def linear(op, a, b):
    """ Sums and differences of numbers: what is added, what is subtracted, each in any order. """
    plus, minus = [], []

    def go(t, sign):
        if t.tag == "bin" and t.a[0] in ("+", "-"):
            go(t.a[1], sign)
            go(t.a[2], sign if t.a[0] == "+" else not sign)
        else:
            (plus if sign else minus).append(t)
    t = mk("bin", op, a, b)
    go(t, True)
    if not (any(numeric(x) for x in plus + minus) or (minus and any(x.tag == "bin" and x.a[0] == "+"
                                                                    for x in subterms(t)))):
        return t
    if any(x.tag in ("list", "tuple", "dict", "set", "str", "join") for x in plus + minus):
        return t
    for x in list(minus):
        if x in plus:
            plus.remove(x)
            minus.remove(x)
    consts = [x for x in plus + minus if x.tag == "const" and x.a[0] == "int"]
    if consts:
        k = sum(x.a[1] for x in plus if x in consts) - sum(x.a[1] for x in minus if x in consts)
        plus, minus = [x for x in plus if x not in consts], [x for x in minus if x not in consts]
        if k > 0 or not plus and not minus:
            plus.append(const(k))
        elif k < 0:
            minus.append(const(-k))
    plus.sort(key=show)
    minus.sort(key=show)
    out = plus[0] if plus else const(0)
    for x in plus[1:]:
        out = mk("bin", "+", out, x)
    for x in minus:
        out = mk("bin", "-", out, x)
    return out


def numeric(t):
    """ A number, or an array of numbers. """
    if t.tag == "const":
        return t.a[0] in ("int", "float")
    if t.tag == "call":
        return t.a[0] in ("builtin:len", "builtin:int", "builtin:float", "builtin:abs", "builtin:round")
    if t.tag == "idx" or t.tag == "partial" and numeric(t.a[0]):
        return True
    if t.tag == "bin":
        if t.a[0] in ("-", "/", "//", "**"):
            return True
        if t.a[0] == "*":
            return all(numeric(x) or x.tag in ("param", "attr", "item", "elem") for x in t.a[1:]) and \
                any(numeric(x) for x in t.a[1:])
        if t.a[0] == "+":
            return numeric(t.a[1]) or numeric(t.a[2])
    return False


def given(g, v):
    """ v where the conditions g are known to hold. """
    if not isinstance(v, T) or v.tag == "const":
        return v
    known = {}
    for c in g:
        if c.tag == "foreach":
            continue
        if c.tag == "not":
            known[c.a[0]] = FALSE
            n = c.a[0]
            if n.tag == "cmp" and n.a[0] == "<" and n.a[2].tag == "call" and n.a[2].a[0] == "builtin:len":
                # a text that is not longer is cut nowhere
                x = n.a[2].a[1][0][1]
                cut = mk("item", x, mk("slicekey", NONE, n.a[1], NONE))
                v = subst(v, {cut: x})
        else:
            known[c] = TRUE
            if c.tag in ("and", "or"):
                known[neg(c)] = FALSE
        if c.tag == "cmp" and c.a[0] == "is" and NONE in c.a[1:] and v in c.a[1:]:
            return NONE
    known.pop(v, None)
    if not known or not known.keys() & subterms(v):
        return v
    return sort_phi(narrow(v, known, loops=False))


def inhabited(v):
    """ The truth of a collection is that it has an element. """
    if v.tag == "list" and all(e[1] in ("item", "front") for e in v.a[0]):
        return disj(*[quantify(e[0]) for e in v.a[0]])
    return mk("truth", v)


def at_least(v, k):
    """ v has at least k elements. """
    if k <= 0:
        return TRUE
    if k == 1:
        return inhabited(v)
    return mk("cmp", "<", const(k - 1), mk("call", "builtin:len", (("0", v),)))


def size_bound(x):
    """ (collection, k) of an at-least-k-elements atom, k > 1. """
    if x.tag == "cmp" and x.a[0] == "<" and x.a[1].tag == "const" and x.a[1].a[0] == "int" and \
            x.a[2].tag == "call" and x.a[2].a[0] == "builtin:len":
        return x.a[2].a[1][0][1], x.a[1].a[1] + 1
    return None


def without(es):
    """ Deleting a key if it is there is deleting it. """
    bases = {e[-1] for e in es if e[1] == "splat" and not e[0]}
    if not bases or not any(e[1] == "del" for e in es):
        return es
    return [(tuple(c for c in e[0] if c not in {mk("cmp", "in", e[2], b) for b in bases}),) + tuple(e[1:])
            if e[1] == "del" else e for e in es]


def merge_keys(es):
    """ Stores of the same constant key under exclusive conditions are one store of a choice. """
    out = []
    for e in es:
        if e[1] == "item" and out and out[-1][1] == "item" and out[-1][2] is e[2] and \
                any(g.tag == "foreach" for g in e[0]):
            p = out[-1]
            fp, fe = [x for x in p[0] if x.tag == "foreach"], [x for x in e[0] if x.tag == "foreach"]
            cp, ce = [x for x in p[0] if x.tag != "foreach"], [x for x in e[0] if x.tag != "foreach"]
            (gp, _), (ge, _) = overrides([(tuple(cp), p[3]), (tuple(ce), e[3])])
            if fp == fe and conj(*gp, *ge) is FALSE:
                d = disj(conj(*cp), conj(*ce))
                g = norm_guards(tuple(fe) + ((d,) if d is not TRUE else ()))
                if g is not None:
                    out[-1] = (Canon.guards(g), "item", e[2], given(g, sort_phi(phi([(gp, p[3]), (ge, e[3])]))))
                    continue
        if e[1] == "item" and e[2].tag == "const" and not any(g.tag == "foreach" for g in e[0]):
            j = next((i for i in range(len(out) - 1, -1, -1) if out[i][1] != "item" or out[i][2].tag != "const" or
                      out[i][2] is e[2]), None)
            if j is not None and out[j][1] == "item" and out[j][2] is e[2] and \
                    not any(g.tag == "foreach" for g in out[j][0]):
                c1, c2 = conj(*out[j][0]), conj(*e[0])
                if c2 is TRUE or conj(c1, c2) is FALSE or c1 is TRUE:
                    d = disj(c1, c2)
                    g = norm_guards((d,)) if d is not TRUE else ()
                    old = out[j][0] if conj(c1, c2) is FALSE else norm_guards((neg(c2),)) or ()
                    v = e[3] if c2 is TRUE else phi([(old, out[j][3]), (e[0], e[3])])
                    out[j] = (Canon.guards(g or ()), "item", e[2], given(g or (), sort_phi(v)))
                    continue
        out.append(e)
    return out


def rewritten(es):
    """ What earlier iterations stored at a key that each iteration stores again does not matter. """
    out = []
    for i, e in enumerate(es):
        if e[1] == "splat" and not e[0] and e[-1].tag == "fix":
            fix = e[-1]
            step = next(q[2] for q in fix.a[2] if q[0] is fix.a[1])
            keys = {w[2] if w[1] == "item" else None for w in step.a[0]} if step.tag == "dict" else {None}
            again = {x[2] for x in es[i + 1:] if x[1] == "item" and all(g in fix.a[0] for g in x[0])}
            if None not in keys and keys <= again and not any(iterates(k, fe) for k in keys for fe in fix.a[0]):
                continue
        out.append(e)
    return out


def overrides(pairs):
    """ The value after a handled failure overrides the one there would have been. """
    if any(x.tag == "foreach" for g, _ in pairs for x in g):
        return pairs
    have = [{y for c in g if c.tag in ("except", "or", "not", "and") for y in subterms(c) if y.tag == "except"}
            for g, _ in pairs]
    every = set().union(*have)
    if not every:
        return pairs
    return [(tuple(g) + tuple(neg(y) for y in sorted(every - h, key=show)), v) for (g, v), h in zip(pairs, have)]


def first_match(g, v):
    """ The first element of a filtered collection that is known not to be empty. """
    if v.tag == "item" and is_const(v.a[1], 0) and v.a[0].tag == "list" and len(v.a[0].a[0]) == 1:
        e = v.a[0].a[0][0]
        fes = [x for x in e[0] if x.tag == "foreach"]
        if e[1] == "item" and len(fes) == 1 and iterates(e[2], fes[0]):
            q = quantify(e[0])
            have = set(q.a[0]) if q.tag == "and" else {q}
            if have <= set(g):
                return tuple(x for x in g if x not in have) + e[0], e[2]
    return g, v


def one_container(t):
    """ A choice between lists (or dicts with constant keys) is one list with conditional elements. """
    xs = t.a[0]
    if any(x.tag == "foreach" for g, _ in xs for x in g):
        return t
    if all(v.tag == "list" and all(e[1] == "item" for e in v.a[0]) for _, v in xs):
        rows = [v.a[0] for _, v in xs]
        n, m = 0, 0
        while all(len(r) > n for r in rows) and all(r[n] == rows[0][n] for r in rows):
            n += 1
        while all(len(r) > n + m for r in rows) and all(r[-1 - m] == rows[0][-1 - m] for r in rows):
            m += 1
        out = list(rows[0][:n])
        for g, v in xs:
            for e in v.a[0][n:len(v.a[0]) - m]:
                gg = norm_guards(tuple(g) + tuple(e[0]))
                if gg is not None:
                    out.append((Canon.guards(gg),) + tuple(e[1:]))
        out += list(rows[0][len(rows[0]) - m:])
        return mk("list", tuple(alike(commute(out))))
    if all(v.tag == "dict" and all(e[1] == "item" and e[2].tag == "const" and not e[0] for e in v.a[0])
           for _, v in xs):
        keys = []
        for _, v in xs:
            for e in v.a[0]:
                if e[2] not in keys:
                    keys.append(e[2])
        out = []
        for k in keys:
            have = [(g, e[3]) for g, v in xs for e in v.a[0] if e[2] is k]
            if len(have) == len(xs):
                out.append(((), "item", k, sort_phi(phi(have))))
            else:
                d = disj(*[conj(*g) for g, _ in have])
                gg = norm_guards((d,)) if d is not TRUE else ()
                out.append((Canon.guards(gg or ()), "item", k, sort_phi(phi(have))))
        return mk("dict", tuple(dict_order(out)))
    return t


def branches(es):
    """ An element that is a choice is a choice of elements. """
    out = []
    for e in es:
        v = e[2] if len(e) > 2 else None
        if e[1] == "item" and v.tag == "phi" and len(v.a[0]) <= 6 and \
                not any(x.tag == "foreach" for g, _ in v.a[0] for x in g) and \
                all(conj(*g, *h) is FALSE for i, (g, _) in enumerate(v.a[0]) for h, _ in v.a[0][i + 1:]):
            for g, x in v.a[0]:
                gg = norm_guards(tuple(e[0]) + tuple(g))
                if gg is not None:
                    out.append((Canon.guards(gg), "item", x))
        else:
            out.append(e)
    return out


def exclusive_items(es):
    """ The same item under exclusive conditions of the same iteration is one item (order does not matter). """
    out = []
    for e in es:
        for i, p in enumerate(out):
            if p[1:] == e[1:] and e[1] == "item":
                two = alike([p, e])
                if len(two) == 1:
                    out[i] = two[0]
                    break
        else:
            out.append(e)
    return out


def alike(es):
    """ The same element under alternative conditions of the same iteration is one element. """
    out = []
    for e in es:
        if out and out[-1][1:] == e[1:] and e[1] in ("item", "front"):
            p = out[-1]
            fp, fe = [x for x in p[0] if x.tag == "foreach"], [x for x in e[0] if x.tag == "foreach"]
            cp, ce = conj(*[x for x in p[0] if x.tag != "foreach"]), conj(*[x for x in e[0] if x.tag != "foreach"])
            if fp == fe and conj(cp, ce) is FALSE:
                d = disj(cp, ce)
                g = norm_guards(tuple(fe) + ((d,) if d is not TRUE else ()))
                if g is not None:
                    out[-1] = (Canon.guards(g),) + tuple(e[1:])
                    continue
        out.append(e)
    return out


def sort_phi(v):
    if v.tag == "phi":
        return mk("phi", tuple(sorted(((Canon.guards(g), x) for g, x in v.a[0]), key=show)))
    return v


def whole(e):
    """ An entry per entry of a mapping is the mapping. """
    if e[1] == "item" and e[2].tag == "elem" and e[3].tag == "item" and e[3].a == (e[2].a[0], e[2]):
        fe = mk("foreach", *e[2].a)
        rest = tuple(x for x in e[0] if x is not fe)
        if len(rest) == len(e[0]) - 1 and not any(iterates(x, fe) for x in rest):
            return (rest, "splat", NONE, e[2].a[0])
    return e


def kept(e):
    """ The entries of a mapping but those of given keys are the mapping without these. """
    if e[1] == "item" and e[2].tag == "elem" and e[3].tag == "item" and e[3].a == (e[2].a[0], e[2]):
        fe = mk("foreach", *e[2].a)
        keys = []
        for x in e[0]:
            if x is fe or not iterates(x, fe):
                continue
            pos = x.a[0]
            other = [y for y in pos.a[1:] if y is not e[2]] if x.tag == "not" and pos.tag == "cmp" and \
                pos.a[0] == "==" else []
            if len(other) != 1 or iterates(other[0], fe):
                return None
            keys.append(other[0])
        if keys and any(x is fe for x in e[0]):
            rest = tuple(x for x in e[0] if not iterates(x, fe) and x is not fe)
            return [(rest, "splat", NONE, e[2].a[0])] + [(rest, "del", k, NONE) for k in sorted(keys, key=show)]
    return None


def splat(es):
    """ *xs and one entry per element of xs are the same. """
    out = []
    for e in es:
        if e[1] == "splat" and e[-1].tag not in ("phi", "dict", "tuple") and \
                not (e[-1].tag == "list" and not any(x[1] == "op" for x in e[-1].a[0])):
            k = sum(1 for g in e[0] if g.tag == "foreach" and g.a[0] is e[-1])
            out.append((Canon.guards(e[0] + (mk("foreach", e[-1], k),)), "item", mk("elem", e[-1], k)))
        else:
            out.append(e)
    return out


def commute(es):
    """ Neighbours under contradictory conditions of the same iteration are alternatives: no order between them. """
    es = list(es)
    for _ in range(len(es)):
        moved = False
        for i in range(len(es) - 1):
            x, y = es[i], es[i + 1]
            own = set(g for g in x[0] if g.tag == "foreach") ^ set(g for g in y[0] if g.tag == "foreach")
            if show(y) < show(x) and conj(*[g for g in x[0] + y[0] if g.tag != "foreach" and
                                            not any(iterates(g, fe) for fe in own)]) is FALSE:
                es[i], es[i + 1] = y, x
                moved = True
        if not moved:
            break
    return es


def dict_order(es):
    """ Entries with provably distinct constant keys commute. """
    keys = [e[2] for e in es if e[1] == "item"]
    if all(e[1] == "item" and e[2].tag == "const" for e in es) and len(set(keys)) == len(keys):
        return sorted(es, key=show)
    out, run = [], []
    for e in es:
        if e[1] == "item" and e[2].tag == "const" and e[2] not in [x[2] for x in run]:
            run.append(e)
        else:
            out.extend(sorted(run, key=show))
            run = []
            if e[1] == "item" and e[2].tag == "const":
                run = [e]
            else:
                out.append(e)
    return out + sorted(run, key=show)


# -- equivalence -----------------------------------------------------------------------------------------------------
class Equiv:
    """ Semantic comparison of canonical terms. """

    def __init__(self, assume=()):
        self.memo = {}
        self.gave_up = False
        self.assume = assume        # conditions known to hold where the terms are compared
        self.depth = 0
        self.fuel = [400]
        self.plain = Equiv() if assume else self
        self.facts = frozenset(assume)      # hold of every element

    def under(self, *conds):
        """ Comparison where further conditions are known to hold. """
        new = tuple(c for c in conds if c not in self.assume and c is not TRUE)
        if not new or self.depth >= 3 or self.fuel[0] <= 0:
            return None
        self.fuel[0] -= 1
        eq = Equiv.__new__(Equiv)
        eq.memo, eq.gave_up, eq.assume, eq.depth, eq.fuel = {}, False, self.assume + new, self.depth + 1, self.fuel
        eq.plain, eq.facts = self.plain, self.facts
        return eq

    def __call__(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) and isinstance(b, T):
            k = (a, b)
            r = self.memo.get(k)
            if r is None:
                self.memo[k] = True     # coinductive, terms are finite so this is only for sharing
                r = self.memo[k] = self.terms(a, b)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self(x, y) for x, y in zip(a, b))
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return self.sets(list(a), list(b))
        return a == b

    def sets(self, xs, ys, same=None):
        if len(xs) != len(ys):
            return False
        same = same or self
        ys = list(ys)
        for x in xs:
            for i, y in enumerate(ys):
                if same(x, y):
                    del ys[i]
                    break
            else:
                return False
        return True

    def terms(self, a, b):
        boolish = ("and", "or", "not", "exists", "cmp", "truth", "isinst")
        if self.assume and (a.tag == "const" or b.tag == "const"):
            for c in self.assume:
                if c.tag == "cmp" and (c.a[0] == "is" or c.a[0] == "==" and "str" in (a.a[0], b.a[0])) and \
                        a in c.a[1:] and b in c.a[1:]:
                    return True
        if a.tag in boolish or b.tag in boolish:
            if a.tag == b.tag and a.tag in ("cmp", "truth", "isinst") and all(self(x, y) for x, y in zip(a.a, b.a)):
                return True
            if a.tag == b.tag == "exists":
                inner = self.bind([mk("foreach", a.a[0], a.a[1])])
                return inner(a.a[0], b.a[0]) and a.a[1] == b.a[1] and inner.formula(a.a[2], b.a[2])
            if is_bool(a) and is_bool(b):
                return self.formula(a, b)
            return False
        if a.tag == "phi" or b.tag == "phi":
            return self.choice(a, b)
        if a.tag != b.tag or len(a.a) != len(b.a):
            return False
        if a.tag == "list":
            return self.entries(a.a[0], b.a[0]) or self.reordered(a.a[0], b.a[0], self.never)
        if a.tag == "set":
            return self.sets(list(a.a[0]), list(b.a[0]), self.entry) or self.entries(a.a[0], b.a[0])
        if a.tag == "dict":
            return self.entries(a.a[0], b.a[0]) or self.reordered(a.a[0], b.a[0])
        if a.tag == "lam" and len(a.a) == 3 and a.a[0] == b.a[0] and NONE in a.a[1:2] + b.a[1:2]:
            # a callback that returns what its last call returns, or nothing
            x, y = (a, b) if b.a[1] is NONE else (b, a)
            if x.a[2] and x.a[2][-1][0] == "call" and x.a[2][-1][2] is x.a[1]:
                return self(a.a[2], b.a[2])
        if a.tag == "bin" and a.a[0] == b.a[0] and a.a[0] in ("*", "&", "|"):
            return (self(a.a[1], b.a[1]) and self(a.a[2], b.a[2])) or (self(a.a[1], b.a[2]) and self(a.a[2], b.a[1]))
        return all(self(x, y) for x, y in zip(a.a, b.a))

    def entries(self, xs, ys):
        """ Ordered entries, guards up to propositional equivalence. """
        if len(xs) != len(ys) and self.assume and len(xs) + len(ys) <= 24:
            xs, ys = [[e for e in es if not e[0] or
                       not self.formula(conj(*[g for g in e[0] if g.tag != "foreach"]), FALSE)] for es in (xs, ys)]
        if len(xs) != len(ys):
            return False
        return all(self.entry(x, y) for x, y in zip(xs, ys))

    def reordered(self, xs, ys, apart=None):
        """ The same entries of a mapping, of which only those that cannot be of the same key changed places. """
        if len(xs) != len(ys):
            return False
        rest, to = list(range(len(ys))), []
        for x in xs:
            j = next((j for j in rest if self.entry(x, ys[j])), None)
            if j is None:
                return False
            rest.remove(j)
            to.append(j)
        apart = apart or self.apart
        return all(apart(xs[i], xs[k]) for k in range(len(xs)) for i in range(k) if to[i] > to[k])

    def apart(self, x, y):
        """ Entries of a mapping whose order does not matter. """
        if x[1:] == y[1:] and x[1] != "op":
            return True
        if x[1] in ("item", "del") and y[1] in ("item", "del") and distinct(x[2], y[2]):
            return True
        return self.never(x, y)

    def never(self, x, y):
        """ Entries that are never both there. """
        fx, fy = [[g for g in e[0] if g.tag == "foreach"] for e in (x, y)]
        conds = [g for g in x[0] + y[0] if g.tag != "foreach"]
        if fx != fy:
            conds = [g for g in conds if not any(iterates(g, fe) for fe in fx + fy)]
        return self.formula(conj(*conds), FALSE)

    def entry(self, x, y):
        if x[1] != y[1]:
            return False
        inner = self.bind(x[0])
        if inner is not self:
            return inner.entry(x, y)
        if not self.guards(x[0], y[0]):
            return False
        if self(x[2:], y[2:]):
            return True
        eq = self.under(*[g for g in x[0] if g.tag != "foreach"])
        return eq is not None and eq(x[2:], y[2:])

    def bind(self, g):
        """ Comparison inside iterations: what is assumed of their element outside is about another one. """
        fes = [x for x in g if x.tag == "foreach"]
        if not fes or not self.assume:
            return self
        keep = tuple(c for c in self.assume if c in self.facts or not any(iterates(c, fe) for fe in fes))
        if len(keep) == len(self.assume):
            return self
        eq = Equiv.__new__(Equiv)
        eq.memo, eq.gave_up, eq.assume, eq.depth, eq.fuel = {}, False, keep, self.depth, self.fuel
        eq.plain, eq.facts = self.plain, self.facts
        return eq

    def guards(self, g, h):
        fg, fh = [x for x in g if x.tag == "foreach"], [x for x in h if x.tag == "foreach"]
        if len(fg) != len(fh) or not all(self(x, y) for x, y in zip(fg, fh)):
            return False
        return self.formula(conj(*[x for x in g if x.tag != "foreach"]), conj(*[x for x in h if x.tag != "foreach"]))

    def choice(self, a, b):
        xs, ys = alts(a), alts(b)
        if any(x.tag == "foreach" for g, _ in xs + ys for x in g):
            return self.iterated(xs, ys)
        return self.grouped(xs, ys) or self.cases(a, b) or self.cases(b, a) or self.pairwise(xs, ys)

    def pairwise(self, xs, ys):
        """ Whatever two alternatives can be taken together are the same there. """
        if len(xs) * len(ys) > 150:
            return False
        for g, v in xs:
            for h, w in ys:
                if self(v, w):
                    continue
                if self.formula(conj(*g, *h), FALSE):
                    continue
                eq = self.under(*g, *h)
                if eq is None or not eq(v, w):
                    return False
        return True

    def cases(self, a, b):
        """ The alternatives of a cover all cases: b is the same in each of them. """
        if a.tag != "phi" or len(a.a[0]) > 8:
            return False
        todo = [(v, given(g, b)) for g, v in a.a[0]]
        if any(w is b for _, w in todo):
            return False
        return all(self(v, w) for v, w in todo)

    def grouped(self, xs, ys):
        # group by value
        groups = []
        for side, lst in ((0, xs), (1, ys)):
            for g, v in lst:
                for grp in groups:
                    if self(grp[2], v):
                        grp[side].append(conj(*g))
                        break
                else:
                    grp = [[], [], v]
                    grp[side].append(conj(*g))
                    groups.append(grp)
        if all(grp[0] and grp[1] for grp in groups) or any(TRUE in grp[0] + grp[1] for grp in groups):
            conds = [(disj(*grp[0]), disj(*grp[1])) for grp in groups]
            if all(self.formula(x, y) for x, y in conds):
                return True
            return all(self.formula(x, y) for x, y in zip(self.disjoint([x for x, _ in conds]),
                                                          self.disjoint([y for _, y in conds])))
        return False

    def iterated(self, xs, ys):
        """ Alternatives under iterations: the same values under the same iterations and equivalent conditions. """
        inner = self.bind([x for g, _ in xs + ys for x in g])
        if inner is not self:
            return inner.iterated(xs, ys)
        xs, ys = self.split(xs), self.split(ys)
        groups = []
        for side, lst in ((0, xs), (1, ys)):
            for g, v in lst:
                fe = tuple(x for x in g if x.tag == "foreach")
                c = conj(*[x for x in g if x.tag != "foreach"])
                for grp in groups:
                    if len(grp[3]) == len(fe) and self(grp[2], v) and self(grp[3], fe):
                        grp[side].append(c)
                        break
                else:
                    grp = [[], [], v, fe]
                    grp[side].append(c)
                    groups.append(grp)
        return all(grp[0] and grp[1] and self.formula(disj(*grp[0]), disj(*grp[1])) for grp in groups)

    @staticmethod
    def split(xs):
        """ A tuple of a choice is a choice of tuples. """
        out = []
        for g, v in xs:
            k = next((i for i, x in enumerate(v.a[0]) if x.tag == "phi" and
                      not any(y.tag == "foreach" for h, _ in x.a[0] for y in h)), None) if v.tag == "tuple" else None
            if k is None:
                out.append((g, v))
                continue
            for h, x in v.a[0][k].a[0]:
                gg = norm_guards(tuple(g) + tuple(h))
                if gg is not None:
                    out.append((gg, mk("tuple", v.a[0][:k] + (x,) + v.a[0][k + 1:])))
        return out

    def disjoint(self, conds):
        """ A condition implied by another alternative's condition means 'otherwise'. """
        out = list(conds)
        for i, x in enumerate(conds):
            for j, y in enumerate(conds):
                if i != j and x is not FALSE and y is not FALSE and not self.formula(x, y) and \
                        self.formula(conj(x, y), x):
                    out[j] = conj(out[j], neg(x))
        return out

    def formula(self, a, b):
        """ Propositional equivalence over (equivalence classes of) atoms. """
        if a is b:
            return True
        atoms = []

        def find(x):
            for i, y in enumerate(atoms):
                if x is y or self.atom_eq(x, y):
                    return i
            atoms.append(x)
            return len(atoms) - 1

        def compile_(x):
            if x is TRUE or x is FALSE:
                return ("c", x is TRUE)
            if x.tag == "not":
                return ("n", compile_(x.a[0]))
            if x.tag in ("and", "or"):
                return (x.tag, [compile_(y) for y in x.a[0]])
            return ("a", find(x))
        fa, fb = compile_(a), compile_(b)
        known = [compile_(x) for x in self.assume]
        for x in list(atoms):
            s = size_bound(x)
            if s is not None:
                known.append(("or", [("n", ("a", find(x))), compile_(at_least(s[0], 1))]))
                for y in list(atoms):
                    r = size_bound(y)
                    if r is not None and r[1] < s[1] and self(r[0], s[0]):
                        known.append(("or", [("n", ("a", find(x))), ("a", find(y))]))
        if len(atoms) > 60:
            self.gave_up = True
            return False
        bdd = BDD()
        dom = bdd.one
        for x in self.quantified(atoms):
            dom = bdd.ite(dom, bdd.build(x), bdd.zero)
        for i, j in self.exclusive(atoms):
            dom = bdd.ite(dom, bdd.ite(bdd.var(i), bdd.ite(bdd.var(j), bdd.zero, bdd.one), bdd.one), bdd.zero)
        for x in known:
            dom = bdd.ite(dom, bdd.build(x), bdd.zero)
        xa, xb = bdd.build(fa), bdd.build(fb)
        differ = bdd.ite(xa, bdd.ite(xb, bdd.zero, bdd.one), xb)
        return bdd.ite(dom, differ, bdd.zero) == bdd.zero

    def quantified(self, atoms):
        """ Which statements about some element of the same collection can hold together. """
        groups = {}
        for i, x in enumerate(atoms):
            if x.tag == "exists":
                groups.setdefault(x.a[:2], []).append((i, x.a[2]))
        for (coll, k), members in groups.items():
            for i, x in enumerate(atoms):
                if x.tag == "truth" and x.a[0] is coll:
                    members.append((i, TRUE))
                elif x.tag == "cmp" and x.a[0] == "in" and x.a[2] is coll:
                    members.append((i, mk("cmp", "==", *sorted((x.a[1], mk("elem", coll, k)), key=show))))
        out = []
        for members in groups.values():
            n = len(members)
            if 5 < n <= 10:
                below = [[j for j, (_, c) in enumerate(members) if j != i and
                          self.plain.formula(conj(c, b), c)] for i, (_, b) in enumerate(members)]
                for i, (k, b) in enumerate(members):
                    some = ("or", [("a", members[j][0]) for j in below[i]])
                    if below[i]:
                        out.append(("or", [("n", some), ("a", k)]))
                        if self.plain.formula(disj(*[members[j][1] for j in below[i]]), b):
                            out.append(("or", [("n", ("a", k)), some]))
            if not 2 <= n <= 5:
                continue
            for bits in range(1, 2 ** n):
                no = disj(*[b for j, (_, b) in enumerate(members) if not bits >> j & 1])
                if any(bits >> j & 1 and self.plain.formula(conj(b, neg(no)), FALSE) for j, (_, b) in enumerate(members)):
                    out.append(("n", ("and", [("a", i) if bits >> j & 1 else ("n", ("a", i))
                                              for j, (i, _) in enumerate(members)])))
        return out

    def atom_eq(self, x, y):
        if x.tag != y.tag:
            return False
        if self.assume:
            # atoms are identified independently of what is assumed of them
            return self.plain.atom_eq(x, y)
        if x.tag == "exists":
            return self(x.a[0], y.a[0]) and x.a[1] == y.a[1] and self.formula(x.a[2], y.a[2])
        return self(x.a, y.a)

    def exclusive(self, atoms):
        """ Theory facts between atoms: None is falsy, a truthy thing is not None, x == c1 excludes x == c2. """
        out = []
        for i, x in enumerate(atoms):
            if x.tag == "cmp" and x.a[0] in ("is", "==") and NONE in x.a[1:]:
                other = x.a[1] if x.a[2] is NONE else x.a[2]
                for j, y in enumerate(atoms):
                    if y.tag == "truth" and y.a[0] is other:
                        out.append((i, j))
                    if y.tag == "isinst" and y.a and y.a[0] is other:
                        out.append((i, j))
                    if a_sequence(y) is other:
                        out.append((i, j))
            if x.tag == "isinst":
                for j, y in enumerate(atoms):
                    if a_sequence(y) is x.a[0] and x.a[1].tag == "ext" and \
                            x.a[1].a[0] in ("str", "dict", "int", "float", "bool", "complex", "set"):
                        out.append((i, j))
                    if j > i and y.tag == "isinst" and x.a[0] is y.a[0] and unrelated(x.a[1], y.a[1]):
                        out.append((i, j))
            if x.tag == "cmp" and x.a[0] in ("==", "is"):
                for j, y in enumerate(atoms):
                    if j > i and y.tag == "cmp" and y.a[0] in ("==", "is"):
                        for p, q in ((0, 1), (1, 0)):
                            for r, s in ((0, 1), (1, 0)):
                                if x.a[1 + p] is y.a[1 + r] and distinct(x.a[1 + q], y.a[1 + s]):
                                    out.append((i, j))
            if x.tag == "cmp" and x.a[0] == "<":
                for j, y in enumerate(atoms):
                    if j > i and y.tag == "cmp" and y.a[0] == "<" and x.a[1] is y.a[2] and x.a[2] is y.a[1]:
                        out.append((i, j))
                    if y.tag == "cmp" and y.a[0] == "==" and set(y.a[1:]) == set(x.a[1:]):
                        out.append((i, j))
        return out


LAYOUTS = {"dict", "list", "tuple", "str", "bytes", "int", "float", "set", "frozenset", "complex"}


def a_sequence(t):
    """ What t says to be a list, a tuple or another sequence than a text. """
    if t.tag == "truth" and t.a[0].tag == "call" and str(t.a[0].a[0]).endswith(".is_sequence") and \
            len(t.a[0].a[1]) == 1:
        return t.a[0].a[1][0][1]
    return None


def distinct(a, b):
    """ Different constants, or different classes. """
    if a.tag == b.tag == "const":
        return a.a[1] != b.a[1]
    return a is not b and a.tag in ("ext", "class") and b.tag in ("ext", "class") and \
        all(x.tag == "class" or x.a[0][0].isupper() or x.a[0] in LAYOUTS or x.a[0].rpartition(".")[2][0].isupper()
            for x in (a, b))


def unrelated(c, d):
    """ Built-in classes no object can be an instance of both of. """
    names = [x.a[0] for x in (c, d) if x.tag == "ext"]
    names = ["int" if n == "bool" else n for n in names]
    return len(names) == 2 and names[0] != names[1] and set(names) <= LAYOUTS


class BDD:
    """ Reduced ordered decision diagrams over atom numbers. """

    def __init__(self):
        self.nodes = {0: None, 1: None}
        self.index = {}
        self.cache = {}
        self.zero, self.one = 0, 1

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.index.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes[n] = k
            self.index[k] = n
        return n

    def var(self, i):
        return self.node(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        key = (f, g, h)
        r = self.cache.get(key)
        if r is None:
            v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

            def cof(x, side):
                return self.nodes[x][1 + side] if x > 1 and self.nodes[x][0] == v else x
            r = self.node(v, self.ite(cof(f, 0), cof(g, 0), cof(h, 0)), self.ite(cof(f, 1), cof(g, 1), cof(h, 1)))
            self.cache[key] = r
        return r

    def build(self, f):
        k = f[0]
        if k == "c":
            return 1 if f[1] else 0
        if k == "a":
            return self.var(f[1])
        if k == "n":
            return self.ite(self.build(f[1]), 0, 1)
        acc = 1 if k == "and" else 0
        for x in f[1]:
            b = self.build(x)
            acc = self.ite(acc, b, 0) if k == "and" else self.ite(acc, 1, b)
        return acc


def is_bool(t):
    return t.tag in ("cmp", "not", "and", "or", "exists", "isinst", "truth") or t is TRUE or t is FALSE


# -- behaviour -------------------------------------------------------------------------------------------------------
def exc_name(t):
    """ Class of a raised value. """
    for g, v in alts(t):
        if v.tag == "new":
            return show(v.a[0])
        if v.tag == "call":
            return v.a[0].split(":")[-1].split(".")[-1]
        if v.tag in ("class", "ext"):
            return v.a[0].split(".")[-1]
        return v.tag
    return "?"


def chosen(t, fuel=2):
    """ What a choice among the arguments of a call can stand for. """
    c = first_choice(t) if t.tag in ("call", "mcall", "new") and fuel else None
    if c is None:
        return [((), t)]
    return [(tuple(g) + h, x) for g, v in c.a[0] for h, x in chosen(subst(t, {c: v}), fuel - 1)]


class Behaviour:
    """ What a function returns and does. """

    def __init__(self, summary):
        s, flow = summary, summary.flow
        self.summary = s
        self.canon = c = Canon(flow)
        self.value = c(s.value)
        self.exhausted = s.exhausted
        self.dropped = set()
        effects = []
        used = set()
        for t in [s.value]:
            used |= subterms(t)
        over = {}
        for (base, name), v in s.over.items():
            nm = name if isinstance(name, str) else "[" + show(c(name)) + "]"
            val = c(flow.freeze(v, s.state)) if s.state is not None else c(v)
            for g, b in chosen(c(base)):
                old = over.get((b, nm), mk("attr", b, nm))
                over[(b, nm)] = val if not g else sort_phi(phi([(g, given(g, val)), ((neg(conj(*g)),), old)]))
        self.over = over
        calls = []
        for e in s.events:
            if e.kind == "raise":
                effects.append(("raise", self.pc(c, e.pc), exc_name(e.term)))
            elif e.kind == "mutate":
                effects.extend(mutations(self.pc(c, e.pc), c(e.term), c(e.extra)))
            elif e.kind == "handled":
                effects.extend(("handled", (), e.extra, c(x)) for x in e.term.a[0]
                               if not harmless(x) or x.a[0] in ASKED)
            elif e.kind == "within":
                effects.append(("within", self.pc(c, e.pc), c(e.term)))
            elif e.kind == "call":
                calls.append(e)
        # calls whose result goes nowhere are done for their effect
        sink = subterms(s.value)
        for (base, name), v in s.over.items():
            sink |= subterms(flow.freeze(v, s.state) if s.state is not None else v) | subterms(base)
        for e in s.events:
            for g in e.pc:
                if isinstance(g, T):
                    sink |= subterms(g)
            if e.kind in ("mutate", "setattr", "raise"):
                sink |= subterms(e.term)
                if e.extra is not None:
                    sink |= subterms(e.extra)
        muts = {(e.pc, e.node) for e in s.events if e.kind == "mutate"}
        built = None
        for e in reversed(calls):
            if e.term in sink or (e.pc, e.node) in muts:
                continue
            if e.term.tag == "new" and any(v.tag in ("list", "dict", "set") for _, v in e.term.a[1]):
                # an object built from a container that is filled later on
                if built is None:
                    built = {outline(x) for x in sink if x.tag == "new"}
                if outline(e.term) in built:
                    continue
            if harmless(e.term):
                continue
            effects.extend(spread(self.pc(c, e.pc), c(e.term)))
            for k in e.term.a:
                sink |= subterms(k) if not isinstance(k, str) else set()
        self.effects = effects
        self.births = births(s.events, c)
        absent = {mk("param", n) for n, _, d, _ in s.func.params() if isinstance(d, ast.Constant) and d.value is None}
        self.tested, self.bare = set(), set()
        for x, how in flow.walked.items():
            if "bare" in how:
                self.bare.add(c(x))
            elif how == {"tested"} or x in absent:
                self.tested.add(c(x))

    def signature(self):
        """ Parameters with their kinds and default values. """
        f, flow = self.summary.func, self.summary.flow
        out = []
        for name, kind, default, _ in f.params():
            if name in self.dropped:
                continue
            d = None
            if default is not None:
                d = flow.default_value(f, default)
                if d.tag == "ref":
                    d = mk("unk", "container")
                d = self.canon(d)
            out.append((name, kind, d))
        return tuple(out)

    @staticmethod
    def pc(c, pc):
        return Canon.guards(c(tuple(g for g in pc if isinstance(g, T))))

    def raises(self):
        return [e for e in self.effects if e[0] == "raise"]


def births(events, c):
    """ Objects made on the way that something is done to: whether they are made anew for each time it is done. """
    def loops(e):
        return tuple(g for g in e.pc if g.tag == "foreach")
    born, out = {}, {}
    for e in events:
        if e.kind == "call" and (e.term.tag == "new" or e.term.tag == "mcall" and e.term.a[1] == "copy" or
                                 e.term.tag == "call" and e.term.a[0] in ("ext:copy.copy", "ext:copy.deepcopy")):
            born.setdefault(e.term, set()).add(loops(e))
    if not born:
        return out
    for e in events:
        used = []
        if e.kind == "mutate":
            used = [e.term]
        elif e.kind == "call" and e.term.tag == "mcall" and not harmless(e.term):
            used = [e.term.a[0]] + [v for _, v in e.term.a[2]]
        elif e.kind == "call" and e.term.tag == "call" and not harmless(e.term):
            used = [v for _, v in e.term.a[1]]
        for t in used:
            while isinstance(t, T) and t.tag in ("attr", "item"):
                t = t.a[0]
            if t in born and t is not e.term:
                fe = loops(e)
                for ctx in born[t]:
                    out.setdefault(c(t), set()).add(len(fe) > len(ctx) or fe[:len(ctx)] != ctx)
    return out


def harmless(t):
    """ A call done for its result only. """
    if t.tag == "call":
        name = t.a[0].split(":")[-1]
        return name in PURE_EXT or any(name.startswith(x) for x in LOG)
    return t.tag == "mcall" and t.a[1] in PURE_METHODS


def outline(t):
    """ An object that is built, whatever the containers it is given hold. """
    return mk("new", t.a[0], tuple((k, mk(v.tag, ()) if v.tag in ("list", "dict", "set") else v) for k, v in t.a[1]))


def diff(a, b, facets=("signature", "value", "attrs", "effects", "raises")):
    """ Readable differences between the behaviour a (implementation) and b (expected). """
    eq = Equiv()
    out = []
    if "signature" in facets:
        x, y = a.signature(), b.signature()
        if [p[:2] for p in x if p[1] != "kwonly"] != [p[:2] for p in y if p[1] != "kwonly"] or \
                sorted(map(show, x)) != sorted(map(show, y)):
            out.append(("signature", mk("tuple", tuple(map(show, x))), mk("tuple", tuple(map(show, y)))))
    calm = None

    def returning(x, y):
        """ Equal whenever the function comes to its end. """
        nonlocal calm
        if eq(x, y):
            return True
        if calm is None:
            calm = Equiv(tuple(no_raise(a) | no_raise(b)))
        return bool(calm.assume) and calm(x, y)
    if "value" in facets and not returning(a.value, b.value):
        out.append(("value", a.value, b.value))
    if "attrs" in facets:
        keys = list(a.over) + [k for k in b.over if k not in a.over]
        used = set()
        for k in a.over:
            m = next((q for q in b.over if q not in used and q[1] == k[1] and eq(q[0], k[0])), None)
            if m is None:
                if not trivial(k, a.over[k]):
                    out.append((f"attr {k[1]}", mk("tuple", (k[0], a.over[k])), None))
            else:
                used.add(m)
                if not returning(a.over[k], b.over[m]):
                    out.append((f"attr {k[1]} of {show(k[0])}", a.over[k], b.over[m]))
        for q in b.over:
            if q not in used and not trivial(q, b.over[q]):
                out.append((f"attr {q[1]}", None, mk("tuple", (q[0], b.over[q]))))
    for kind, facet in (("mutate", "effects"), ("call", "effects"), ("within", "effects"), ("raise", "raises"),
                        ("handled", "raises")):
        if facet not in facets:
            continue
        if kind == "raise":
            out.extend(("made anew" if False in how - b.births[x] else "made once", x, None)
                       for x, how in a.births.items() if x in b.births and how != b.births[x])
            out.extend(("None iterated over", x, None) for x in a.bare if any(eq(x, y) for y in b.tested - b.bare))
        xs, ys = group([e for e in a.effects if e[0] == kind], eq), group([e for e in b.effects if e[0] == kind], eq)
        places = {id(x): i for i, x in enumerate(xs)}
        to = {id(y): i for i, y in enumerate(ys)}
        pairs = []
        for x in list(xs):
            m = next((y for y in ys if eq(x[1], y[1]) and same_cond(eq, x[0], y[0])), None) or \
                next((y for y in ys if kin(x[1], y[1]) and same_cond(eq, x[0], y[0]) and met(eq, x, y)), None)
            if m is not None:
                ys = [y for y in ys if y is not m]
                xs = [y for y in xs if y is not x]
                pairs.append((places[id(x)], to[id(m)], x, m))
        for x in xs:
            if not same_cond(eq, x[0], ()):
                out.append((kind, x, None))
        for y in ys:
            if not same_cond(eq, y[0], ()):
                out.append((kind, None, y))
        if kind in ("mutate", "call"):
            for i, (p, q, x, m) in enumerate(pairs):
                for r, s, y, n in pairs[:i]:
                    if (p < r) != (q < s) and in_turn(eq, kind, x, y):
                        out.append((kind + " order", x, y))
    return out


UNORDERED = {"add", "discard", "add_node", "add_edge", "add_edges_from", "add_nodes_from"}


def in_turn(eq, kind, x, y):
    """ Effects on the same object that both happen and whose order counts. """
    if kind == "mutate":
        (t, w), (u, v) = x[1], y[1]
        what, that = w.a[0], v.a[0]
        if not eq(t, u) or what[0] is that[0] and what[0].a[1] in UNORDERED or eq(w, v):
            return False
        if len(what) > 1 and len(that) > 1 and {what[0].a[1], that[0].a[1]} <= {"__setitem__", "pop"} and \
                distinct(what[1], that[1]):
            return False
    else:
        t, u = x[1][0], y[1][0]
        if t.tag != "mcall" or u.tag != "mcall" or t.a[1] in UNORDERED and u.a[1] in UNORDERED or eq(t, u) or \
                not eq(t.a[0], u.a[0]):
            return False
    fx, fy = ({g for p in e[0] for g in p if g.tag == "foreach"} for e in (x, y))
    return not all(eq.formula(conj(*[g for g in p + q if g.tag != "foreach" and
                                     not any(iterates(g, fe) for fe in fx ^ fy)]), FALSE)
                   for p in x[0] for q in y[0])


def kin(xs, ys):
    """ Worth a closer comparison. """
    return len(xs) == len(ys) and all(x.tag == y.tag and (x.tag not in ("mcall", "call") or
                                                          x.a[0 if x.tag == "call" else 1] ==
                                                          y.a[0 if x.tag == "call" else 1])
                                      for x, y in zip(xs, ys) if isinstance(x, T) and isinstance(y, T))


def met(eq, x, y):
    """ The same effect under the condition it happens under. """
    e = eq.under(disj(*[conj(*[g for g in p if g.tag != "foreach"]) for p in x[0]]))
    return e is not None and e(x[1], y[1])


def no_raise(x):
    """ What holds of every element when a function comes to its end: none of its raises was met. """
    out = set()
    for _, pc, _ in x.raises():
        cs = [g for g in pc if g.tag != "foreach"]
        if len(cs) < len(pc):
            out.add(neg(quantify(pc)))
        if all(any(iterates(c, g) for c in cs) for g in pc if g.tag == "foreach") and \
                not any(y.tag == "except" for c in cs for y in subterms(c)):
            out.add(neg(conj(*cs)))
    return out - {TRUE, FALSE}


def trivial(k, v):
    return isinstance(v, T) and v.tag == "attr" and v.a[0] is k[0] and v.a[1] == k[1]


def group(effs, eq):
    """ [(list of path conditions, what)] merging the same effect on several paths. """
    out = []
    for e in effs:
        for o in out:
            if eq(o[1], e[2:]):
                o[0].append(e[1])
                break
        else:
            out.append(([e[1]], e[2:]))
    return [(tuple(pcs), w) for pcs, w in out]


def mutations(pc, target, what):
    """ Extending by a collection is appending each element. """
    name, args = what.a[0][0], what.a[0][1:]
    for i, x in enumerate(args):
        if isinstance(x, T) and x.tag == "phi" and len(x.a[0]) <= 6 and \
                not any(g.tag == "foreach" for gs, _ in x.a[0] for g in gs):
            out = []
            for gs, v in x.a[0]:
                gg = norm_guards(tuple(pc) + tuple(gs))
                if gg is not None:
                    out += mutations(Canon.guards(gg), target,
                                     mk("tuple", (name,) + args[:i] + (v,) + args[i + 1:]))
            return out
    if name.a[1] == "insert" and len(args) == 2 and args[0] is mk("call", "builtin:len", (("0", target),)):
        name, args = const("append"), args[1:]
        what = mk("tuple", (name,) + args)
    if name.a[1] == "__delitem__" and len(args) == 1:
        what = mk("tuple", (const("pop"), args[0]))
    if name.a[1] == "extend" and len(args) == 1 and args[0].tag == "bin" and args[0].a[0] == "+":
        return mutations(pc, target, mk("tuple", (name, args[0].a[1]))) + \
            mutations(pc, target, mk("tuple", (name, args[0].a[2])))
    if name.a[1] in ("extend", "update") and len(args) == 1 and name.a[1] == "extend":
        v = args[0]
        if v.tag in ("list", "tuple"):
            ents = v.a[0] if v.tag == "list" else [((), "item", x) for x in v.a[0]]
            if all(e[1] == "item" for e in ents):
                return [("mutate", Canon.guards(pc + tuple(e[0])), target, mk("tuple", (const("append"), e[2]))) for e in ents]
        elif v.tag not in ("phi", "dict", "set"):
            k = sum(1 for g in pc if g.tag == "foreach" and g.a[0] is v)
            return [("mutate", Canon.guards(pc + (mk("foreach", v, k),)), target,
                     mk("tuple", (const("append"), mk("elem", v, k))))]
    return [("mutate", pc, target, what)]


def first_choice(t, top=True):
    """ A choice among the arguments of a call, or of the calls in its arguments. """
    if t.tag == "phi":
        ok = 2 <= len(t.a[0]) <= 6 and not any(g.tag == "foreach" for gs, _ in t.a[0] for g in gs)
        return t if ok and not top else None
    if t.tag == "mcall":
        c = first_choice(t.a[0], False)
        if c is not None:
            return c
    flat = t.a[2] if t.tag == "mcall" else t.a[1] if t.tag in ("call", "new") else ()
    for x in flat if isinstance(flat, tuple) else ():
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], T):
            c = first_choice(x[1], False)
            if c is not None:
                return c
    return None


def spread(pc, t, fuel=3):
    """ Adding several edges or nodes to a graph is adding each of them; a call on a choice is a choice of calls. """
    c = first_choice(t) if t.tag in ("mcall", "call") else None
    if c is not None and fuel:
        out = []
        for gs, v in c.a[0]:
            gg = norm_guards(tuple(pc) + tuple(gs))
            if gg is not None:
                out += spread(Canon.guards(gg), subst(t, {c: v}), fuel - 1)
        return out
    if t.tag == "mcall" and t.a[1] in ("add_edges_from", "add_nodes_from") and len(t.a[2]) == 1:
        v = t.a[2][0][1]
        ents = None
        if v.tag == "list" and all(e[1] == "item" for e in v.a[0]):
            ents = v.a[0]
        elif v.tag not in ("list", "phi", "dict", "set", "tuple"):
            k = sum(1 for g in pc if g.tag == "foreach" and g.a[0] is v)
            ents = [((mk("foreach", v, k),), "item", mk("elem", v, k))]
        if ents is not None and t.a[1] == "add_nodes_from":
            return [("call", Canon.guards(pc + tuple(e[0])), mk("mcall", t.a[0], "add_node", (("0", e[2]),)))
                    for e in ents]
        if ents is not None and all(e[2].tag == "tuple" and len(e[2].a[0]) == 2 for e in ents):
            return [("call", Canon.guards(pc + tuple(e[0])),
                     mk("mcall", t.a[0], "add_edge", (("0", e[2].a[0][0]), ("1", e[2].a[0][1])))) for e in ents]
    return [("call", pc, t)]


def same_cond(eq, ps, qs):
    def form(pcs):
        return disj(*[quantify(p) for p in pcs])
    if len(ps) == len(qs) and eq.sets([tuple(p) for p in ps], [tuple(q) for q in qs]):
        return True
    return eq.formula(form(ps), form(qs))
