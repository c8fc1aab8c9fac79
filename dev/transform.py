""" Development aid: behaviour-preserving rewrites and semantic mutations of function syntax trees (never run by checks). """
import ast
import copy
import random
import builtins

BUILTINS = set(dir(builtins))


def names_in(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def locals_of(fn):
    a = fn.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    return ps, names_in(fn, ast.Store) - ps


def blocks(fn):
    """ All statement lists. """
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def fresh(fn, stem="tmp"):
    used = names_in(fn)
    i = 0
    while f"{stem}_{i}" in used:
        i += 1
    return f"{stem}_{i}"


def own(fn):
    """ not nested functions/lambdas. """
    return not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn)


# -- preserving ------------------------------------------------------------------------------------------------------
def r_temp(fn, rng):
    """ Name the value of a return/assign/argument. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                c.append((b, i, s, "value"))
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call):
                call = s.value
                if call.args and not isinstance(call.args[0], (ast.Name, ast.Constant, ast.Starred)) and \
                        isinstance(call.func, (ast.Name, ast.Attribute)) and not has(call.func, ast.Call):
                    c.append((b, i, call, "arg"))
    if not c:
        return False
    b, i, s, k = rng.choice(c)
    t = fresh(fn)
    if k == "value":
        v, s.value = s.value, ast.Name(t, ast.Load())
    else:
        v, s.args[0] = s.args[0], ast.Name(t, ast.Load())
    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], v))
    return True


def r_invert_if(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse and
         not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If))]
    if not c:
        return False
    n = rng.choice(c)
    n.test = negate(n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
             ast.NotIn: ast.In}
        if type(e.ops[0]) in m:
            return ast.Compare(e.left, [m[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def r_ifexp(fn, rng):
    """ return a if c else b  ->  if c: return a / return b ; same for assign. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    v = s.value
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    s1.value, s2.value = v.body, v.orelse
    b[i] = ast.If(v.test, [s1], [s2])
    return True


def r_else_return(fn, rng):
    """ if c: ...return ; rest  ->  if c: ... else: rest. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    s.orelse = b[i + 1:]
    del b[i + 1:]
    return True


def r_unelse(fn, rng):
    """ if c: return.. else: rest -> flatten. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    rest, s.orelse = s.orelse, []
    b[i + 1:i + 1] = rest
    return True


def r_single_return(fn, rng):
    """ turn if/else returns at the tail into one variable and one return. """
    b = fn.body
    for i, s in enumerate(b):
        if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
            if i == len(b) - 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and not s.orelse:
                t = fresh(fn, "result")
                b[i:] = [ast.Assign([ast.Name(t, ast.Store())], b[-1].value),
                         ast.If(s.test, [ast.Assign([ast.Name(t, ast.Store())], s.body[0].value)], []),
                         ast.Return(ast.Name(t, ast.Load()))] if not has(b[-1].value, ast.Call, ast.Subscript) else [
                         ast.If(s.test, [ast.Assign([ast.Name(t, ast.Store())], s.body[0].value)],
                                [ast.Assign([ast.Name(t, ast.Store())], b[-1].value)]),
                         ast.Return(ast.Name(t, ast.Load()))]
                return True
    return False


def r_comp_to_loop(fn, rng):
    """ x = [f for v in xs if c]  /  return [...]  ->  loop. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.ListComp, ast.DictComp)):
                if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    comp = s.value
    t = fresh(fn, "acc")
    if isinstance(comp, ast.ListComp):
        inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [comp.elt], []))]
        init = ast.List([], ast.Load())
    else:
        inner = [ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), comp.key, ast.Store())], comp.value)]
        init = ast.Dict([], [])
    for g in reversed(comp.generators):
        for cond in reversed(g.ifs):
            if rng.random() < .5 and len(g.ifs) == 1:
                inner = [ast.If(negate(cond), [ast.Continue()], [])] + inner
            else:
                inner = [ast.If(cond, inner, [])]
        inner = [ast.For(g.target, g.iter, inner, [], None)]
    s.value = ast.Name(t, ast.Load())
    b[i:i] = [ast.Assign([ast.Name(t, ast.Store())], init)] + inner
    return True


def r_loop_to_comp(fn, rng):
    """ l = []; for v in xs: (if c:) l.append(e)  ->  comprehension. """
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, lo = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(lo, ast.For) and \
                    not lo.orelse and len(lo.body) == 1:
                nm = s.targets[0].id
                inner, ifs = lo.body[0], []
                while isinstance(inner, ast.If) and not inner.orelse and len(inner.body) == 1:
                    ifs.append(inner.test)
                    inner = inner.body[0]
                if isinstance(s.value, ast.List) and not s.value.elts and isinstance(inner, ast.Expr) and \
                        isinstance(inner.value, ast.Call) and isinstance(inner.value.func, ast.Attribute) and \
                        inner.value.func.attr == "append" and isinstance(inner.value.func.value, ast.Name) and \
                        inner.value.func.value.id == nm and nm not in names_in(inner.value.args[0]) and \
                        not any(nm in names_in(x) for x in ifs):
                    c.append((b, i, s, lo, ifs, inner.value.args[0], None))
                if isinstance(s.value, ast.Dict) and not s.value.keys and isinstance(inner, ast.Assign) and \
                        isinstance(inner.targets[0], ast.Subscript) and isinstance(inner.targets[0].value, ast.Name) and \
                        inner.targets[0].value.id == nm and nm not in names_in(inner.value):
                    c.append((b, i, s, lo, ifs, inner.targets[0].slice, inner.value))
    if not c:
        return False
    b, i, s, lo, ifs, k, v = rng.choice(c)
    gen = [ast.comprehension(lo.target, lo.iter, ifs, 0)]
    s.value = ast.ListComp(k, gen) if v is None else ast.DictComp(k, v, gen)
    del b[i + 1]
    return True


def r_rename(fn, rng):
    ps, ls = locals_of(fn)
    ls = [x for x in ls if x not in BUILTINS]
    if not ls or not own(fn):
        return False
    old = rng.choice(sorted(ls))
    new = fresh(fn, "renamed")
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == old:
            n.id = new
        if isinstance(n, ast.ExceptHandler) and n.name == old:
            n.name = new
    return True


SAFE = (ast.Constant, ast.Name, ast.Attribute, ast.List, ast.Dict, ast.Tuple, ast.Compare, ast.BoolOp, ast.JoinedStr)


def r_swap(fn, rng):
    """ swap adjacent independent plain assignments. """
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign):
                tx, ty = [ast.dump(t) for t in x.targets], [ast.dump(t) for t in y.targets]
                if any(has(t, ast.Subscript, ast.Tuple) for t in x.targets + y.targets):
                    continue
                if has(x.value, ast.Call) and has(y.value, ast.Call):
                    continue
                if (has(x.value, ast.Call) and has(y, ast.Attribute)) or (has(y.value, ast.Call) and has(x, ast.Attribute)):
                    continue
                wx, wy = names_in(x, ast.Store), names_in(y, ast.Store)
                ax = {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
                ay = {t.attr for t in y.targets if isinstance(t, ast.Attribute)}
                rx, ry = names_in(x, ast.Load), names_in(y, ast.Load)
                atx = {n.attr for n in ast.walk(x.value) if isinstance(n, ast.Attribute)}
                aty = {n.attr for n in ast.walk(y.value) if isinstance(n, ast.Attribute)}
                if wx & (ry | wy) or wy & rx or ax & (aty | ay) or ay & atx or set(tx) & set(ty):
                    continue
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def r_demorgan(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp, ast.While)) and isinstance(n.test, ast.BoolOp)]
    if not c:
        return False
    n = rng.choice(c)
    t = n.test
    op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [negate(v) for v in t.values]))
    return True


def r_nest_if(fn, rng):
    """ if a and b: X  ->  if a: if b: X. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and
         isinstance(n.test.op, ast.And)]
    if not c:
        return False
    n = rng.choice(c)
    vs = n.test.values
    n.body = [ast.If(vs[-1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), n.body, [])]
    n.test = vs[0]
    return True


def r_cond_var(fn, rng):
    """ name a condition. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    # an elif sits alone in orelse: inserting before it is still fine
    t = fresh(fn, "is")
    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], s.test))
    s.test = ast.Name(t, ast.Load())
    return True


def r_swap_eq(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and
         isinstance(n.ops[0], (ast.Eq, ast.NotEq))]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators = n.comparators[0], [n.left]
    return True


def r_fstring(fn, rng):
    """ f"..{x}.." -> "".join / concatenation with str(). """
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.JoinedStr) and not isinstance(n, (ast.JoinedStr, ast.FormattedValue)):
                c.append((n, f, v, None))
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.JoinedStr) and not isinstance(n, (ast.JoinedStr, ast.FormattedValue)):
                        c.append((n, f, x, i))
    c = [x for x in c if all(isinstance(p, ast.Constant) or (isinstance(p, ast.FormattedValue) and p.format_spec is None
                                                            and p.conversion == -1) for p in x[2].values) and x[2].values]
    if not c:
        return False
    n, f, v, i = rng.choice(c)
    if rng.random() < .5:
        fmt = "".join(p.value.replace("{", "{{").replace("}", "}}") if isinstance(p, ast.Constant) else "{}" for p in v.values)
        e = ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()),
                     [p.value for p in v.values if isinstance(p, ast.FormattedValue)], [])
    else:
        parts = [p if isinstance(p, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [p.value], []) for p in v.values]
        e = parts[0]
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
    if i is None:
        setattr(n, f, e)
    else:
        getattr(n, f)[i] = e
    return True


def r_continue(fn, rng):
    """ for..: if c: BODY (last)  ->  if not c: continue; BODY. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse]
    if not c:
        return False
    n = rng.choice(c)
    s = n.body.pop()
    n.body += [ast.If(negate(s.test), [ast.Continue()], [])] + s.body
    return True


def r_any_all(fn, rng):
    """ return any(...)/all(...) -> loop. """
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and \
                    s.value.func.id in ("any", "all") and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = s.value.args[0]
                isany = s.value.func.id == "any"
                inner = [ast.If(g.elt if isany else negate(g.elt), [ast.Return(ast.Constant(isany))], [])]
                for gen in reversed(g.generators):
                    for cond in reversed(gen.ifs):
                        inner = [ast.If(cond, inner, [])]
                    inner = [ast.For(gen.target, gen.iter, inner, [], None)]
                b[i:i + 1] = inner + [ast.Return(ast.Constant(not isany))]
                return True
    return False


def r_loop_any(fn, rng):
    """ for x in xs: if c: return True ; return False -> any(). """
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            lo, r = b[i], b[i + 1]
            if isinstance(lo, ast.For) and len(lo.body) == 1 and isinstance(lo.body[0], ast.If) and not lo.orelse and \
                    not lo.body[0].orelse and len(lo.body[0].body) == 1 and isinstance(lo.body[0].body[0], ast.Return) and \
                    isinstance(r, ast.Return) and isinstance(r.value, ast.Constant) and \
                    isinstance(lo.body[0].body[0].value, ast.Constant) and isinstance(r.value.value, bool) and \
                    lo.body[0].body[0].value.value is (not r.value.value):
                isany = not r.value.value
                t = lo.body[0].test
                g = ast.GeneratorExp(t if isany else negate(t), [ast.comprehension(lo.target, lo.iter, [], 0)])
                b[i:i + 2] = [ast.Return(ast.Call(ast.Name("any" if isany else "all", ast.Load()), [g], []))]
                return True
    return False


def r_dict_build(fn, rng):
    """ {...} literal -> incremental stores (or the other way: dict literal split through update). """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Dict) and len(s.value.keys) > 1 and \
                    all(isinstance(k, ast.Constant) for k in s.value.keys):
                if isinstance(s, ast.Assign) and not (len(s.targets) == 1):
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    t = fresh(fn, "mapping")
    d = s.value
    k = rng.randrange(1, len(d.keys))
    first = ast.Dict(d.keys[:k], d.values[:k])
    rest = list(zip(d.keys[k:], d.values[k:]))
    if rng.random() < .5:
        more = [ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), kk, ast.Store())], vv) for kk, vv in rest]
    else:
        more = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "update", ast.Load()),
                                  [ast.Dict([x for x, _ in rest], [y for _, y in rest])], []))]
    s.value = ast.Name(t, ast.Load())
    b[i:i] = [ast.Assign([ast.Name(t, ast.Store())], first)] + more
    return True


def r_dict_call(fn, rng):
    """ {'a': 1} -> dict(a=1). """
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Dict) and v.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and
                                                         k.value.isidentifier() for k in v.keys):
                c.append((n, f, v))
    if not c:
        return False
    n, f, v = rng.choice(c)
    setattr(n, f, ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, x) for k, x in zip(v.keys, v.values)]))
    return True


def r_enumerate(fn, rng):
    """ for i, x in enumerate(xs) (name/attr) -> for i in range(len(xs)): x = xs[i]. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and
         isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and
         isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple)]
    if not c:
        return False
    n = rng.choice(c)
    xs = n.iter.args[0]
    i, x = n.target.elts
    n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [xs], [])], [])
    n.target = i
    n.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(xs), ast.Name(i.id, ast.Load()), ast.Load())))
    return True


def r_to_enumerate(fn, rng):
    """ for x in xs -> for _i, x in enumerate(xs). """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute))]
    if not c:
        return False
    n = rng.choice(c)
    n.target = ast.Tuple([ast.Name(fresh(fn, "position"), ast.Store()), n.target], ast.Store())
    n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
    return True


def r_list_iter(fn, rng):
    """ for x in xs -> for x in list(xs). """
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, (ast.Name, ast.Attribute))]
    if not c:
        return False
    n = rng.choice(c)
    n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
    return True


def r_isinstance(fn, rng):
    """ isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B). """
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "isinstance" and \
                    len(v.args) == 2 and isinstance(v.args[1], ast.Tuple):
                e = ast.BoolOp(ast.Or(), [ast.Call(ast.Name("isinstance", ast.Load()), [copy.deepcopy(v.args[0]), k], [])
                                          for k in v.args[1].elts])
                setattr(n, f, e)
                return True
    return False


def r_kwargs(fn, rng):
    """ reorder keyword arguments. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords)]
    if not c:
        return False
    n = rng.choice(c)
    n.keywords = n.keywords[::-1]
    return True


def r_noop(fn, rng):
    _, _, b = rng.choice(list(blocks(fn)))
    k = rng.randrange(len(b) + 1)
    if k and isinstance(b[k - 1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        k -= 1
    b.insert(k, rng.choice([ast.Pass(), ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)),
                            ast.Expr(ast.Constant(0))]))
    return True


def r_augassign(fn, rng):
    """ x += y -> x = x + y for strings/numbers names only: only when y is not a list. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and \
                    isinstance(s.value, (ast.JoinedStr, ast.Constant)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), ast.Add(), s.value))
    return True


def r_extend_loop(fn, rng):
    """ l.extend(xs) / l += xs -> for x in xs: l.append(x). """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr == "extend" and isinstance(s.value.func.value, ast.Name):
                c.append((b, i, s.value.func.value, s.value.args[0]))
    if not c:
        return False
    b, i, l, xs = rng.choice(c)
    t = fresh(fn, "entry")
    b[i] = ast.For(ast.Name(t, ast.Store()), xs, [ast.Expr(ast.Call(ast.Attribute(l, "append", ast.Load()),
                                                                   [ast.Name(t, ast.Load())], []))], [], None)
    return True


def r_alias(fn, rng):
    """ alias an attribute read several times through a local (self.x never stored). """
    stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
    if has(fn, ast.Yield) or not own(fn):
        return False
    attrs = {}
    called = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "other") and \
                n.attr not in stored and id(n) not in called:
            attrs.setdefault((n.value.id, n.attr), []).append(n)
    a = fn.args
    ps = {x.arg for x in a.args}
    attrs = {k: v for k, v in attrs.items() if k[0] in ps}
    if not attrs:
        return False
    # only hoist when first statement already reads it unconditionally
    k0 = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if k0 >= len(fn.body):
        return False
    first = fn.body[k0]
    if isinstance(first, (ast.If, ast.For, ast.While)):
        probe = first.test if isinstance(first, (ast.If, ast.While)) else first.iter
    else:
        probe = first
    c = [k for k, v in attrs.items() if any(n in list(ast.walk(probe)) for n in v)]
    if not c:
        return False
    k = rng.choice(sorted(c))
    t = fresh(fn, "alias")
    tgt = {id(n) for n in attrs[k]}

    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if id(n) in tgt:
                return ast.Name(t, ast.Load())
            return self.generic_visit(n)
    for i in range(k0, len(fn.body)):
        fn.body[i] = R().visit(fn.body[i])
    fn.body.insert(k0, ast.Assign([ast.Name(t, ast.Store())], ast.Attribute(ast.Name(k[0], ast.Load()), k[1], ast.Load())))
    return True


def r_helper_expr(fn, rng, register=None):
    """ extract an expression (return value, assigned value, condition) into a new module-level/static helper. """
    if register is None or not own(fn):
        return False
    c = []
    for _, _, b in blocks(fn):
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign, ast.AugAssign)) and s.value is not None and \
                    not isinstance(s.value, (ast.Constant, ast.Name)):
                c.append((s, "value"))
            if isinstance(s, (ast.If,)):
                c.append((s, "test"))
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                c.append((s, "iter"))
    c = [x for x in c if not has(getattr(*x), ast.NamedExpr, ast.Yield, ast.Await) and
         "super" not in names_in(getattr(*x))]
    if not c:
        return False
    s, f = rng.choice(c)
    e = getattr(s, f)
    ps, ls = locals_of(fn)
    bound = {n.id for g in ast.walk(e) if isinstance(g, ast.comprehension) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    args = sorted((names_in(e, ast.Load) & (ps | ls)) - bound)
    call = register(args, [ast.Return(e)])
    setattr(s, f, call)
    return True


def r_helper_block(fn, rng, register=None):
    """ extract the tail of the function (from statement k on) into a helper whose result is returned. """
    if register is None or not own(fn) or has(fn, ast.Yield, ast.YieldFrom):
        return False
    k0 = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if len(fn.body) - k0 < 2:
        return False
    k = rng.randrange(k0 + 1, len(fn.body))
    tail = fn.body[k:]
    if any("super" in names_in(t) for t in tail):
        return False
    if not isinstance(tail[-1], ast.Return):
        if any(has(t, ast.Return) for t in tail):
            pass
    ps, ls = locals_of(fn)
    used = set()
    for t in tail:
        used |= names_in(t, ast.Load)
    defd = set()
    if any(has(t, ast.Import, ast.ImportFrom) for t in fn.body[:k]):
        return False
    for t in fn.body[:k]:
        comp = {id(n) for g in ast.walk(t) if isinstance(g, ast.comprehension) for n in ast.walk(g.target)}
        defd |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in comp}
    args = sorted(used & (ps | defd))
    call = register(args, tail)
    fn.body[k:] = [ast.Return(call)]
    return True


def r_helper_loopbody(fn, rng, register=None):
    """ extract a loop body without control flow escaping into a helper (effects on passed objects only). """
    if register is None or not own(fn):
        return False
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and
         not any(has(s, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.AugAssign) for s in n.body)]
    c = [n for n in c if not any("super" in names_in(s) for s in n.body)]
    ps, ls = locals_of(fn)
    ok = []
    for n in c:
        st = set()
        for s in n.body:
            st |= names_in(s, ast.Store)
        # names assigned in the body must not be read outside of it
        inside = {id(x) for s in n.body for x in ast.walk(s)}
        outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}
        if not st & outside:
            ok.append((n, st))
    if not ok:
        return False
    n, st = rng.choice(ok)
    used = set()
    for s in n.body:
        used |= names_in(s, ast.Load)
    args = sorted((used & (ps | ls)) - st | (used & names_in(n.target)))
    n.body = [ast.Expr(register(args, n.body))]
    return True


def r_walrus_none(fn, rng):
    """ x is None -> None is x ... swap operands of identity. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot))]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators = n.comparators[0], [n.left]
    return True


def r_chain_cmp(fn, rng):
    """ a < b -> b > a. """
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
    return True


def r_return_bool(fn, rng):
    """ return <bool expr> -> if expr: return True; return False (only for comparisons / boolean calls). """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, (ast.Compare,)) or \
                    isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp) and \
                    all(isinstance(v, ast.Compare) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)) for v in s.value.values):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i:i + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
    return True


def r_split_and(fn, rng):
    """ return a and b (comparisons) -> if not a: return False; return b. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.And) and \
                    all(isinstance(v, ast.Compare) for v in s.value.values):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    vs = s.value.values
    b[i:i + 1] = [ast.If(negate(vs[0]), [ast.Return(ast.Constant(False))], []),
                  ast.Return(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]))]
    return True


def r_map(fn, rng):
    """ [f(x) for x in xs] -> list(map(lambda x: ..., xs)). """
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and \
                    isinstance(v.generators[0].target, ast.Name):
                c.append((n, f, v))
    if not c:
        return False
    n, f, v = rng.choice(c)
    lam = ast.Lambda(ast.arguments([], [ast.arg(v.generators[0].target.id)], None, [], [], None, []), v.elt)
    setattr(n, f, ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("map", ast.Load()), [lam, v.generators[0].iter], [])], []))
    return True


def r_unpack(fn, rng):
    """ a = x; b = y -> a, b = x, y. """
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and isinstance(x.targets[0], ast.Name) and \
                    isinstance(y.targets[0], ast.Name) and x.targets[0].id not in names_in(y.value) and \
                    len(x.targets) == len(y.targets) == 1:
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    x, y = b[i], b[i + 1]
    b[i:i + 2] = [ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], ast.Store())], ast.Tuple([x.value, y.value], ast.Load()))]
    return True


def r_zip_index(fn, rng):
    """ for a, b in zip(xs, ys) keep; for x in xs.values() -> for _, x in xs.items(). """
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and
         isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr in ("values",) and not n.iter.args]
    if not c:
        return False
    n = rng.choice(c)
    n.iter.func.attr = "items"
    n.target = ast.Tuple([ast.Name(fresh(fn, "key"), ast.Store()), n.target], ast.Store())
    return True


def r_items(fn, rng):
    """ for k, v in d.items() -> for k in d: v = d[k]. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and
         isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and not n.iter.args and
         isinstance(n.iter.func.value, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) and
         isinstance(n.target.elts[0], ast.Name)]
    if not c:
        return False
    n = rng.choice(c)
    d = n.iter.func.value
    k, v = n.target.elts
    n.iter, n.target = d, k
    n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
    return True


def r_get(fn, rng):
    """ x = d[k] if k in d else e  <->  d.get(k, e). """
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get" and \
                    len(v.args) == 2 and isinstance(v.func.value, ast.Name) and isinstance(v.args[0], (ast.Constant, ast.Name)):
                d = v.func.value
                setattr(n, f, ast.IfExp(ast.Compare(v.args[0], [ast.In()], [d]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(v.args[0]), ast.Load()),
                                        v.args[1]))
                return True
            if isinstance(v, ast.IfExp) and isinstance(v.test, ast.Compare) and isinstance(v.test.ops[0], ast.In) and \
                    isinstance(v.body, ast.Subscript) and ast.dump(v.body.value) == ast.dump(v.test.comparators[0]) and \
                    ast.dump(v.body.slice) == ast.dump(v.test.left) and isinstance(v.orelse, (ast.Constant, ast.Name)):
                setattr(n, f, ast.Call(ast.Attribute(v.body.value, "get", ast.Load()), [v.test.left, v.orelse], []))
                return True
    return False


REFACTORINGS = [v for k, v in sorted(globals().items()) if k.startswith("r_")]


# -- mutations -------------------------------------------------------------------------------------------------------
def m_drop_stmt(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i] = ast.Pass()
    return True


def m_negate(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp))]
    if not c:
        return False
    n = rng.choice(c)
    n.test = negate(n.test)
    return True


def m_boolop(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BoolOp)]
    if not c:
        return False
    n = rng.choice(c)
    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    return True


def m_drop_operand(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BoolOp)]
    if not c:
        return False
    n = rng.choice(c)
    i = rng.randrange(len(n.values))
    del n.values[i]
    if len(n.values) == 1:
        n.values.append(copy.deepcopy(n.values[0]))
    return True


def m_cmp(fn, rng):
    m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
         ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1]
    if not c:
        return False
    n = rng.choice(c)
    n.ops = [m[type(n.ops[0])]()]
    return True


def m_const(fn, rng):
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) or isinstance(n, ast.JoinedStr):
            continue
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Constant) and f not in ("annotation", "returns"):
                c.append((n, f, None, v))
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.Constant):
                        c.append((n, f, i, x))
    c = [x for x in c if not isinstance(x[0], ast.arguments)]
    if not c:
        return False
    n, f, i, v = rng.choice(c)
    val = v.value
    new = (not val) if isinstance(val, bool) else val + 1 if isinstance(val, (int, float)) else \
        val + "_x" if isinstance(val, str) else 0 if val is None else None
    e = ast.Constant(new)
    if i is None:
        setattr(n, f, e)
    else:
        getattr(n, f)[i] = e
    return True


def m_attr(fn, rng):
    """ replace an attribute by another one used in the function. """
    at = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)})
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute)]
    if len(at) < 2:
        return False
    n = rng.choice(c)
    n.attr = rng.choice([a for a in at if a != n.attr])
    return True


def m_name(fn, rng):
    ps, ls = locals_of(fn)
    vs = sorted((ps | ls) - {"self", "cls"})
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in vs]
    if len(vs) < 2 or not c:
        return False
    n = rng.choice(c)
    n.id = rng.choice([a for a in vs if a != n.id])
    return True


def m_drop_key(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Dict) and n.keys]
    if not c:
        return False
    n = rng.choice(c)
    i = rng.randrange(len(n.keys))
    del n.keys[i], n.values[i]
    return True


def m_drop_kw(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and n.keywords]
    if not c:
        return False
    n = rng.choice(c)
    del n.keywords[rng.randrange(len(n.keywords))]
    return True


def m_swap_args(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and len(n.args) > 1 and ast.dump(n.args[0]) != ast.dump(n.args[1])]
    if not c:
        return False
    n = rng.choice(c)
    n.args[0], n.args[1] = n.args[1], n.args[0]
    return True


def m_break(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and not isinstance(n.body[-1], (ast.Return, ast.Break, ast.Raise))]
    if not c:
        return False
    rng.choice(c).body.append(ast.Break())
    return True


def m_skip_first(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.comprehension))]
    if not c:
        return False
    n = rng.choice(c)
    n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
    return True


def m_comp_filter(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.comprehension) and n.ifs]
    if not c:
        return False
    rng.choice(c).ifs.pop()
    return True


def m_comp_addfilter(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.comprehension) and isinstance(n.target, ast.Name)]
    if not c:
        return False
    n = rng.choice(c)
    n.ifs.append(ast.Name(n.target.id, ast.Load()))
    return True


def m_truthy(fn, rng):
    """ x is not None -> x. """
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.Is, ast.IsNot)) and \
                    isinstance(v.comparators[0], ast.Constant) and v.comparators[0].value is None:
                c.append((n, f, v))
    if not c:
        return False
    n, f, v = rng.choice(c)
    setattr(n, f, v.left if isinstance(v.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), v.left))
    return True


def m_ret_none(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Return) and n.value is not None and
         not (isinstance(n.value, ast.Constant) and n.value.value is None)]
    if not c:
        return False
    rng.choice(c).value = ast.Constant(None)
    return True


def m_drop_if(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    if rng.random() < .5:
        b[i:i + 1] = s.body
    else:
        b[i] = ast.Pass()
    return True


def m_binop(fn, rng):
    m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in m]
    if not c:
        return False
    n = rng.choice(c)
    n.op = m[type(n.op)]()
    return True


def m_swap_branches(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.IfExp) or (isinstance(n, ast.If) and n.orelse)]
    if not c:
        return False
    n = rng.choice(c)
    n.body, n.orelse = n.orelse, n.body
    return True


def m_drop_except(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.type is not None]
    if not c:
        return False
    n = rng.choice(c)
    n.type = ast.Name("ZeroDivisionError", ast.Load())
    return True


def m_drop_elt(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and
         isinstance(getattr(n, "ctx", ast.Load()), ast.Load)]
    if not c:
        return False
    n = rng.choice(c)
    del n.elts[rng.randrange(len(n.elts))]
    return True


def m_fstring(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.JoinedStr) and len(n.values) > 1]
    if not c:
        return False
    n = rng.choice(c)
    del n.values[rng.randrange(len(n.values))]
    return True


def m_dedent_last(fn, rng):
    """ The last statement of a loop or branch is done after it instead. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.For, ast.While, ast.If)) and len(s.body) > 1 and \
                    isinstance(s.body[-1], (ast.Assign, ast.AugAssign, ast.Expr)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b.insert(i + 1, s.body.pop())
    return True


def m_indent_next(fn, rng):
    """ The statement after a loop is done in it instead. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, (ast.For, ast.While)) and isinstance(b[i + 1], (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    s.body.append(b.pop(i + 1))
    return True


def m_init_in_loop(fn, rng):
    """ What is set before a loop is set at each iteration. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(b[i + 1], (ast.For, ast.While)) and \
                    any(isinstance(n, ast.Name) and n.id == s.targets[0].id for x in b[i + 1].body for n in ast.walk(x)) and \
                    isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.Constant, ast.Call)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i + 1].body.insert(0, copy.deepcopy(s))
    return True


def m_uncopy(fn, rng):
    """ list(x), x.copy(), x[:], copy(x) -> x """
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.Call):
                if isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set", "copy", "deepcopy", "sorted", "tuple",
                                                                  "reversed") and len(v.args) == 1:
                    c.append((n, f, v.args[0]))
                elif isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "__copy__", "__deepcopy__", "items",
                                                                           "lower", "strip"):
                    c.append((n, f, v.func.value))
    if not c:
        return False
    n, f, v = rng.choice(c)
    setattr(n, f, v)
    return True


def m_swap_stmts(fn, rng):
    """ Neighbours that depend on each other trade places. """
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(z, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) for z in (x, y)) and \
                    (names_in(x, ast.Store) & (names_in(y))) or \
                    isinstance(x, ast.Expr) and isinstance(y, ast.Expr) and \
                    isinstance(x.value, ast.Call) and isinstance(y.value, ast.Call) and \
                    isinstance(x.value.func, ast.Attribute) and isinstance(y.value.func, ast.Attribute) and \
                    ast.dump(x.value.func.value) == ast.dump(y.value.func.value):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def m_return_in_loop(fn, rng):
    """ continue -> break, break -> continue """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Continue, ast.Break)):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i] = ast.Break() if isinstance(b[i], ast.Continue) else ast.Continue()
    return True


def m_swallow(fn, rng):
    """ Failures of a statement are ignored. """
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, ast.For):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i] = ast.Try([b[i]], [ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, [ast.Pass()])], [], [])
    return True


def m_elif(fn, rng):
    """ Two ifs in a row become if/elif, or the other way round. """
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.If) and isinstance(y, ast.If) and not x.orelse and \
                    not isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                c.append((b, i, 0))
        for i, x in enumerate(b):
            if isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If) and \
                    not isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                c.append((b, i, 1))
    if not c:
        return False
    b, i, k = rng.choice(c)
    if k:
        b.insert(i + 1, b[i].orelse[0])
        b[i].orelse = []
    else:
        b[i].orelse = [b.pop(i + 1)]
    return True


def m_arg_default(fn, rng):
    """ None-defaulted parameter replaced by a falsy test. """
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
         n.func.attr == "get" and len(n.args) == 2]
    if not c:
        return False
    rng.choice(c).args.pop()
    return True


def m_level(fn, rng):
    """ A recursive or nested argument is passed on unchanged: x + 1 -> x. """
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            for i, a in enumerate(n.args):
                if isinstance(a, ast.BinOp):
                    c.append((n.args, i, a))
            for k in n.keywords:
                if isinstance(k.value, ast.BinOp):
                    c.append((k, "value", k.value))
    if not c:
        return False
    n, i, a = rng.choice(c)
    if isinstance(n, list):
        n[i] = a.left
    else:
        n.value = a.left
    return True


MUTATIONS = [v for k, v in sorted(globals().items()) if k.startswith("m_")]
