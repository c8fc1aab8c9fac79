from typing import List
import json


def sub_0(a, b):
    return set(a).issubset(set(b))


def sub_1(a, b):
    return set(a) <= set(b)


def sub_2(a, b):
    return set(b).issuperset(a)


def sub_3_x(a, b):
    return set(b) <= set(a)


def sub_4(a, b):
    return all(x in set(b) for x in set(a))


def sub_5_x(a, b):
    return set(a) < set(b)


def meth_0(o, x):
    return o.run(x)


def meth_1(o, x):
    f = o.run
    return f(x)


def meth_2_x(o, x):
    return o.run


def name_0(t):
    if t == "builtins.int":
        return int
    if t == "builtins.float":
        return float
    return None


def name_1(t):
    for c in (int, float):
        if t == f"builtins.{c.__name__}":
            return c
    return None


def name_2(t):
    return {"builtins.int": int, "builtins.float": float}.get(t)


def name_3_x(t):
    return {"builtins.int": float, "builtins.float": int}.get(t)


def cond_0(o):
    if o.a is None:
        r = 1
    else:
        r = o.a
    o.b = r


def cond_1(o):
    o.b = 1 if o.a is None else o.a


def cond_2_x(o):
    o.b = o.a or 1


def closure_0(xs, k):
    def key(x):
        return x.a + k
    return sorted(xs, key=key)


def closure_1(xs, k):
    return sorted(xs, key=lambda y: y.a + k)


def closure_2_x(xs, k):
    k = k + 1
    return sorted(xs, key=lambda y: y.a + k)


def closure_3_x(xs, k):
    return sorted(xs, key=lambda y: y.a + k, reverse=True)


def late_0(xs):
    out = []
    for x in xs:
        out.append(lambda y, x=x: y + x)
    return out


def late_1_x(xs):
    out = []
    for x in xs:
        out.append(lambda y: y + x)
    return out


def gen_0(xs):
    for x in xs:
        if x.ok:
            yield x.v


def gen_1(xs):
    yield from (x.v for x in xs if x.ok)


def gen_2(xs):
    for x in xs:
        if not x.ok:
            continue
        yield x.v


def gen_3_x(xs):
    for x in xs:
        if not x.ok:
            return
        yield x.v


def gen_4_x(xs):
    for x in xs:
        yield x.v


def kw_0(f, a, **kwargs):
    return f(a, **kwargs)


def kw_1(f, a, **kwargs):
    opts = dict(kwargs)
    return f(a, **opts)


def kw_2_x(f, a, **kwargs):
    return f(a)


def kw_3_x(f, a, **kwargs):
    return f(a, **{**kwargs, "b": 1})


def default_0(x, out=None):
    if out is None:
        out = []
    out.append(x)
    return out


def default_1_x(x, out=[]):
    out.append(x)
    return out


def default_2_x(x, out=None):
    out = out or []
    out.append(x)
    return out


def copyit_0(self):
    return {k: v for k, v in self.d.items()}


def copyit_1(self):
    return dict(self.d)


def copyit_2_x(self):
    return self.d


def copyit_3(self):
    return self.d.copy()


def lcopy_0(o):
    o.x = list(o.y)


def lcopy_1_x(o):
    o.x = o.y


def lcopy_2(o):
    o.x = [e for e in o.y]


def lcopy_3(o):
    o.x = o.y[:]


def alias_0(o):
    a = [1, 2]
    b = list(a)
    b.append(3)
    o.a = a
    o.b = b


def alias_1_x(o):
    a = [1, 2]
    b = a
    b.append(3)
    o.a = a
    o.b = b


def rebuilt_0(xs, f):
    out = []
    for x in xs:
        d = {"a": 1}
        d[x] = f(x)
        out.append(d)
    return out


def rebuilt_1_x(xs, f):
    out = []
    d = {"a": 1}
    for x in xs:
        d[x] = f(x)
        out.append(d)
    return out


def rebuilt_2(xs, f):
    return [{"a": 1, x: f(x)} for x in xs]


def wth_0(p, d):
    with open(p, "w") as f:
        json.dump(d, f)


def wth_1_x(p, d):
    with open(p, "a") as f:
        json.dump(d, f)


def wth_2(p, d):
    with open(p, "w") as f:
        f.write(json.dumps(d))


def wth_3_x(p, d):
    f = open(p, "w")
    json.dump(d, f)


def mx_0(xs):
    m = None
    for x in xs:
        if m is None or x.v > m.v:
            m = x
    return m


def mx_1(xs):
    best = None
    for x in xs:
        if best is not None and x.v <= best.v:
            continue
        best = x
    return best


def mx_2_x(xs):
    m = None
    for x in xs:
        if m is None or x.v >= m.v:
            m = x
    return m


def fin_0(o):
    o.open()
    try:
        return o.go()
    finally:
        o.close()


def fin_1_x(o):
    o.open()
    r = o.go()
    o.close()
    return r


def fin_2(o):
    o.open()
    try:
        r = o.go()
    finally:
        o.close()
    return r


def exc_0(d, k):
    try:
        return d[k].run()
    except KeyError:
        return None


def exc_1_x(d, k):
    try:
        return d[k].run()
    except Exception:
        return None


def exc_2_x(d, k):
    if k in d:
        return d[k].run()
    return None


def exc_3(d, k):
    try:
        r = d[k].run()
    except KeyError:
        r = None
    return r


def reraise_0(f):
    try:
        return f()
    except ValueError as err:
        raise TypeError("bad") from err


def reraise_1_x(f):
    try:
        return f()
    except ValueError as err:
        return None


def reraise_2_x(f):
    try:
        return f()
    except ValueError as err:
        raise KeyError("bad") from err


def cond_pop_0(d):
    if "a" in d:
        del d["a"]
    return d


def cond_pop_1(d):
    d.pop("a", None)
    return d


def cond_pop_2_x(d):
    d.pop("a")
    return d


def enum_0(xs):
    return {x: i for i, x in enumerate(xs)}


def enum_1(xs):
    out = {}
    i = 0
    for x in xs:
        out[x] = i
        i += 1
    return out


def enum_2_x(xs):
    return {x: i for i, x in enumerate(xs, 1)}


def enum_3(xs):
    return dict(zip(xs, range(len(xs))))


def join_0(xs):
    return ", ".join(str(x) for x in xs)


def join_1(xs):
    out = ""
    for i, x in enumerate(xs):
        if i:
            out += ", "
        out += str(x)
    return out


def join_2(xs):
    return ", ".join(map(str, xs))


def join_3_x(xs):
    return ",".join(map(str, xs))


def flat_0(xs):
    return [y for x in xs for y in x.ys]


def flat_1(xs):
    out = []
    for x in xs:
        out.extend(x.ys)
    return out


def flat_2(xs):
    out = []
    for x in xs:
        out += x.ys
    return out


def flat_3(xs):
    return sum((x.ys for x in xs), [])


def flat_4_x(xs):
    return [y for y in x.ys for x in xs]


def part_0(xs):
    a = [x for x in xs if x.ok]
    b = [x for x in xs if not x.ok]
    return a, b


def part_1(xs):
    a, b = [], []
    for x in xs:
        (a if x.ok else b).append(x)
    return a, b


def part_2(xs):
    a, b = [], []
    for x in xs:
        if x.ok:
            a.append(x)
        else:
            b.append(x)
    return a, b


def part_3_x(xs):
    a, b = [], []
    for x in xs:
        (b if x.ok else a).append(x)
    return a, b


def find_0(xs, n):
    for x in xs:
        if x.name == n:
            return x
    raise ValueError(n)


def find_1(xs, n):
    r = next((x for x in xs if x.name == n), None)
    if r is None:
        raise ValueError(n)
    return r


def find_2_x(xs, n):
    for x in reversed(xs):
        if x.name == n:
            return x
    raise ValueError(n)


def find_3(xs, n):
    for x in xs:
        if x.name == n:
            break
    else:
        raise ValueError(n)
    return x


def find_4(xs, n):
    m = [x for x in xs if x.name == n]
    if not m:
        raise ValueError(n)
    return m[0]


def group_0(xs):
    out = {}
    for x in xs:
        if x.k not in out:
            out[x.k] = []
        out[x.k].append(x)
    return out


def group_1(xs):
    out = {}
    for x in xs:
        out.setdefault(x.k, []).append(x)
    return out


def group_2(xs):
    from collections import defaultdict
    out = defaultdict(list)
    for x in xs:
        out[x.k].append(x)
    return dict(out)


def group_3(xs):
    out = {}
    for x in xs:
        out[x.k] = out.get(x.k, []) + [x]
    return out


def group_4_x(xs):
    out = {}
    for x in xs:
        out[x.k] = [x]
    return out
