def tr_1(x):
    try:
        v = x.get()
    except KeyError:
        v = None
    return v
def tr_2_x(x):
    try:
        v = x.get()
    except ValueError:
        v = None
    return v
def tr_3_x(x):
    try:
        v = x.get()
    except KeyError:
        v = 0
    return v
def tr_4_x(x):
    return x.get()
def tr_5_x(x):
    try:
        v = x.get()
    except (KeyError, ValueError):
        v = None
    return v
def tr_6_x(x):
    try:
        v = x.get()
    except Exception:
        v = None
    return v
def fin_1(x):
    try:
        x.run()
    finally:
        x.close()
def fin_2_x(x):
    x.run()
    x.close()
def fin_3_x(x):
    try:
        x.run()
    except Exception:
        x.close()
def fin_4_x(x):
    try:
        x.run()
    except Exception:
        pass
    x.close()
def wi_1(p):
    with open(p) as f:
        return f.read()
def wi_2_x(p):
    f = open(p)
    return f.read()
def wi_3_x(p):
    with open(p, 'rb') as f:
        return f.read()
def al_1(xs):
    ys = xs
    ys.append(1)
    return ys
def al_2_x(xs):
    ys = list(xs)
    ys.append(1)
    return ys
def al_3_x(xs):
    ys = xs + [1]
    return ys
def dm_1(d):
    d['a'] = 1
    return d
def dm_2_x(d):
    d = dict(d)
    d['a'] = 1
    return d
def dm_3_x(d):
    return {**d, 'a': 1}
def df_1(x, memo=None):
    if memo is None:
        memo = {}
    memo[x] = 1
    return memo
def df_2_x(x, memo=None):
    memo = memo or {}
    memo[x] = 1
    return memo
def df_3_x(x, memo=None):
    if not memo:
        memo = {}
    memo[x] = 1
    return memo
def or_1(x):
    return x.a if x.a is not None else x.b
def or_2_x(x):
    return x.a or x.b
def or_3_x(x):
    return x.a if x.a else x.b
def slc_1(xs):
    return xs[1:]
def slc_2_x(xs):
    return xs[:-1]
def slc_3_x(xs):
    return xs[2:]
def slc_4_x(xs):
    return xs[1:-1]
def en_1(xs):
    return [(i, x) for i, x in enumerate(xs)]
def en_2_x(xs):
    return [(i, x) for i, x in enumerate(xs, 1)]
def en_3_x(xs):
    return [(i + 1, x) for i, x in enumerate(xs)]
def zp_1(xs, ys):
    return [(x, y) for x, y in zip(xs, ys)]
def zp_2_x(xs, ys):
    return [(x, y) for y, x in zip(xs, ys)]
def zp_3_x(xs, ys):
    return [(x, y) for x in xs for y in ys]
def zp_4_x(xs, ys):
    return [(x, y) for x, y in zip(xs[1:], ys)]
def nest_1(xs, ys):
    return [(x, y) for x in xs for y in ys]
def nest_2_x(xs, ys):
    return [(x, y) for y in ys for x in xs]
def nest_3_x(xs, ys):
    return [(x, y) for x in xs for y in ys if x is not y]
def same_1(xs):
    return [(x, y) for x in xs for y in xs]
def same_2_x(xs):
    return [(x, x) for x in xs for y in xs]
def same_3_x(xs):
    return [(y, x) for x in xs for y in xs]
def same_4_x(xs):
    return [(x, y) for i, x in enumerate(xs) for y in xs[i:]]
def same_5_x(xs):
    return [(x, y) for i, x in enumerate(xs) for y in xs[i+1:]]
def srt_1(xs):
    return sorted(xs, key=lambda x: x.name)
def srt_2_x(xs):
    return sorted(xs, key=lambda x: x.name, reverse=True)
def srt_3_x(xs):
    return sorted(xs, key=lambda x: x.label)
def srt_4_x(xs):
    return sorted(xs)
def srt_5_x(xs):
    return xs
def st_1(xs):
    return list(set(xs))
def st_2_x(xs):
    return xs
def st_3_x(xs):
    return list(xs)
def st_4_x(xs):
    return list(dict.fromkeys(xs))
def st_5_x(xs):
    return sorted(set(xs))
def cmp_1(a, b):
    return a < b
def cmp_2_x(a, b):
    return a <= b
def cmp_3(a, b):
    return b > a
def cmp_4_x(a, b):
    return not a > b
def ar_1(a, b):
    return a - b
def ar_2_x(a, b):
    return b - a
def ar_3_x(a, b):
    return abs(a - b)
def dv_1(a, b):
    return a / b
def dv_2_x(a, b):
    return a // b
def dv_3_x(a, b):
    return int(a / b)
def pw_1(a):
    return a ** 2
def pw_2_x(a):
    return a ** 0.5
def mod_1(a):
    return a % 2
def mod_2_x(a):
    return a % 3
def ty_1(x):
    return isinstance(x, int)
def ty_2_x(x):
    return type(x) is int
def ty_3_x(x):
    return isinstance(x, (int, float))
def ty_4_x(x):
    return isinstance(x, int) and not isinstance(x, bool)
def ty_5_x(x):
    return isinstance(x, bool)
def hs_1(x):
    return hasattr(x, 'a')
def hs_2_x(x):
    return hasattr(x, 'b')
def hs_3_x(x):
    return getattr(x, 'a', None) is not None
def hs_4_x(x):
    return 'a' in x.__dict__
def cl_1(x):
    return x.__class__.__name__
def cl_2_x(x):
    return x.__class__.__qualname__
def cl_3_x(x):
    return str(x.__class__)
def ex_1(x):
    if x is None:
        raise ValueError('x')
    return x
def ex_2_x(x):
    if x is None:
        raise KeyError('x')
    return x
def ex_3_x(x):
    if not x:
        raise ValueError('x')
    return x
def ex_4_x(x):
    return x
def pop_1(d):
    return d.pop('a', None)
def pop_2_x(d):
    return d.get('a', None)
def pop_3_x(d):
    return d.pop('a')
def pop_4_x(d):
    return d.pop('b', None)
def up_1(d, e):
    d.update(e)
def up_2_x(d, e):
    e.update(d)
def up_3_x(d, e):
    for k, v in e.items():
        d.setdefault(k, v)
def up_4_x(d, e):
    pass
def ins_1(xs, x):
    xs.insert(0, x)
def ins_2_x(xs, x):
    xs.append(x)
def ins_3_x(xs, x):
    xs.insert(1, x)
def rm_1(xs, x):
    xs.remove(x)
def rm_2_x(xs, x):
    xs.pop(x)
def rm_3_x(xs, x):
    pass
def rr_1(xs):
    xs.reverse()
def rr_2_x(xs):
    xs.sort()
def rr_3_x(xs):
    pass
def rr_4_x(xs):
    xs = xs[::-1]
def sw_1(x):
    x.run()
def sw_2_x(x):
    try:
        x.run()
    except Exception:
        pass
def sx_1(x):
    try:
        x.run()
    except ValueError:
        pass
    x.close()
def sx_2_x(x):
    try:
        x.run()
        x.close()
    except ValueError:
        pass
def sx_3(x):
    y = x
    try:
        y.run()
    except ValueError as e:
        print(e)
    y.close()
