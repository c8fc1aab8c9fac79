import json
import math


class C:
    def __init__(self, a, b=None, name=''):
        self.a = a
        self.b = b
        self.items = []
        self.name = name

    def m(self):
        return self.a

    def same_1(self, other):
        if not isinstance(other, self.__class__):
            return False
        same_a = self.a == other.a
        same_b = self.b == other.b
        return same_a and same_b

    def same_2(self, other):
        return isinstance(other, self.__class__) and self.a == other.a and self.b == other.b

    def same_3(self, other):
        if isinstance(other, self.__class__):
            if self.a != other.a:
                return False
            return self.b == other.b
        return False

    def same_4_x(self, other):
        return isinstance(other, self.__class__) and self.a == other.a

    def same_5(self, other):
        return isinstance(other, type(self)) and (self.a == other.a) and (self.b == other.b)

    def tup_1(self, other):
        if not isinstance(other, C):
            return False
        return self.a == other.a and self.b == other.b

    def tup_2(self, other):
        return isinstance(other, C) and (self.a, self.b) == (other.a, other.b)

    def add_1(self, x):
        self.items.append(x)
        self.items.append(1)

    def add_2(self, x):
        self.items.extend([x, 1])

    def add_3(self, x):
        self.items += [x, 1]

    def add_4(self, x):
        items = self.items
        items.append(x)
        items.append(1)

    def add_5_x(self, x):
        self.items.extend([1, x])

    def d_1(self):
        d = {'a': self.a}
        if self.b is not None:
            d['b'] = self.b
        d['c'] = 3
        return d

    def d_2(self):
        d = {'a': self.a, 'c': 3}
        if self.b is not None:
            d.update({'b': self.b})
        return d

    def d_3(self):
        optional = {} if self.b is None else {'b': self.b}
        return {'a': self.a, **optional, 'c': 3}

    def d_4(self):
        d = dict(a=self.a, c=3)
        if self.b is not None:
            d |= {'b': self.b}
        return d

    def d_5_x(self):
        d = {'a': self.a, 'c': 3}
        if self.b:
            d.update({'b': self.b})
        return d

    def first_1(self, xs):
        for x in xs:
            if x.name == self.name:
                return x
        return None

    def first_2(self, xs):
        return next((x for x in xs if x.name == self.name), None)

    def first_3(self, xs):
        found = [x for x in xs if x.name == self.name]
        if found:
            return found[0]
        return None

    def first_4(self, xs):
        found = [x for x in xs if x.name == self.name]
        return found[0] if found else None

    def first_5(self, xs):
        match = None
        for x in xs:
            if x.name == self.name:
                match = x
                break
        return match

    def first_6_x(self, xs):
        match = None
        for x in xs:
            if x.name == self.name:
                match = x
        return match

    def firstr_1(self, xs):
        for x in xs:
            if x.name == self.name:
                return x
        raise ValueError('no')

    def firstr_2(self, xs):
        found = next((x for x in xs if x.name == self.name), None)
        if found is None:
            raise ValueError('no')
        return found

    def firstr_3(self, xs):
        found = [x for x in xs if x.name == self.name]
        if not found:
            raise ValueError('no')
        return found[0]

    def firstr_4(self, xs):
        try:
            return next(x for x in xs if x.name == self.name)
        except StopIteration:
            raise ValueError('no')

    def firstr_5(self, xs):
        for x in xs:
            if x.name != self.name:
                continue
            return x
        raise ValueError('no')

    def firstr_6(self, xs):
        for x in xs:
            if x.name == self.name:
                break
        else:
            raise ValueError('no')
        return x


def any_1(xs):
    for x in xs:
        if x.ok:
            return True
    return False


def any_2(xs):
    return any(x.ok for x in xs)


def any_3(xs):
    found = False
    for x in xs:
        if x.ok:
            found = True
            break
    return found


def any_4(xs):
    return not all(not x.ok for x in xs)


def any_5(xs):
    return len([x for x in xs if x.ok]) > 0


def any_6(xs):
    return bool([x for x in xs if x.ok])


def all_1(xs, ys):
    for x in xs:
        if x not in ys:
            return False
    return True


def all_2(xs, ys):
    return all(x in ys for x in xs)


def all_3(xs, ys):
    return not any(x not in ys for x in xs)


def all_4(xs, ys):
    ok = True
    for x in xs:
        ok = ok and x in ys
    return ok


def all_5(xs, ys):
    missing = [x for x in xs if x not in ys]
    return not missing


def all_6(xs, ys):
    return len([x for x in xs if x not in ys]) == 0


def all_7_x(xs, ys):
    return any(x in ys for x in xs)


def group_1(xs):
    out = {}
    for x in xs:
        if x.k in out:
            out[x.k].append(x)
        else:
            out[x.k] = [x]
    return out


def group_2(xs):
    out = {}
    for x in xs:
        if x.k not in out:
            out[x.k] = []
        out[x.k].append(x)
    return out


def group_3(xs):
    out = {}
    for x in xs:
        out.setdefault(x.k, []).append(x)
    return out


def group_4(xs):
    out = {}
    for x in xs:
        try:
            out[x.k].append(x)
        except KeyError:
            out[x.k] = [x]
    return out


def count_1(xs):
    out = {}
    for x in xs:
        if x in out:
            out[x] += 1
        else:
            out[x] = 1
    return out


def count_2(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


def count_3(xs):
    out = {}
    for x in xs:
        if x not in out:
            out[x] = 0
        out[x] += 1
    return out


def index_1(xs, y):
    for i, x in enumerate(xs):
        if x is y:
            return i
    return None


def index_2(xs, y):
    for i in range(len(xs)):
        if xs[i] is y:
            return i
    return None


def index_3(xs, y):
    return next((i for i, x in enumerate(xs) if x is y), None)


def index_4(xs, y):
    i = 0
    for x in xs:
        if x is y:
            return i
        i += 1
    return None


def index_5(xs, y):
    found = [i for i, x in enumerate(xs) if x is y]
    if not found:
        return None
    return found[0]


def total_1(xs):
    s = 0
    for x in xs:
        s += x.size
    return s


def total_2(xs):
    return sum(x.size for x in xs)


def total_3(xs):
    return sum([x.size for x in xs])


def total_4(xs):
    sizes = [x.size for x in xs]
    return sum(sizes)


def total_5(xs):
    s = 0
    for i in range(len(xs)):
        s = s + xs[i].size
    return s


def flat_1(xs):
    out = []
    for x in xs:
        for y in x.ys:
            out.append(y)
    return out


def flat_2(xs):
    return [y for x in xs for y in x.ys]


def flat_3(xs):
    out = []
    for x in xs:
        out.extend(x.ys)
    return out


def flat_4(xs):
    out = []
    for x in xs:
        out += x.ys
    return out


def flat_5(xs):
    out = []
    for x in xs:
        out = out + x.ys
    return out


def flat_6(xs):
    return sum((x.ys for x in xs), [])


def branch_1(a, b):
    if a:
        if b:
            return 1
        return 2
    if b:
        return 3
    return 4


def branch_2(a, b):
    if a and b:
        return 1
    if a:
        return 2
    return 3 if b else 4


def branch_3(a, b):
    if b:
        return 1 if a else 3
    return 2 if a else 4


def branch_4(a, b):
    result = 4
    if a and b:
        result = 1
    elif a and not b:
        result = 2
    elif b:
        result = 3
    return result


def default_1(x):
    if x is None:
        x = []
    return len(x)


def default_2(x):
    x = [] if x is None else x
    return len(x)


def default_3(x):
    if x is None:
        return 0
    return len(x)


def default_4(x):
    values = x if x is not None else []
    return len(values)


def text_1(a, b):
    return f"{a}/{b}"


def text_2(a, b):
    return '{}/{}'.format(a, b)


def text_3(a, b):
    return str(a) + '/' + str(b)


def text_4(a, b):
    return '%s/%s' % (a, b)


def text_5(a, b):
    return '/'.join([str(a), str(b)])


def text_6(a, b):
    return '/'.join((f'{a}', f'{b}'))


def text_7(a, b):
    return '/'.join(str(x) for x in (a, b))


def lines_1(xs):
    s = ''
    for x in xs:
        s += f'{x}\n'
    return s


def lines_2(xs):
    return ''.join(f'{x}\n' for x in xs)


def lines_3(xs):
    return ''.join([str(x) + '\n' for x in xs])


def lines_4(xs):
    parts = []
    for x in xs:
        parts.append(f'{x}\n')
    return ''.join(parts)


def swap_1(d):
    return {v: k for k, v in d.items()}


def swap_2(d):
    out = {}
    for k, v in d.items():
        out[v] = k
    return out


def swap_3(d):
    out = {}
    for k in d:
        out[d[k]] = k
    return out


def swap_4(d):
    return dict((v, k) for k, v in d.items())


def swap_5(d):
    return dict(zip(d.values(), d.keys()))


def chain_1(x):
    y = f(x)
    z = g(y)
    return h(z, y)


def chain_2(x):
    y = f(x)
    return h(g(y), y)


def uniq_1(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def uniq_2(xs):
    out = []
    for x in xs:
        if x in out:
            continue
        out.append(x)
    return out


def rng_1(n):
    out = []
    i = 0
    while i < n:
        out.append(i * 2)
        i += 1
    return out


def rng_2(n):
    return [i * 2 for i in range(n)]


def rng_3(n):
    out = []
    for i in range(0, n):
        out.append(2 * i)
    return out


def guard_1(x):
    if isinstance(x, (list, tuple)):
        return 1
    return 0


def guard_2(x):
    if isinstance(x, list) or isinstance(x, tuple):
        return 1
    return 0


def guard_3(x):
    if not isinstance(x, list) and not isinstance(x, tuple):
        return 0
    return 1


def guard_4(x):
    return 1 if isinstance(x, (tuple, list)) else 0


def guard_5_x(x):
    return 1 if isinstance(x, list) else 0


def cmp_1(a, lo, hi):
    return lo <= a <= hi


def cmp_2(a, lo, hi):
    return a >= lo and a <= hi


def cmp_3(a, lo, hi):
    return not (a < lo or a > hi)


def cmp_4_x(a, lo, hi):
    return lo < a <= hi


def mx_1(xs):
    best = None
    for x in xs:
        if best is None or x > best:
            best = x
    return best


def mx_2(xs):
    best = None
    for x in xs:
        if best is None:
            best = x
        elif x > best:
            best = x
    return best


def part_1(xs):
    good, bad = [], []
    for x in xs:
        if x.ok:
            good.append(x)
        else:
            bad.append(x)
    return good, bad


def part_2(xs):
    good = [x for x in xs if x.ok]
    bad = [x for x in xs if not x.ok]
    return good, bad


def part_3(xs):
    good = []
    bad = []
    for x in xs:
        (good if x.ok else bad).append(x)
    return good, bad


def part_4(xs):
    good, bad = [], []
    for x in xs:
        target = good if x.ok else bad
        target.append(x)
    return good, bad


def tr_1(x):
    try:
        v = x.compute()
    except ValueError:
        v = None
    return v


def tr_2(x):
    try:
        return x.compute()
    except ValueError:
        return None


def tr_3_x(x):
    try:
        return x.compute()
    except Exception:
        return None


def has_1(d, k):
    if k in d:
        return d[k]
    return None


def has_2(d, k):
    return d.get(k)


def has_3(d, k):
    return d[k] if k in d else None


def has_4(d, k):
    try:
        return d[k]
    except KeyError:
        return None


def attr_1(x):
    if hasattr(x, 'a'):
        return x.a
    return None


def attr_2(x):
    return getattr(x, 'a', None)


def attr_3(x):
    try:
        return x.a
    except AttributeError:
        return None


def inline_1(xs):
    return [helper(x) for x in xs if x.ok]


def inline_2(xs):
    return list(map(helper, filter(lambda x: x.ok, xs)))


def inline_3(xs):
    kept = [x for x in xs if x.ok]
    return [helper(x) for x in kept]


def inline_4(xs):
    kept = filter(lambda y: y.ok, xs)
    return [helper(x) for x in kept]


def star_1(d):
    return f(**{k: v for k, v in d.items() if v is not None})


def star_2(d):
    kwargs = {}
    for k, v in d.items():
        if v is not None:
            kwargs[k] = v
    return f(**kwargs)


def neg_1(x):
    if not x.a or x.b:
        return 0
    return 1


def neg_2(x):
    if x.a and not x.b:
        return 1
    return 0


def neg_3(x):
    return int(bool(x.a and not x.b)) if False else (1 if x.a and not x.b else 0)


def wr_1(stream, xs):
    for x in xs:
        stream.write(x)
        stream.write('\n')


def wr_2(stream, xs):
    for i in range(len(xs)):
        stream.write(xs[i])
        stream.write('\n')


def set_1(xs):
    out = set()
    for x in xs:
        out.add(x.k)
    return out


def set_2(xs):
    return {x.k for x in xs}


def set_3(xs):
    return set(x.k for x in xs)


def set_4(xs):
    return set([x.k for x in xs])


def pairs_1(xs, ys):
    return [(x, y) for x in xs for y in ys]


def pairs_2(xs, ys):
    import itertools
    return list(itertools.product(xs, ys))


def pairs_3(xs, ys):
    out = []
    for x in xs:
        for y in ys:
            out.append((x, y))
    return out


def items_1(d):
    return [d[k] for k in d]


def items_2(d):
    return list(d.values())


def items_3(d):
    return [v for _, v in d.items()]


def items_4(d):
    return [d[k] for k in d.keys()]


def merge_1(a, b):
    out = {}
    out.update(a)
    out.update(b)
    return out


def merge_2(a, b):
    return {**a, **b}


def merge_3(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = v
    return out


def merge_4(a, b):
    return dict(a, **b)


def merge_6_x(a, b):
    return {**b, **a}


def last_1(xs):
    return xs[-1]


def last_2(xs):
    return xs[len(xs) - 1]


def rev_1(xs):
    return list(reversed(xs))


def rev_2(xs):
    return xs[::-1]


def rev_3(xs):
    out = []
    for x in xs:
        out.insert(0, x)
    return out


def srt_1(xs):
    out = list(xs)
    out.sort(key=lambda x: x.k)
    return out


def srt_2(xs):
    return sorted(xs, key=lambda y: y.k)
