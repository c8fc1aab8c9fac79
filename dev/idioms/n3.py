def frontier_0(start, succ):
    seen = [start]
    front = [start]
    while front:
        nxt = []
        for node in front:
            for other in succ(node):
                if other not in seen:
                    seen.append(other)
                    nxt.append(other)
        front = nxt
    return seen


def frontier_1_x(start, succ):
    seen = [start]
    front = [start]
    nxt = []
    while front:
        for node in front:
            for other in succ(node):
                if other not in seen:
                    seen.append(other)
                    nxt.append(other)
        front = nxt
    return seen


def rebound_0(xs):
    rows = []
    for x in xs:
        row = [x.a]
        for y in x.ys:
            row.append(y)
        rows.append(row)
    return rows


def rebound_1(xs):
    return [[x.a] + list(x.ys) for x in xs]


def rebound_2_x(xs):
    rows = []
    row = []
    for x in xs:
        row.append(x.a)
        for y in x.ys:
            row.append(y)
        rows.append(row)
    return rows


def lastrow_0(xs):
    row = []
    for x in xs:
        row = [x.a]
    return row


def lastrow_1_x(xs):
    row = []
    for x in xs:
        row.append(x.a)
    return row


def bound_0(c, x, y):
    if c:
        v = x
    else:
        v = y
    return v


def bound_1(c, x, y):
    return x if c else y


def bound_2_x(c, d, x, y):
    if c:
        v = x
    elif d:
        v = y
    return v


def hashable_0(value):
    try:
        hash(value)
        return True
    except TypeError:
        return False


def hashable_1(value):
    try:
        hash(value)
    except TypeError:
        return False
    return True


def hashable_2_x(value):
    try:
        return True
    except TypeError:
        return False


def number_0(value):
    try:
        return float(value)
    except ValueError:
        return None


def number_1(value):
    try:
        number = float(value)
    except ValueError:
        number = None
    return number


def number_2_x(value):
    return float(value)


def checked_0(value, out):
    try:
        int(value)
    except ValueError:
        out.append(value)
    return out


def checked_1_x(value, out):
    try:
        float(value)
    except ValueError:
        out.append(value)
    return out


def default_0(values=None):
    if values is None:
        values = {}
    out = []
    for k in values:
        out.append(k)
    return out


def default_1(values=None):
    if values is None:
        return []
    return list(values)


def default_2_x(values=None):
    out = []
    for k in values:
        out.append(k)
    return out


def default_3_x(values=None):
    return list(values)


def iterator_0(xs):
    return list(xs)


def iterator_1_x(xs):
    return iter(xs)


def firstof_0(xs):
    return next(iter(xs))


def firstof_1_x(xs):
    return iter(xs)
def d1_0(values=None):
    if values is None:
        values = {}
    return {k: v for k, v in values.items()}
def d1_1_x(values=None):
    return {k: v for k, v in values.items()}
def d2_0(k, values=None):
    if values is None:
        values = {}
    return k in values
def d2_1_x(k, values=None):
    return k in values
def d3_0(k, values=None):
    if values is None:
        values = {}
    return values.get(k)
def d3_1_x(k, values=None):
    return values.get(k)
def d4_0(k, values=None):
    if values is None:
        values = []
    return len(values)
def d4_1_x(k, values=None):
    return len(values)
def d5_0(k, values=None):
    if values is None:
        values = []
    return [k] + values
def d5_1_x(k, values=None):
    return [k] + values
def d6_0(k, values=None):
    if values is not None:
        for v in values:
            k.append(v)
def d6_1_x(k, values=None):
    for v in values:
        k.append(v)
def d7_0(o):
    if o.values is not None:
        return [v.a for v in o.values]
    return []
def d7_1_x(o):
    return [v.a for v in o.values]
def d8_0(o):
    out = []
    if o is not None:
        for v in o.values:
            out.append(v)
    return out
def d8_1_x(o):
    return list(o.values)
def d9_0(o, k):
    if o is not None:
        for v in o.values:
            k.add(v)
def d9_1_x(o, k):
    for v in o.values:
        k.add(v)
