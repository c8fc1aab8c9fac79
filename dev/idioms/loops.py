def mx_1(xs):
    best = None
    for x in xs:
        if best is None or x > best:
            best = x
    return best
def mx_3_x(xs):
    best = None
    for x in xs:
        if best is None or x < best:
            best = x
    return best
def mx_4_x(xs):
    best = None
    for x in xs:
        best = x
    return best
def mx_5_x(xs):
    best = None
    for x in xs:
        if best is None:
            best = x
    return best
def mn_1(xs):
    best, at = 0, None
    for i, x in enumerate(xs):
        if x.v > best:
            best = x.v
            at = x
    return at
def mn_2_x(xs):
    best, at = 0, None
    for i, x in enumerate(xs):
        if x.v < best:
            best = x.v
            at = x
    return at
def mn_3_x(xs):
    best, at = 0, None
    for i, x in enumerate(xs):
        if x.v > best:
            at = x
    return at
def mn_4_x(xs):
    best, at = 0, None
    for i, x in enumerate(xs):
        if x.v > best:
            best = x.v + 1
            at = x
    return at
def wl_1(x):
    n = 0
    while x.parent is not None:
        x = x.parent
        n += 1
    return n
def wl_2_x(x):
    n = 0
    while x.parent is not None:
        x = x.parent
        n += 2
    return n
def wl_3_x(x):
    n = 0
    while x.parent is not None:
        x = x.child
        n += 1
    return n
def wl_4_x(x):
    n = 0
    while x.parent is not None:
        n += 1
        x = x.parent.parent
    return n
def wl_5(x):
    n = 0
    while x.parent is not None:
        n += 1
        x = x.parent
    return n
def bf_1(start):
    seen = set()
    todo = [start]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(n.next)
    return seen
def bf_2_x(start):
    seen = set()
    todo = [start]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        todo.extend(n.next)
    return seen
def bf_3_x(start):
    seen = set()
    todo = [start]
    while todo:
        n = todo.pop()
        if n in seen:
            break
        seen.add(n)
        todo.extend(n.next)
    return seen
def bf_4_x(start):
    seen = set()
    todo = [start]
    while todo:
        n = todo.pop()
        seen.add(n)
        todo.extend(n.next)
    return seen
def bf_5(start):
    seen = set()
    todo = [start]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo.extend(n.next)
    return seen
def tg_1(xs):
    on = False
    out = []
    for x in xs:
        if x.start:
            on = True
        if on:
            out.append(x)
        if x.end:
            on = False
    return out
def tg_2_x(xs):
    on = False
    out = []
    for x in xs:
        if on:
            out.append(x)
        if x.start:
            on = True
        if x.end:
            on = False
    return out
def tg_3_x(xs):
    on = False
    out = []
    for x in xs:
        if x.start:
            on = True
        if x.end:
            on = False
        if on:
            out.append(x)
    return out
def tg_4_x(xs):
    on = False
    out = []
    for x in xs:
        on = False
        if x.start:
            on = True
        if on:
            out.append(x)
        if x.end:
            on = False
    return out
def tg_5_x(xs):
    on = False
    out = []
    for x in xs:
        if x.start:
            on = True
        if on:
            out.append(x)
    return out
def fl_1(xs):
    prev = None
    out = []
    for x in xs:
        if prev is not None:
            out.append((prev, x))
        prev = x
    return out
def fl_2_x(xs):
    prev = None
    out = []
    for x in xs:
        prev = x
        if prev is not None:
            out.append((prev, x))
    return out
def fl_3_x(xs):
    prev = None
    out = []
    for x in xs:
        if prev is not None:
            out.append((x, prev))
        prev = x
    return out
def fl_4_x(xs):
    prev = None
    out = []
    for x in xs:
        if prev is not None:
            out.append((prev, x))
            prev = x
    return out
def fl_5_x(xs):
    prev = None
    out = []
    for x in xs:
        if prev is not None:
            out.append((prev, x))
        else:
            prev = x
    return out
