def rs_1(xs):
    out = []
    for x in xs:
        out.append(x)
    return out
def rs_2_x(xs):
    out = []
    for x in xs:
        out = []
        out.append(x)
    return out
def rs_3_x(xs):
    for x in xs:
        out = []
        out.append(x)
    return out
def rs_4_x(xs):
    for x in xs:
        out = [x]
    return out
def rs_5(xs):
    out = []
    for x in xs:
        y = [x]
        out.append(y[0])
    return out
def rd_1(xs):
    out = {}
    for x in xs:
        out[x.k] = x
    return out
def rd_2_x(xs):
    out = {}
    for x in xs:
        out = {}
        out[x.k] = x
    return out
def rd_3_x(xs):
    out = {}
    for x in xs:
        out = {x.k: x}
    return out
def un_1(xs, y):
    for x in xs:
        y.add(x)
    z = y.get()
    return z
def un_2_x(xs, y):
    for x in xs:
        y.add(x)
        z = y.get()
    return z
def lp_1(xs):
    for x in xs:
        x.run()
    return x
def tp_1(xs):
    a = 0
    for x in xs:
        a = a + x.v
    b = a
    for x in xs:
        b = b + 1
    return b
def tp_2(xs):
    a = 0
    for y in xs:
        a += y.v
    for x in xs:
        a += 1
    return a
def gr_1(xs):
    out = []
    cur = []
    for x in xs:
        if x.new:
            out.append(cur)
            cur = []
        cur.append(x)
    out.append(cur)
    return out
def gr_2_x(xs):
    out = []
    cur = []
    for x in xs:
        if x.new:
            out.append(cur)
        cur.append(x)
    out.append(cur)
    return out
def gr_3_x(xs):
    out = []
    cur = []
    for x in xs:
        cur.append(x)
        if x.new:
            out.append(cur)
            cur = []
    out.append(cur)
    return out
def gr_4_x(xs):
    out = []
    cur = []
    for x in xs:
        if x.new:
            out.append(cur)
            cur = []
        cur.append(x)
    return out
def gr_5_x(xs):
    out = []
    cur = []
    for x in xs:
        if x.new:
            cur = []
        cur.append(x)
    out.append(cur)
    return out
def gr_6_x(xs):
    out = []
    cur = []
    for x in xs:
        if x.new:
            out.append(cur)
            cur = []
    out.append(cur)
    return out
def gr_7(xs):
    parts, part = [], []
    for y in xs:
        if not y.new:
            part.append(y)
            continue
        parts.append(part)
        part = [y]
    parts.append(part)
    return parts
