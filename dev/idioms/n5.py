from ext import Base


class CheckList(Base):
    def __init__(self, checks):
        self.checks = checks


def made_0(xs):
    out = []
    for x in xs:
        o = CheckList(1)
        o.check(x)
        out.append(o)
    return out


def made_1_x(xs):
    out = []
    o = CheckList(1)
    for x in xs:
        o.check(x)
        out.append(o)
    return out


def made_2(xs):
    def one(x):
        o = CheckList(1)
        o.check(x)
        return o
    return [one(x) for x in xs]


def anew_0(self):
    issues = CheckList([])
    for step in self.steps:
        step.check_list(issues)
    return issues


def anew_1_x(self):
    issues = CheckList([])
    for step in self.steps:
        issues = CheckList([])
        step.check_list(issues)
    return issues


def anew_2(self):
    result = CheckList([])
    for i in range(len(self.steps)):
        self.steps[i].check_list(result)
    return result


def empty_0(first, values):
    c = first.__class__()
    for value in values:
        c.extend(value)
    if c is not None:
        return c
    raise ValueError("x")


def empty_1_x(first, values):
    c = first.__class__()
    for value in values:
        c.extend(value)
    if c:
        return c
    raise ValueError("x")


def copied_0(d, e):
    f = d.copy()
    for k, v in e.items():
        f[k].update(v)
    return f


def copied_1_x(d, e):
    f = d.copy()
    for k, v in e.items():
        f = d.copy()
        f[k].update(v)
    return f


def erased_0(x):
    d = x.to_dict()
    if "name" in d:
        del d["name"]
    return d


def erased_1(x):
    d = x.to_dict()
    d.pop("name", None)
    return d


def erased_2_x(x):
    d = x.to_dict()
    del d["name"]
    return d


def erased_3_x(x):
    d = x.to_dict()
    d.pop("name")
    return d


def iterated_0(xs):
    ys = [x.a for x in xs]
    return iter(ys)


def iterated_1_x(xs):
    return [x.a for x in xs]
