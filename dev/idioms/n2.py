def inter_0(xs):
    out = []
    for x in xs:
        out.append(x.a)
        out.append(x.b)
    return out


def inter_1_x(xs):
    out = []
    for x in xs:
        out.append(x.a)
    for x in xs:
        out.append(x.b)
    return out


def inter_2_x(xs):
    out = [x.a for x in xs]
    out += [x.b for x in xs]
    return out


def txts_0(xs):
    out = ""
    for x in xs:
        out += x.name
        out += "\n"
    return out


def txts_1_x(xs):
    out = []
    for x in xs:
        out.append(x.name)
    return "\n".join(out) + "\n"


def txts_2(xs):
    return "".join(f"{x.name}\n" for x in xs)


def txts_3(xs):
    out = []
    for x in xs:
        out.append(x.name)
        out.append("\n")
    return "".join(out)


def txts_4(xs):
    out = []
    for x in xs:
        out.append("".join([x.name, "\n"]))
    return "".join(out)


def seps_0(xs):
    out = []
    for x in xs:
        out.append(x.a)
    for x in xs:
        out.append(x.b)
    return out


def seps_1(xs):
    return [x.a for x in xs] + [x.b for x in xs]


def seps_2(xs):
    out = [x.a for x in xs]
    out.extend(x.b for x in xs)
    return out


def seps_3(xs):
    def help():
        return [x.a for x in xs] + [x.b for x in xs]
    return [*help()]


def seps_4(xs):
    for x in xs:
        yield x.a
    for x in xs:
        yield x.b


def useb_0(xs):
    names = [x.a for x in xs]
    out = []
    for x in xs:
        out.append(len(names))
        print(names)
    return out


def useb_1(xs):
    names = []
    for x in xs:
        names.append(x.a)
    out = []
    for x in xs:
        print(names)
        out.append(len(names))
    return out


def nests_0(xs):
    out = []
    for x in xs:
        for y in x.ys:
            out.append(y.a)
        for y in x.ys:
            out.append(y.b)
    return out


def nests_1(xs):
    out = []
    for x in xs:
        out += [y.a for y in x.ys] + [y.b for y in x.ys]
    return out


def nests_2_x(xs):
    out = []
    for x in xs:
        for y in x.ys:
            out.append(y.a)
            out.append(y.b)
    return out


def texts_0(xs):
    s = ""
    for x in xs:
        s += x.a
        s += x.b
    return s


def texts_1_x(xs):
    s = ""
    for x in xs:
        s += x.a
    for x in xs:
        s += x.b
    return s


def texts_2_x(xs):
    return "".join(x.a for x in xs) + "".join(x.b for x in xs)


def twices_0(xs):
    return xs + xs


def twices_1_x(xs):
    out = []
    for x in xs:
        out.append(x)
        out.append(x)
    return out
