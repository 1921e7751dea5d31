"""Client code, interpreted like the repository's own: uses messages the way callers do."""


def it(m):
    return [k for k in m]


def keys(m):
    return [k for k in m.keys()]


def items(m):
    return {k: v for k, v in m.items()}


def values(m):
    return [v for v in m.values()]


def ln(m):
    return len(m)


def isin(m, k):
    return k in m


def getitem(m, k):
    return m[k]


def delitem(m, k):
    del m[k]


def setitem(m, k, v):
    m[k] = v


def pop(m, k):
    return m.pop(k)


def pop2(m, k, d):
    return m.pop(k, d)


def setdefault(m, k, d):
    return m.setdefault(k, d)


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def copy_then_set(m, k, v):
    c = m.copy()
    c._dict[k] = v
    return c


def copy_then_drop(m, k):
    c = m.copy()
    if k in c:
        del c[k]
    return c


def build(cls, kw):
    return cls(**kw)
