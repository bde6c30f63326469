"""Iterators taken step by step (development test; see modeltest.py)."""


class Box:
    def __init__(self, data):
        self.data = list(data)
        self.n = 0

    def get(self):
        self.n += 1
        return self.data.pop(0) if self.data else 0


class Count:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        if self.n <= 0:
            raise StopIteration
        self.n -= 1
        return self.n


def a1(n1, n2):
    b = Box([n1, n2, 5, 6])
    t = 0
    for x in iter(b.get, 0):
        if x == 5:
            break
        t += x
    else:
        t = -t
    return t, b.n, b.data


def a2(n1):
    b = Box([1, n1, 0, 6])
    return list(iter(b.get, 0)), b.n


def _gen(b, k):
    for i in range(k):
        v = b.get()
        if v == 3:
            return
        yield v, i


def a3(n1, n2):
    b = Box([1, n1, n2, 4, 5])
    out = []
    for v, i in _gen(b, 4):
        if v == 2:
            continue
        if v == 4:
            break
        out.append((v, i))
    else:
        out.append("end")
    return out, b.n


def _deleg(b):
    yield 7
    yield from _gen(b, 3)
    yield 8


def a4(n1):
    b = Box([n1, 2, 3])
    for x in _deleg(b):
        if x == (2, 1):
            return b.n, x
    return b.n


def a5(n1):
    b = Box([n1, 2, 3])
    return [x for x in _deleg(b)], list(_deleg(b)), b.n


def _bad(n):
    for i in range(4):
        if i == n:
            raise ValueError(i)
        yield i


def a6(n1):
    out = []
    try:
        for x in _bad(n1):
            out.append(x)
            if x == 2:
                raise KeyError(x)
    except (ValueError, KeyError) as err:
        out.append(type(err).__name__)
    return out


def a7(n1):
    for x in Count(3):
        if x == n1:
            return x, "hit"
    return list(Count(2)), next(Count(5))


def a8(n1):
    it = iter([1, n1, 3, 4])
    for x in it:
        if x == 3:
            break
    return list(it)


def a9(n1, n2):
    def hit(x, seen=[]):
        if x == n1:
            return True
        if x == 2:
            raise ValueError
        return False
    try:
        return any(hit(x) for x in (1, 2, 3)), all(not hit(x) for x in (3, 4))
    except ValueError:
        return "v"


def b1(n1):
    return next((x for x in (1, 2, 3) if x > n1), None), next(x for x in _gen(Box([n1]), 1))


def b2(n1):
    g = _gen(Box([1, 2, n1]), 3)
    r = []
    for v in g:
        r.append(v)
        break
    return r


def _inf(b):
    while True:
        v = b.get()
        if not v:
            break
        try:
            yield v
        except ValueError:
            pass
        finally:
            b.n += 10


def b3(n1):
    b = Box([1, n1, 2])
    out = []
    for v in _inf(b):
        out.append(v)
    return out, b.n


def _inner(x):
    for k in range(2):
        yield x + k


def b4(n1):
    out = []
    for p in _inner(n1):
        for q in _inner(p):
            if q == 3:
                break
            out.append(q)
    return out


def b5(n1):
    r = []

    def f(x):
        r.append(x)
        return x == n1
    any(map(f, [1, 2, 3]))
    return r


def b6(n1):
    r = []

    def f(x):
        r.append(x)
        return x == n1
    v = list(map(f, [1, 2, 3]))
    return r, v, sum(f(x) for x in (4, 5)), ",".join(str(f(x)) for x in (1, 2))


class It2:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        for x in self.xs:
            yield x * 2


def b7(n1):
    for x in It2([1, n1, 3]):
        if x == 4:
            return "four"
    return list(It2([n1])), [y for y in It2((1, 2))]


def b8(n1):
    def g():
        nonlocal n1
        n1 += 1
        yield n1
        n1 += 1
        yield n1
    for x in g():
        if x > 3:
            break
    return n1


def b9(n1):
    for i, x in enumerate(_gen(Box([1, n1]), 2)):
        if x == (1, 0):
            return i
    return -1
