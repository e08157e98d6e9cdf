def methodcaller(name, *args, **kwargs):
    def call(obj):
        return getattr(obj, name)(*args, **kwargs)
    return call


def setitem(a, b, c):
    a[b] = c


def delitem(a, b):
    del a[b]


def neg(a):
    return -a


def pos(a):
    return +a


def xor(a, b):
    return a ^ b


def floordiv(a, b):
    return a // b


def concat(a, b):
    return a + b


def iadd(a, b):
    a += b
    return a


def iand(a, b):
    a &= b
    return a


def ior(a, b):
    a |= b
    return a


def countOf(a, b):
    return len([x for x in a if x == b])


def indexOf(a, b):
    for i, x in enumerate(a):
        if x == b:
            return i
    raise ValueError('sequence.index(x): x not in sequence')


def abs(a):
    return a if a >= 0 else -a


def isCallable(a):
    return callable(a)
