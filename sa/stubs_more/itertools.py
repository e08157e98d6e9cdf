def product(*args, **kwds):
    pools = [tuple(a) for a in args] * kwds.get('repeat', 1)
    result = [[]]
    for pool in pools:
        result = [x + [y] for x in result for y in pool]
    for prod in result:
        yield tuple(prod)


def combinations(iterable, r):
    pool = tuple(iterable)
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        for rest in combinations(pool[i + 1:], r - 1):
            yield (pool[i],) + rest


def permutations(iterable, r=None):
    pool = tuple(iterable)
    r = len(pool) if r is None else r
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        for rest in permutations(pool[:i] + pool[i + 1:], r - 1):
            yield (pool[i],) + rest


def cycle(iterable):
    saved = []
    for element in iterable:
        yield element
        saved.append(element)
    while saved:
        for element in saved:
            yield element


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def izip_longest(*args, **kwds):
    fill = kwds.get('fillvalue')
    lists = [list(a) for a in args]
    for i in range(max([len(l) for l in lists] + [0])):
        yield tuple([l[i] if i < len(l) else fill for l in lists])


def tee(iterable, n=2):
    items = list(iterable)
    return tuple([iter(items) for i in range(n)])
