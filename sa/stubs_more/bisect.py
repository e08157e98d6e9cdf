def bisect_right(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < a[mid]:
            hi = mid
        else:
            lo = mid + 1
    return lo


bisect = bisect_right


def bisect_left(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if a[mid] < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def insort(a, x):
    a.insert(bisect_right(a, x), x)
