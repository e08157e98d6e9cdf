import sys


class _Manager(object):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        try:
            return self.gen.next()
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, type, value, traceback):
        if type is None:
            try:
                self.gen.next()
            except StopIteration:
                return
            else:
                raise RuntimeError("generator didn't stop")
        if value is None:
            value = type()
        try:
            self.gen.throw(type, value, traceback)
            raise RuntimeError("generator didn't stop after throw()")
        except StopIteration:
            return True
        except BaseException:
            if sys.exc_info()[1] is not value:
                raise


def contextmanager(func):
    def helper(*args, **kwds):
        return _Manager(func(*args, **kwds))
    helper.__name__ = func.__name__
    helper.__doc__ = func.__doc__
    return helper


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc_info):
        self.thing.close()
