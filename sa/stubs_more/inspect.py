import types


def isfunction(o):
    return isinstance(o, types.FunctionType)


def ismethod(o):
    return isinstance(o, types.MethodType)
