ABCMeta = type


def abstractmethod(f):
    return f


abstractproperty = property
