class StreamEventKind(str):
    pass


START = StreamEventKind('START')
END = StreamEventKind('END')
TEXT = StreamEventKind('TEXT')


class Stream(object):
    pass


class Markup(unicode):
    def __html__(self):
        return self


class QName(unicode):
    def __new__(cls, qname):
        if type(qname) is cls:
            return qname
        qname = qname.lstrip(u'{')
        parts = qname.split(u'}', 1)
        if len(parts) > 1:
            self = unicode.__new__(cls, u'{' + qname)
            self.namespace = unicode(parts[0])
            self.localname = unicode(parts[1])
        else:
            self = unicode.__new__(cls, qname)
            self.namespace = None
            self.localname = unicode(qname)
        return self


class Namespace(object):
    def __init__(self, uri):
        self.uri = unicode(uri)

    def __contains__(self, qname):
        return qname.namespace == self.uri

    def __getitem__(self, name):
        return QName(self.uri + u'}' + name)

    def __getattr__(self, name):
        return QName(self.uri + u'}' + name)


class Attrs(object):
    def __init__(self, items=()):
        self._items = tuple([(k, v) for k, v in items])

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __contains__(self, name):
        for attr, _ in self:
            if attr == name:
                return True
        return False

    def __or__(self, attrs):
        remove = [an for an, av in attrs if av is None]
        replace = dict([(an, av) for an, av in attrs if an in self and av is not None])
        return Attrs([(sn, replace.get(sn, sv)) for sn, sv in self if sn not in remove] +
                     [(an, av) for an, av in attrs if an not in self and an not in remove])

    def __sub__(self, names):
        if isinstance(names, basestring):
            names = (names,)
        return Attrs([(name, val) for name, val in self if name not in names])

    def get(self, name, default=None):
        for attr, value in self:
            if attr == name:
                return value
        return default


def _ensure(stream):
    """Texts and whatever has totuple() as events; a stream of events as it is."""
    stream = iter(stream)
    try:
        event = stream.next()
    except StopIteration:
        return
    if type(event) is not tuple or len(event) != 3:
        while True:
            if hasattr(event, 'totuple'):
                yield event.totuple()
            else:
                yield TEXT, unicode(event), (None, -1, -1)
            try:
                event = stream.next()
            except StopIteration:
                return
    yield event
    for event in stream:
        yield event
