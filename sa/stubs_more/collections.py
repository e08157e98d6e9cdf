class Counter(dict):
    def __init__(self, *args, **kwds):
        dict.__init__(self)
        self.update(*args, **kwds)

    def __getitem__(self, key):
        if key in self:
            return dict.__getitem__(self, key)
        return 0

    def update(self, iterable=None, **kwds):
        if iterable is not None:
            if isinstance(iterable, dict):
                for key in iterable:
                    self[key] = self[key] + dict.__getitem__(iterable, key)
            else:
                for key in iterable:
                    self[key] = self[key] + 1
        for key in kwds:
            self[key] = self[key] + kwds[key]

    def subtract(self, iterable=None, **kwds):
        if iterable is not None:
            if isinstance(iterable, dict):
                for key in iterable:
                    self[key] = self[key] - dict.__getitem__(iterable, key)
            else:
                for key in iterable:
                    self[key] = self[key] - 1
        for key in kwds:
            self[key] = self[key] - kwds[key]

    def most_common(self, n=None):
        pairs = sorted(self.items(), key=lambda pair: pair[1], reverse=True)
        return pairs if n is None else pairs[:n]

    def elements(self):
        for key in self:
            for i in range(self[key]):
                yield key

    def copy(self):
        return Counter(self)

    def __delitem__(self, key):
        if key in self:
            dict.__delitem__(self, key)
