class Expression(object):
    def __init__(self, source, filename=None, lineno=-1, lookup='strict'):
        self.source = source

    def evaluate(self, data):
        return data[self.source.strip()]
