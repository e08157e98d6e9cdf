from genshi.template.eval import Expression


class Directive(object):
    def __init__(self, value, template=None, namespaces=None, lineno=-1, offset=-1):
        if value:
            self.expr = Expression(value)
        else:
            self.expr = None

    @classmethod
    def attach(cls, template, stream, value, namespaces, pos):
        return cls(value, template, namespaces, pos[1], pos[2]), stream

    def __call__(self, stream, directives, ctxt, **vars):
        raise NotImplementedError
