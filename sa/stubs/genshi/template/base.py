from genshi.core import StreamEventKind

EXPR = StreamEventKind('EXPR')
SUB = StreamEventKind('SUB')


class TemplateError(Exception):
    pass


class TemplateSyntaxError(TemplateError):
    def __init__(self, message, filename=None, lineno=-1, offset=-1):
        TemplateError.__init__(self, message)
        self.msg = message


class Context(object):
    def __init__(self, **data):
        self.frames = [data]

    def push(self, data):
        self.frames.insert(0, data)

    def pop(self):
        return self.frames.pop(0)

    def __contains__(self, key):
        for frame in self.frames:
            if key in frame:
                return True
        return False

    def __getitem__(self, key):
        for frame in self.frames:
            if key in frame:
                return frame[key]
        raise KeyError(key)

    def __setitem__(self, key, value):
        self.frames[0][key] = value

    def get(self, key, default=None):
        for frame in self.frames:
            if key in frame:
                return frame[key]
        return default


def _apply_directives(stream, directives, ctxt, vars):
    if directives:
        stream = directives[0](iter(stream), directives[1:], ctxt, **vars)
    return stream


def _eval_expr(expr, ctxt, vars=None):
    if vars:
        ctxt.push(vars)
    retval = expr.evaluate(ctxt)
    if vars:
        ctxt.pop()
    return retval


class DirectiveFactory(object):
    directives = []

    def get_directive(self, name):
        for known, cls in self.directives:
            if known == name:
                return cls

    def get_directive_index(self, dir_cls):
        order = [cls for name, cls in self.directives]
        if dir_cls in order:
            return order.index(dir_cls)
        return len(order)
