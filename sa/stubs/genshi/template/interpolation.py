from genshi.core import TEXT
from genshi.template.base import EXPR
from genshi.template.eval import Expression


def interpolate(text, filepath=None, lineno=-1, offset=0, lookup='strict'):
    pos = (filepath, lineno, offset)
    parts = text.split(u'${')
    if parts[0]:
        yield TEXT, parts[0], pos
    for part in parts[1:]:
        code, rest = part.split(u'}', 1)
        yield EXPR, Expression(code), pos
        if rest:
            yield TEXT, rest, pos
