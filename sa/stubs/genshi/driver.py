"""A template as a tree, attached and rendered the way Genshi's MarkupTemplate does."""
from genshi.core import _ensure, QName, Attrs, START, END, TEXT, Namespace
from genshi.template.base import EXPR, SUB, _apply_directives, _eval_expr, Context
from genshi.template.eval import Expression
from genshi.template.directives import Directive
from genshi.template.interpolation import interpolate

XHTML = u'http://www.w3.org/1999/xhtml'
POS = (None, 1, 0)


class If(Directive):
    def __call__(self, stream, directives, ctxt, **vars):
        if _eval_expr(self.expr, ctxt, vars):
            return _apply_directives(stream, directives, ctxt, vars)
        return []


class For(Directive):
    """for x in <expr>"""
    def __call__(self, stream, directives, ctxt, **vars):
        stream = list(stream)
        for item in _eval_expr(self.expr, ctxt, vars):
            ctxt.push({u'x': item})
            for event in _apply_directives(stream, directives, ctxt, vars):
                yield event
            ctxt.pop()


class Boom(Directive):
    def __call__(self, stream, directives, ctxt, **vars):
        raise ZeroDivisionError('boom')


def text(value):
    return [e for e in interpolate(value)]


def node(factory, tag, attrs=(), controls=(), foreign=(), children=()):
    """An element; attrs are (name, text) pairs, controls (directive name, text), foreign directive objects."""
    name = QName(u'%s}%s' % (XHTML, tag))
    al = []
    for k, v in attrs:
        v = text(v) if u'${' in v else v
        al.append((QName(k), v))
    inner = []
    for child in children:
        if isinstance(child, basestring):
            inner.extend(text(child))
        else:
            inner.extend(child)
    stream = [(START, (name, Attrs(al)), POS)] + inner + [(END, name, POS)]
    directives = list(foreign)
    ordered = sorted([(factory.get_directive_index(factory.get_directive(k)), k, v) for k, v in controls])
    for index, k, v in ordered:
        directive, stream = factory.get_directive(k).attach(None, stream, v, {}, POS)
        if directive is not None:
            directives.append(directive)
    if directives:
        return [(SUB, (directives, stream), POS)]
    return stream


def block(factory, name, attrs, children=()):
    """A directive element such as form:with."""
    inner = []
    for child in children:
        if isinstance(child, basestring):
            inner.extend(text(child))
        else:
            inner.extend(child)
    directive, stream = factory.get_directive(name).attach(None, inner, dict(attrs), {}, POS)
    return [(SUB, ([directive], stream), POS)]


def flatten(stream, ctxt):
    for kind, data, pos in stream:
        if kind is START:
            tag, attrs = data
            out = []
            for name, value in attrs:
                if type(value) is list:
                    values = [e[1] for e in flatten(value, ctxt) if e[0] is TEXT]
                    if not values:
                        continue
                    value = u''.join(values)
                out.append((name, value))
            yield kind, (tag, Attrs(out)), pos
        elif kind is EXPR:
            result = _eval_expr(data, ctxt, None)
            if result is None:
                continue
            if isinstance(result, basestring):
                yield TEXT, result, pos
            elif hasattr(result, '__iter__'):
                for event in flatten(_ensure(result), ctxt):
                    yield event
            else:
                yield TEXT, unicode(result), pos
        elif kind is SUB:
            for event in flatten(_apply_directives(data[1], data[0], ctxt, {}), ctxt):
                yield event
        else:
            yield kind, data, pos


def tree(stream, ctxt):
    """(tag, {attribute: value}, [children]) triples and texts; texts that are markup come as ('markup', text)."""
    top = []
    stack = [top]
    for kind, data, pos in flatten(stream, ctxt):
        if kind is START:
            attrs = [(unicode(k), v) for k, v in data[1]]
            item = (data[0].localname, attrs, [])
            stack[-1].append(item)
            stack.append(item[2])
        elif kind is END:
            stack.pop()
        elif hasattr(data, '__html__'):
            stack[-1].append((u'markup', data))
        else:
            stack[-1].append(data)
    return top
