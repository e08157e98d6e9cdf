"""Deciding regular-expression facts from the pattern text (sre parse tree)."""
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:      # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

DIGITS = set(u'0123456789')
CATS = {
    'CATEGORY_DIGIT': DIGITS,
    'CATEGORY_WORD': set(u'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'),
    'CATEGORY_SPACE': set(u' \t\n\r\f\v'),
}
ALL = set(chr(i) for i in range(128))


def parse(pattern, flags=0):
    return sre_parse.parse(pattern, flags)


def charset(op, arg):
    """ASCII character set of a one-character node or None."""
    op = str(op)
    if op == 'LITERAL':
        return set([chr(arg)])
    if op == 'NOT_LITERAL':
        return ALL - set([chr(arg)])
    if op == 'ANY':
        return ALL - set([u'\n'])
    if op == 'CATEGORY':
        n = str(arg)
        if n in CATS:
            return set(CATS[n])
        n2 = n.replace('NOT_', '')
        if n2 in CATS:
            return ALL - CATS[n2]
        return None
    if op == 'IN':
        out, neg = set(), False
        for o, a in arg:
            if str(o) == 'NEGATE':
                neg = True
            elif str(o) == 'RANGE':
                out |= set(chr(i) for i in range(a[0], min(a[1], 127) + 1))
            else:
                c = charset(o, a)
                if c is None:
                    return None
                out |= c
        return ALL - out if neg else out
    return None


class Item(object):
    """A symbolic character: any member of `chars`, tagged with its origin."""

    def __init__(self, chars, tag=None):
        self.chars = set(chars)
        self.tag = tag


def match_fixed(tree, items, pos=0, groups=None, nodes=None):
    """All ways the symbolic word `items` is matched in full (every
    concretisation, character classes being included).  Yields
    (end, {group: (start, end)})."""
    groups = groups or {}
    nodes = list(tree) if nodes is None else nodes
    if not nodes:
        yield pos, groups
        return
    (op, arg), rest = nodes[0], nodes[1:]
    o = str(op)
    if o == 'AT':
        a = str(arg)
        if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            if pos == 0:
                yield from match_fixed(None, items, pos, groups, rest)
        elif a in ('AT_END', 'AT_END_STRING'):
            if pos == len(items):
                yield from match_fixed(None, items, pos, groups, rest)
        else:
            raise ValueError(a)
        return
    if o == 'SUBPATTERN':
        gid, _, _, sub = arg
        for e, g in match_fixed(None, items, pos, groups, list(sub)):
            g = dict(g)
            if gid is not None:
                g[gid] = (pos, e)
            yield from match_fixed(None, items, e, g, rest)
        return
    if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = arg
        hi = len(items) if hi == sre_c.MAXREPEAT else int(hi)
        frontier = [(pos, groups)]
        out = []
        for n in range(0, hi + 1):
            if n >= lo:
                out.extend(frontier)
            nxt = []
            for p, g in frontier:
                for e, g2 in match_fixed(None, items, p, g, list(sub)):
                    if e > p:
                        nxt.append((e, g2))
            frontier = nxt
            if not frontier:
                break
        if o == 'MAX_REPEAT':
            out.reverse()
        for p, g in out:
            yield from match_fixed(None, items, p, g, rest)
        return
    if o == 'BRANCH':
        for b in arg[1]:
            yield from match_fixed(None, items, pos, groups, list(b) + rest)
        return
    cs = charset(op, arg)
    if cs is None:
        raise ValueError(o)
    if pos < len(items) and items[pos].chars <= cs:
        yield from match_fixed(None, items, pos + 1, groups, rest)


def fmt_width(spec):
    """Digits written by a zero-padded integer conversion, or None."""
    m = re.match(r'^%0(\d+)[diu]$', spec)
    if m:
        return int(m.group(1))
    m = re.match(r'^%\.(\d+)[diu]$', spec)
    return int(m.group(1)) if m else None
