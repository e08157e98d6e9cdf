"""C08 — names and separators are matched literally."""
from sa.oblig import Check
from sa import rx

check = Check('C08', 'Names and separators are literal in flat keys, whatever their characters')
C = 'flatland.schema.containers:'
META = u'.^$*+?{}[]\\|()-#& '


def shapes(name, sep):
    """(schema source, key of the leaf, near misses)"""
    return [
        ('List.named(N).of(String.named(u"m"))', name + sep + u'0' + sep + u'm'),
        ('List.named(N).of(String)', name + sep + u'0'),
        ('Array.named(N).of(String)', name),
        ('Array.named(N).of(String.named(u"m"))', name + sep + u'm'),
        ('MultiValue.named(N).of(String)', name),
        ('Dict.named(N).of(String.named(u"m"))', name + sep + u'm'),
        ('List.of(Dict.of(String.named(N)))', u'0' + sep + name),
        ('Dict.of(List.named(N).of(String.named(u"m")))', name + sep + u'0' + sep + u'm'),
        ('Dict.of(Array.named(N).of(String))', name),
    ]


@check.ob('literal', [C + 'List._set_flat', C + 'Array._set_flat', C + 'Mapping._set_flat', 'flatland.util.base:re_uescape'],
          'for every pattern metacharacter in the name or the separator the exact key is taken and a key differing in '
          'that character is not', max_runs=20000)
def literal(ctx):
    c = ctx.choose(*META)
    where = ctx.choose('name', 'sep')
    name = u'a%sb' % c if where == 'name' else u'nm'
    sep = c if where == 'sep' else u'_'
    if where == 'sep' and c.isdigit():
        return
    src, key = ctx.choose(*shapes(name, sep))
    other = u'q' if c != u'q' else u'z'
    variant = ctx.choose('exact', 'replaced', 'dropped', 'doubled')
    k = {'exact': key, 'replaced': key.replace(c, other), 'dropped': key.replace(c, u''),
         'doubled': key.replace(u'a', u'aa') if where == 'name' else key.replace(c, c + c)}[variant]
    if k == key and variant != 'exact':
        return
    ns = ctx.do('el = %s()\nel.set_flat([(K, u"val")], sep=S)' % src, N=name, K=k, S=sep)
    flat = ctx.items(ctx.m(ns['el'], 'flatten', sep=sep)) if 'Array' not in src and 'Multi' not in src else []
    vals = [ctx.R(p[1]) for p in flat]
    if 'Array' in src or 'Multi' in src:
        v = ctx.R(ctx.attr(ns['el'], 'u'))
        vals = [u'val'] if u'val' in v else []
    hit = u'val' in vals
    if variant == 'exact':
        ctx.check(hit, 'the key %r of %s (name %r, sep %r) is not recognized' % (k, src, name, sep))
    else:
        ctx.check(not hit, 'the key %r is taken for %r (name %r, sep %r)' % (k, key, name, sep))


@check.ob('escape', ['flatland.util.base:re_uescape'], 'the escape function turns every ASCII character into a pattern matching only itself')
def escape(ctx):
    c = ctx.choose(*[chr(i) for i in range(1, 128)])
    out = ctx.R(ctx.call(ctx.get('flatland.util.base:re_uescape'), u'x' + c + u'y'))
    if not isinstance(out, str):
        ctx.undecided('escape result %r' % (out,))
    try:
        tree = list(rx.parse(out))
    except Exception as e:
        ctx.fail('escaping %r yields the invalid pattern %r' % (c, out))
    sets = []
    for op, arg in tree:
        sets.append(rx.charset(op, arg))
    ctx.check(len(sets) == 3 and all(s is not None and len(s) == 1 for s in sets) and sets[1] == {c},
              'escaping %r yields %r, which does not match just that character' % (c, out))


@check.ob('sequences', [C + 'List._set_flat', C + 'Array._set_flat', C + 'Mapping._set_flat', 'flatland.util.base:re_uescape'],
          'the same for names in which an odd character is followed by a digit, a letter with a meaning in patterns, or another odd character')
def sequences(ctx):
    c = ctx.choose(*(META + u'\x00\n\t'))
    d = ctx.choose(u'1', u'01', u'd', u'Z', u'*', u'?', u'+', u'{2}', u'\\', u')', u']', u'\xe9')
    name = u'a%s%sb' % (c, d)
    for src, key in shapes(name, u'_') + shapes(u'nm', c + d):
        sep = u'_' if name in key else c + d
        if sep != u'_' and (d[-1].isdigit() or src.startswith('List.of(Dict')):
            continue
        ns = ctx.do('el = %s()\nel.set_flat([(K, u"val")], sep=S)\nr = [e.u for e in [el] + list(el.all_children)]' % src, N=name if name in key else u'nm', K=key, S=sep)
        got = [ctx.R(x) for x in ctx.items(ns['r'])]
        ctx.check(u'val' in got, 'the key %r of %s (sep %r) is not recognized' % (key, src, sep))
