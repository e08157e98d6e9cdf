"""V15 — the bundled message catalogs fit the messages of the code."""
import ast
import glob
import os
import re

from sa.oblig import Check
from sa import loader

check = Check('V15', 'The bundled translations are of the very messages the validators use')
M = 'flatland.validation.'
ENTRY = re.compile(r'(msgid_plural|msgid|msgstr(?:\[\d+\])?) (".*")$')
NAMES = re.compile(r'%\((\w+)\)([a-zA-Z])|%%')


def catalog(path):
    """The entries of a .po file: {'msgid', 'msgid_plural', 'msgstr...', 'who': [Class.attr], 'line'}."""
    out, cur, key, who = [], None, None, []
    with open(path, encoding='utf-8') as f:
        for no, line in enumerate(f, 1):
            line = line.rstrip('\r\n')
            m = ENTRY.match(line)
            if m:
                if m.group(1) == 'msgid':
                    cur = {'who': who, 'line': no}
                    who = []
                    out.append(cur)
                key = m.group(1)
                cur[key] = ast.literal_eval(m.group(2))
            elif line.startswith('"'):
                cur[key] += ast.literal_eval(line)
            elif line.startswith('#. TRANSLATORS:'):
                who = who + re.findall(r'\w+\.\w+', line)
    return [e for e in out if e['msgid']]


def root(S):
    return os.environ.get('FLATLAND_REPO', '/repo')


def catalogs(S):
    base = os.path.join(root(S), 'flatland', 'i18n')
    yield 'flatland/i18n/flatland.pot', catalog(os.path.join(base, 'flatland.pot'))
    for p in sorted(glob.glob(os.path.join(base, '*', 'LC_MESSAGES', '*.po'))):
        yield os.path.relpath(p, root(S)), catalog(p)


def texts(msg):
    """(singular, plural or None) of a message attribute, or None."""
    if isinstance(msg, str):
        return str(msg), None
    p = getattr(msg, 'p', msg)
    if isinstance(p, (tuple, list)) and len(p) == 3 and all(isinstance(x, str) for x in p):
        return str(p[0]), str(p[1])
    return None


def holes(text):
    return set((m.group(1), 'number' if m.group(2) in 'dif' else 'text') for m in NAMES.finditer(text) if m.group(1))


def messages(S):
    """(class, key, message, file, line) of every message noted under a literal key."""
    base = S.get(M + 'base:Validator')
    seen = set()
    for cls in S.subclasses(base):
        for fn, call, file in S.methods_calls(cls, ('note_error', 'note_warning')):
            key = call.args[2] if len(call.args) > 2 else dict((k.arg, k.value) for k in call.keywords).get('key')
            if not isinstance(key, ast.Constant) or not isinstance(key.value, str):
                S.skip('computed key')
                continue
            msg = S.class_attr(cls, key.value)
            if msg is S.MISSING or (cls.name, key.value) in seen:
                continue
            seen.add((cls.name, key.value))
            yield cls, key.value, msg, file, call.lineno


@check.rule('catalogued', [M + 'base:Validator'], 'every message a shipped validator notes is a msgid (with its plural) of the template and of every bundled catalog')
def catalogued(S):
    cats = list(catalogs(S))
    for cls, key, msg, file, line in messages(S):
        t = texts(msg)
        if t is None:
            S.skip('message that is not text')
            continue
        S.count('messages of validators')
        for path, entries in cats:
            S.count('lookups in catalogs')
            if not any(e['msgid'] == t[0] and e.get('msgid_plural') == t[1] for e in entries):
                yield '%s.%s' % (cls.name, key), file, line, 'the message %r of %s.%s is not in %s' % (t[0], cls.name, key, path)


@check.rule('described', [M + 'base:Validator'], 'a catalog entry said to be of Class.attribute is the message that attribute holds')
def described(S):
    classes = dict((c.name, c) for c in S.subclasses(S.get(M + 'base:Validator')))
    for path, entries in catalogs(S):
        for e in entries:
            for who in e['who']:
                name, attr = who.split('.')
                if name not in classes:
                    S.skip('entry of a class that is not a validator')
                    continue
                S.count('entries of named messages')
                msg = S.class_attr(classes[name], attr)
                t = None if msg is S.MISSING else texts(msg)
                if t != (e['msgid'], e.get('msgid_plural')):
                    yield who, path, e['line'], '%s holds %r, the entry translates %r' % (who, t and t[0], e['msgid'])


@check.rule('translated', [M + 'base:Validator'], 'a translation uses no placeholder its message lacks, drops none of the singular and plural forms, and has no stray percent sign')
def translated(S):
    for path, entries in catalogs(S):
        for e in entries:
            known = holes(e['msgid']) | holes(e.get('msgid_plural', ''))
            for k in sorted(e):
                if not k.startswith('msgstr') or not e[k]:
                    continue
                S.count('translated texts')
                extra = holes(e[k]) - known
                if extra:
                    yield e['msgid'], path, e['line'], 'the translation %r uses %s' % (e[k], sorted(extra))
                if '%' in NAMES.sub('', e[k]):
                    yield e['msgid'], path, e['line'], 'the translation %r has a stray percent sign' % e[k]
            if 'msgid_plural' in e:
                forms = [bool(e[k]) for k in e if k.startswith('msgstr')]
                if len(forms) < 2 or len(set(forms)) > 1:
                    yield e['msgid'], path, e['line'], 'some plural forms are translated and others not'
