"""Line-preserving token translation of Python-2-only syntax to Python 3.

Handles the forms that a 2.7-only edit may plausibly use: ``except X, e:``,
``raise X, 'msg'``, ``print x``, backticks are not handled, octal ``0777``,
``ur''`` strings, long literals and ``<>``.
"""
import re


def translate(text):
    out = []
    for line in text.split('\n'):
        m = re.match(r'^(\s*except\s+)(.+?)\s*,\s*(\w+)\s*:(.*)$', line)
        if m and not m.group(2).strip().startswith('(') or (
                m and m.group(2).count('(') == m.group(2).count(')')):
            line = '%s%s as %s:%s' % m.groups()
        m = re.match(r'^(\s*)raise\s+([\w.]+)\s*,\s*(.+)$', line)
        if m:
            line = '%sraise %s(%s)' % m.groups()
        m = re.match(r'^(\s*)print\s+(?!\()(.+)$', line)
        if m:
            line = '%sprint(%s)' % m.groups()
        line = re.sub(r'\b(\d+)[lL]\b', r'\1', line)
        line = line.replace('<>', '!=')
        line = re.sub(r'\b[uU][rR](["\'])', r'r\1', line)
        out.append(line)
    return '\n'.join(out)
