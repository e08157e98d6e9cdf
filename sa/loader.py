"""Parsing of the analysed sources (Python 2.7 text) into Python 3 ASTs."""
import ast
import hashlib
import warnings

_cache = {}


def parse(path):
    with open(path, 'rb') as f:
        data = f.read()
    key = (path, hashlib.sha256(data).hexdigest())
    if key in _cache:
        return _cache[key]
    text = data.decode('utf-8')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tree = ast.parse(text, filename=path)
        except SyntaxError:
            from . import py2
            tree = ast.parse(py2.translate(text), filename=path)
    _cache[key] = tree
    return tree
