"""Syntax trees of the current sources, dumped by Jython's own parser (nothing is dropped:
the interpreter refuses any node it does not implement)."""
import os
from .jy import server, REPO, STUBS


STUBS_SYM = os.path.join(os.path.dirname(STUBS), 'stubs_sym')
SYM = True


class N(object):
    __slots__ = ('_', '__dict__')

    def __repr__(self):
        return '<%s:%s>' % (self._, getattr(self, 'lineno', '?'))


_EMPTY = ()


def conv(d):
    if isinstance(d, dict):
        if '#' in d:
            t = d['#']
            if t in ('int', 'long'):
                return int(d['v'])
            if t == 'float':
                return float(d['v'])
            if t == 'str':
                return d['v']
            return ('unicode', d['v'])
        n = N()
        n._ = d['_']
        for k, v in d.items():
            if k != '_':
                n.__dict__[k] = conv(v)
        if n._ == 'Num':
            n.value = n.n
        elif n._ == 'Str':
            n.value = n.s[1] if isinstance(n.s, tuple) else n.s.encode('latin-1')
        return n
    if isinstance(d, list):
        return [conv(x) for x in d]
    return d


_cache = {}


def parse(path):
    if path not in _cache:
        _cache[path] = conv(server.ast(path))
    return _cache[path]


def find_module(name, package):
    """implicit relative import first (Python 2), then absolute. -> (canonical name, path) or None"""
    cands = []
    if package:
        cands.append((REPO, package + '.' + name))
    n = name
    if n.startswith('cryptopy.'):
        n = n[len('cryptopy.'):]
    elif n == 'cryptopy':
        n = ''
    cands.append((REPO, n))
    cands.append((STUBS_SYM, name))
    cands.append((STUBS, name))
    for root, nm in cands:
        base = os.path.join(root, *nm.split('.')) if nm else root
        if os.path.isfile(base + '.py'):
            return nm, base + '.py', (nm.rsplit('.', 1)[0] if '.' in nm else '')
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return nm, os.path.join(base, '__init__.py'), nm
    return None
