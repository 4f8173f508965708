'''Loads fresh, independent "installations" of bitcoinx from /repo's working tree.

Each installation is a separate set of module objects (so caches, class attributes and
module globals are those of a freshly started process).  Source is compiled once per
check process and never from a stale bytecode file.
'''

import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        code = _code_cache.get(fullname)
        if code is None:
            path = self.get_filename(fullname)
            with _REAL_OPEN(path, 'rb') as f:
                source = f.read()
            code = compile(source, path, 'exec', dont_inherit=True)
            _code_cache[fullname] = code
        return code


    def get_data(self, path):
        # Package data, e.g. by pkgutil.get_data()
        with builtins.open(path, 'rb') as f:
            return f.read()


class _Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, fullname, path, target=None):
        if fullname != 'bitcoinx' and not fullname.startswith('bitcoinx.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        for fname, is_pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if _REAL_ISFILE(fname):
                return importlib.util.spec_from_file_location(
                    fullname, fname, loader=_Loader(fullname, fname),
                    submodule_search_locations=[base] if is_pkg else None)
        return None


_REAL_OPEN = open
_REAL_ISFILE = os.path.isfile


def install_finder():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def _is_bx(name):
    return name == 'bitcoinx' or name.startswith('bitcoinx.')


_BACKEND = ('Cryptodome', 'Crypto')


class Installation:
    '''One simulated installation of the library.'''

    active = None

    def __init__(self, *, without_cryptodome=False):
        hidden = {}
        for name in [n for n in sys.modules if _is_bx(n)]:
            del sys.modules[name]
        if without_cryptodome:
            for name in list(sys.modules):
                if name.split('.')[0] in _BACKEND:
                    hidden[name] = sys.modules.pop(name)
            for name in _BACKEND:
                sys.modules[name] = None
        try:
            self.bx = importlib.import_module('bitcoinx')
        finally:
            if without_cryptodome:
                for name in _BACKEND:
                    sys.modules.pop(name, None)
                sys.modules.update(hidden)
        assert self.bx.__file__.startswith(REPO + '/'), self.bx.__file__
        self.modules = {n: m for n, m in sys.modules.items() if _is_bx(n)}
        Installation.active = self

    def activate(self):
        if Installation.active is not self:
            for name in [n for n in sys.modules if _is_bx(n)]:
                del sys.modules[name]
            sys.modules.update(self.modules)
            Installation.active = self
        return self.bx

    def sub(self, name):
        '''A public submodule, e.g. cashaddr or packing.'''
        self.activate()
        return importlib.import_module('bitcoinx.' + name)
