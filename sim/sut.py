"""Loads the code under test from /repo's working tree.

Every simulated process gets its own copy of the dispersion modules, as a real
process would: module level state never outlives the process.  Code is compiled
from source once per worker; byte code caches are neither read nor written.
"""
import datetime
import importlib.abc
import importlib.util
import os
import sys
import time
import types
import warnings

REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PREFIX = os.path.join(SRC, 'dispersion') + os.sep
_CODE = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _CODE.get(self.path)
        if code is None:
            from . import seam
            with (seam._real.get('open') or open)(self.path, 'rb') as fpt:
                code = compile(fpt.read(), self.path, 'exec')
            _CODE[self.path] = code
        exec(code, module.__dict__)
        for key, value in list(module.__dict__.items()):
            if value is datetime:
                module.__dict__[key] = _Dates
            elif value is datetime.datetime:
                module.__dict__[key] = SimDatetime
            elif value is datetime.date:
                module.__dict__[key] = SimDate


class SimDatetime(datetime.datetime):
    """today's date and time as the simulated clock has it"""
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)


class SimDate(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())


class _DateModule(types.ModuleType):
    def __getattr__(self, name):
        return getattr(datetime, name)


_Dates = _DateModule('datetime')
_Dates.datetime, _Dates.date = SimDatetime, SimDate


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'dispersion' and not name.startswith('dispersion.'):
            return None
        base = os.path.join(SRC, *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.util.spec_from_file_location(name, init, loader=_Loader(init),
                                                          submodule_search_locations=[base])
            return spec
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Loader(base + '.py'))
        return None


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


class Sut(object):
    """one loaded copy of the package: attributes are the public names"""

    def __init__(self):
        for name in [n for n in sys.modules if n == 'dispersion' or n.startswith('dispersion.')]:
            del sys.modules[name]
        import dispersion
        import dispersion.config
        import dispersion.io
        self.pkg = dispersion
        self.modules = {n: m for n, m in sys.modules.items()
                        if n == 'dispersion' or n.startswith('dispersion.')}
        self.config = sys.modules['dispersion.config']
        self.io = sys.modules['dispersion.io']

    def make_current(self):
        """names imported late by the code under test resolve to this copy"""
        sys.modules.update(self.modules)

    def setup_script(self):
        self.make_current()
        import dispersion.scripts.setup_dispersion as script
        self.modules.update({n: m for n, m in sys.modules.items() if n.startswith('dispersion.scripts')})
        return script

    def rebuild_script(self):
        self.make_current()
        import dispersion.scripts.catalogue_rebuild as script
        self.modules.update({n: m for n, m in sys.modules.items() if n.startswith('dispersion.scripts')})
        return script

    def __getattr__(self, name):
        return getattr(self.pkg, name)


def load(home):
    """import the package with the given home directory"""
    old = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return Sut()
    finally:
        if old is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old
