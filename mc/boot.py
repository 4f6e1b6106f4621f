"""Environment of every check: runs the code of /repo (Python 2, through the
import hook the sandbox's own test runner uses) and gives access to it.

Only the public surface of ampas/CLF is used by the checks."""
import io
import os
import sys
import types
import warnings

REPO = '/repo/python'
HOOK = '/opt/vp/py2'

# absolute so that nothing depends on the cwd
sys.path.insert(0, HOOK)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np                                            # noqa: E402
warnings.filterwarnings('ignore')

_cache = {}


def _mod(name):
    if name not in _cache:
        import importlib
        import py2compat                                      # noqa: F401
        # lib2to3 and the hook may touch warning filters
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _cache[name] = importlib.import_module(name)
    return _cache[name]


def clf():
    return _mod('aces.clf')


def lutformats():
    """The format registry.  It carries its own copy of the clf package."""
    clf()
    return _mod('aces.lutFormats')


def fmt_clf():
    """The clf package object the format readers and writers use."""
    lutformats()
    return sys.modules['clf'] if 'clf' in sys.modules else clf()


def converter(name):
    lutformats()
    return _mod('aces.' + name)


_scripts = {}


def script(name, argv):
    """Run one of the bin/ scripts in this process with the given arguments."""
    lutformats()
    import py2compat
    path = os.path.join(REPO, 'bin', name)
    if path not in _scripts:
        with open(path, 'rb') as f:
            data = f.read()
        src = py2compat.translate(data, path)
        _scripts[path] = src if isinstance(src, types.CodeType) else compile(src, path, 'exec')
    old, oldpath = sys.argv, list(sys.path)
    sys.argv = [name] + list(argv)
    try:
        exec(_scripts[path], {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__})
    finally:
        sys.argv = old
        sys.path[:] = oldpath


def stub(name, module):
    sys.modules[name] = module
    return module


def all_clfs():
    out = [_cache['aces.clf']] if 'aces.clf' in _cache else []
    if 'clf' in sys.modules and sys.modules['clf'] not in out:
        out.append(sys.modules['clf'])
    return out


def features(value='All'):
    """Set the feature flag on every copy of the package that is loaded."""
    for c in all_clfs():
        c.setFeatureCompatibility(c.featureSets[value] if isinstance(value, str) else value)


class Null(io.TextIOBase):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def writable(self):
        return True


class Capture(object):
    """with Capture() as c: ...  ->  c.text"""

    def __enter__(self):
        self._old = sys.stdout
        self._buf = io.StringIO()
        sys.stdout = self._buf
        return self

    def __exit__(self, *a):
        sys.stdout = self._old
        self.text = self._buf.getvalue()
        return False


def quiet():
    sys.stdout = Null()
    sys.stderr = Null()
    warnings.filterwarnings('ignore')
