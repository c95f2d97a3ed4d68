"""Loads the modules of /repo/py/qsonic from source, in isolation.

Every call of `Loader(...)` executes the current sources in fresh module
namespaces.  The code is unmodified; only the names it imports from outside of
the package are resolved through a table (`shims`), and, in symbolic mode, a
few builtins (int, float, any, all, min, max, ...) understand symbolic values.
"""
import builtins
import os
import sys
import types

ROOT = os.environ.get('QSONIC_SRC', '/repo/py')
_CODE = {}


def source_files():
    out = {}
    base = os.path.join(ROOT, 'qsonic')
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, ROOT)[:-3].replace(os.sep, '.')
            pkg = rel.endswith('.__init__')
            if pkg:
                rel = rel[:-len('.__init__')]
            out[rel] = (p, pkg)
        # namespace packages (scripts has no __init__)
        rel = os.path.relpath(d, ROOT).replace(os.sep, '.')
        out.setdefault(rel, (None, True))
    return out


_FILES = None


def code_of(name):
    global _FILES
    if _FILES is None:
        _FILES = source_files()
    if name not in _FILES:
        raise ModuleNotFoundError(f"No module named '{name}'", name=name)
    p, pkg = _FILES[name]
    if p is None:
        return None, None, True
    c = _CODE.get(p)
    if c is None:
        with open(p) as fh:
            c = compile(fh.read(), p, 'exec')
        _CODE[p] = c
    return c, p, pkg


class Loader:
    def __init__(self, shims, overrides):
        self.shims = shims
        self.mods = {}
        self.bi = dict(builtins.__dict__)
        self.bi.update(overrides)
        self.bi['__import__'] = self._import

    def mod(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = None
        if '.' in name:
            parent = self.mod(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        code, path, pkg = code_of(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.bi
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        m._loader_ = self
        if pkg:
            m.__path__ = []
        self.mods[name] = m
        if code is not None:
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == 'qsonic' or name.startswith('qsonic.'):
            m = self.mod(name)
            if not fromlist:
                return self.mod(name.split('.')[0])
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.mod(f"{name}.{f}")
                    except ModuleNotFoundError:
                        pass
            return m
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            top = name.split('.')[0]
            return self.shims.get(top, self.shims[name])
        top = name.split('.')[0]
        if top in self.shims:
            # submodule of a shimmed package
            m = self.shims[top]
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m if fromlist else self.shims[top]
        return __import__(name, globals, locals, fromlist, 0)
