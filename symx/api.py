"""Harness API shared by the symbolic and the concrete engine."""
import sys

import numpy as _np

from . import core, arr, spmd, loader as _loader


class Inapplicable(core.Control):
    """The harness does not fit this tree (a name it drives is gone)."""


class HData:
    def __init__(self, ext, data, hdr):
        self.ext, self.data, self.hdr = ext, data, hdr


class _Recorder:
    """fitsio of one rank: notes which files are created anew."""

    def __init__(self, real, rank, log):
        if real is None:
            import fitsio as real
        self._real, self._rank, self._log = real, rank, log

    def __getattr__(self, k):
        return getattr(self._real, k)

    def FITS(self, filename, *a, **k):
        if k.get('clobber'):
            self._log.setdefault(str(filename), set()).add(self._rank)
        return self._real.FITS(filename, *a, **k)


class API:
    """Needs: symbolic, stubs, warnings, logged; see core.Engine, concrete."""

    def mod(self, name):
        if self._ld is None:
            self._ld = self.new_loader()
        return self._ld.mod(name)

    def get(self, modname, path):
        """Attribute of a module of the code under test."""
        try:
            o = self.mod(modname)
        except ModuleNotFoundError as e:
            raise Inapplicable(str(e))
        for p in path.split('.'):
            if not hasattr(o, p):
                raise Inapplicable(f'{modname}.{path} is gone')
            o = getattr(o, p)
        return o

    def new_loader(self):
        return _loader.Loader(self._shims(), self._overrides())

    def spmd(self, n, fn):
        lds = [self.new_loader() for _ in range(n)]
        if n == 1 and self._ld is not None:
            lds = [self._ld]
        self.clobbered = {}
        if n > 1:
            for r, ld in enumerate(lds):
                ld.shims = dict(ld.shims)
                ld.shims['fitsio'] = _Recorder(
                    ld.shims.get('fitsio'), r, self.clobbered)
        return spmd.run(n, lds, fn)

    def shared_files(self):
        """Files that more than one rank of the last spmd overwrote."""
        return sorted(f for f, r in self.clobbered.items() if len(r) > 1)

    def comm1(self):
        """A communicator of size one."""
        w = spmd.World(1)
        w.turn = 0
        w.loaders = [None]
        return spmd.Comm(w, 0)

    def stub(self, key, fn):
        self.stubs[key] = fn

    def attempt(self, fn, *a, **k):
        """-> (value, exception)"""
        try:
            return fn(*a, **k), None
        except SystemExit as e:
            return None, e
        except Exception as e:
            if core.CUR is not None:
                core.CUR.caught.append(e)
            return None, e

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def bools(self, name, n):
        return [self.bool(f"{name}{i}") for i in range(n)]

    def fail(self, label):
        self.check(False, label)
