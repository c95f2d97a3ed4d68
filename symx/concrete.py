"""The same harness on concrete inputs: real numpy, real FITS files."""
import os
import shutil
import tempfile
import types

import numpy as _np

from . import core, symenv, api, arr
from .core import Stop

CUR = None


class _Np(types.ModuleType):
    """numpy, with uninitialised memory made visible."""

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, n):
        return getattr(_np, n)

    @staticmethod
    def _poison(a):
        if a.dtype.names:
            for n in a.dtype.names:
                _Np._poison(a[n])
        elif a.dtype.kind == 'f':
            a.fill(_np.nan)
        elif a.dtype.kind in 'iu':
            a.fill(77)
        return a

    @staticmethod
    def empty(*a, **k):
        return _Np._poison(_np.empty(*a, **k))

    @staticmethod
    def empty_like(*a, **k):
        return _Np._poison(_np.empty_like(*a, **k))


NP = _Np()


class Engine(api.API):
    symbolic = False
    np = NP

    def __init__(self, harness, params, model):
        self.harness, self.params, self.model = harness, params, model
        self.failures = []
        self.observed = {}
        self.warnings, self.logged = [], []
        self.caught = []
        self.stubs = {}
        self._ld = None
        self.tmp = None
        self.stopped = False
        self.checked = 0
        self.err = None

    def _shims(self):
        t = symenv.shims_concrete()
        t['numpy'] = NP
        import numpy.lib.recfunctions
        t['numpy.lib.recfunctions'] = numpy.lib.recfunctions
        tmp = os.path.realpath(self.tmp)

        def makedirs(p, *a, **k):
            q = os.path.realpath(p)
            if q.startswith(tmp):
                os.makedirs(p, *a, **k)
        t['os']._cache['makedirs'] = makedirs
        t['os']._cache['mkdir'] = lambda p, *a, **k: makedirs(p, exist_ok=True)
        for n in ('remove', 'unlink', 'rmdir', 'removedirs', 'rename',
                  'replace', 'system', 'kill', 'popen', 'chmod', 'chown',
                  'symlink', 'link', 'truncate'):
            def rec(*a, _n=n, **k):
                self.logged.append(('os.' + _n, a))
                if _n in ('remove', 'unlink') and os.path.realpath(
                        str(a[0])).startswith(tmp + os.sep):
                    os.remove(a[0])
            t['os']._cache[n] = rec
        return t

    def _overrides(self):
        return dict(symenv.OVERRIDES_CONCRETE)

    def run(self):
        global CUR
        CUR = self
        old_err = _np.seterr(all='ignore')
        import warnings
        self.tmp = tempfile.mkdtemp(prefix='symx-')
        cwd = os.getcwd()
        try:
            os.chdir(self.tmp)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.harness(self, **self.params)
        except Stop:
            self.stopped = True
        except api.Inapplicable as e:
            self.stopped = True
            self.err = str(e)
        except Exception as e:
            import traceback
            if blame(e):
                tb = traceback.extract_tb(e.__traceback__)
                self.failures.append((
                    'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                    ' <- '.join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}"
                                f":{f.name}" for f in tb[-5:])))
            else:
                self.stopped = True
                self.err = 'harness: ' + ''.join(
                    traceback.format_exception(e))[-1500:]
        finally:
            os.chdir(cwd)
            shutil.rmtree(self.tmp, ignore_errors=True)
            _np.seterr(**old_err)
            CUR = None
        return self

    # ------------------------------------------------------------- inputs
    def _in(self, name, default):
        return self.model.get(name, default)

    def real(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0.)
        v = _np.float64(self._in(name, d))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Stop()
        return v

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0)
        v = int(self._in(name, d))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Stop()
        return v

    def bool(self, name):
        return bool(self._in(name, False))

    def string(self, name, vals):
        return sorted(vals)[int(self._in(name, 0))]

    def choice(self, name, vals):
        return list(vals)[int(self._in(name, 0))]

    def positive_root(self, r):
        pass

    def assume(self, c):
        if not c:
            raise Stop()

    def feasible(self):
        pass

    # -------------------------------------------------------- obligations
    def check(self, c, label):
        self.checked += 1
        self.observed.setdefault(label, bool(c))
        if not bool(c):
            self.failures.append((label, ''))

    def close(self, a, b, label, rtol=1e-7, atol=1e-7):
        a, b = _np.asarray(a), _np.asarray(b)
        self.checked += 1
        if a.shape != b.shape:
            self.failures.append((label, f'shape {a.shape} != {b.shape}'))
            return
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            if not bool(_np.all(a == b)):
                self.failures.append((label, f'{a!r} != {b!r}'))
            return
        if a.dtype.kind not in 'fc' and b.dtype.kind not in 'fc':
            for i, x in enumerate(a.ravel()):
                self.observed.setdefault(
                    f'{label}[{i}]' if a.ndim else label, float(x))
            ok = _np.array_equal(a, b)
            if not ok:
                self.failures.append((label, f'{a!r} != {b!r}'))
            return
        a, b = a.astype(float), b.astype(float)
        if a.ndim:
            for i, x in enumerate(a.ravel()):
                self.observed.setdefault(f'{label}[{i}]', float(x))
        else:
            self.observed.setdefault(label, float(a))
        bad = ~_np.isclose(a, b, rtol=rtol * 10, atol=atol * 10,
                           equal_nan=True)
        if bad.any():
            self.failures.append((label, f'{a.tolist()} != {b.tolist()}'))

    def same(self, a, b):
        """Truth value of equality (tolerant for floats)."""
        a, b = _np.asarray(a), _np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'f' or b.dtype.kind == 'f':
            return bool(_np.allclose(a, b, rtol=1e-7, atol=1e-7,
                                     equal_nan=True))
        return bool(_np.all(a == b))

    # --------------------------------------------------------------- data
    def arr(self, x, kind=None):
        dt = {'f': float, 'i': int, 'b': bool, None: None}[kind]
        return _np.array(x, dtype=dt)

    def table(self, cols, size=None):
        n = size
        parts = {}
        for c, v in cols.items():
            v = _np.asarray(v)
            if v.dtype.kind == 'U' and v.size == 0:
                v = v.astype('U8')
            parts[c] = v
            n = len(v)
        dt = [(c, v.dtype, v.shape[1:]) if v.ndim > 1 else (c, v.dtype)
              for c, v in parts.items()]
        out = _np.zeros(n, dtype=dt)
        for c, v in parts.items():
            out[c] = v
        return out

    def path(self, name):
        return os.path.join(self.tmp, name)

    def fits(self, path, hdus):
        import fitsio
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            for ext, data, hdr in hdus:
                f.write(data, extname=ext, header=hdr or None)
        return path

    def mkdir(self, path):
        os.makedirs(path, exist_ok=True)

    def openfits(self, path):
        import fitsio
        os.makedirs(os.path.dirname(path), exist_ok=True)
        return fitsio.FITS(path, 'rw', clobber=True)

    def exists(self, path):
        return os.path.exists(path)

    def read_fits(self, path):
        import fitsio
        out = []
        with fitsio.FITS(path) as f:
            for i, h in enumerate(f):
                if i == 0 and h.get_exttype() == 'IMAGE_HDU' and \
                        not h.has_data():
                    continue
                d = h.read()
                if isinstance(d, _np.ndarray):
                    d = d.astype(d.dtype.newbyteorder('='))
                out.append(api.HData(h.get_extname(), d, h.read_header()))
        return out

    def files(self):
        out = []
        for d, _, fs in os.walk(self.tmp):
            out += [os.path.join(d, f) for f in fs]
        return sorted(out)

    def textfile(self, path, lines):
        if not os.path.isabs(path):
            path = self.path(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write('\n'.join(str(x) for x in lines) + '\n')
        return path

    def value(self, x):
        return x


def blame(e):
    """Is the code under test to blame for this exception?

    Yes if the innermost relevant frame is its own. In a harness frame, only
    if a result lacks an entry (or is a file) that it has to have.
    """
    import traceback
    tb = e.__traceback__
    lacks = isinstance(e, (KeyError, IndexError)) or (
        isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e))
    # an output file that cannot be read
    lacks = lacks or isinstance(e, OSError) and any(
        f.name == 'read_fits' for f in traceback.extract_tb(tb))
    import sysconfig
    std = sysconfig.get_paths()['stdlib']
    for f in reversed(traceback.extract_tb(tb)):
        fn = f.filename
        if '/harness/' in fn:
            return lacks
        if '/qsonic/' in fn and '/symx/' not in fn:
            return True
        if '/symx/' in fn or 'site-packages' in fn or fn.startswith(std) or \
                fn.startswith('<'):
            continue
    return False
