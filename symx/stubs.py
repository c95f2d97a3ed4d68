"""In-memory FITS files and proxies of third-party libraries."""
import operator
import types

import numpy as _np

from . import core, arr
from .arr import SymArray, SymRec, asarr, to_real, from_real


def eng():
    from . import concrete
    e = core.CUR
    return e if e is not None else concrete.CUR


# ------------------------------------------------------------------ FITS
_STRUCT = {'XTENSION', 'BITPIX', 'NAXIS', 'NAXIS1', 'NAXIS2', 'NAXIS3',
           'PCOUNT', 'GCOUNT', 'TFIELDS', 'EXTNAME', 'SIMPLE', 'EXTEND'}


class Header:
    """fitsio.FITSHDR look-alike."""

    def __init__(self, d=()):
        self._d = {}
        for k in (d.keys() if hasattr(d, 'keys') else ()):
            self[k] = d[k]

    def __setitem__(self, k, v):
        self._d[str(k).upper()] = v

    def __getitem__(self, k):
        if str(k).upper() not in self._d:
            raise KeyError(f"unknown record: {k}")
        return self._d[str(k).upper()]

    def get(self, k, default=None):
        return self._d.get(str(k).upper(), default)

    def __contains__(self, k):
        return str(k).upper() in self._d

    def keys(self):
        return list(self._d)

    def items(self):
        return list(self._d.items())

    def values(self):
        return list(self._d.values())

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __delitem__(self, k):
        self._d.pop(str(k).upper(), None)

    delete = __delitem__

    def copy(self):
        return Header(self._d)

    def __deepcopy__(self, memo):
        return self.copy()

    def add_record(self, r):
        self[r['name']] = r['value']

    def clean(self, **k):
        for s in _STRUCT:
            self._d.pop(s, None)

    def records(self):
        return [dict(name=k, value=v) for k, v in self._d.items()]


class HDU:
    def __init__(self, ext, rec=None, image=None, header=()):
        self.ext = ext or ''
        self.rec, self.image = rec, image
        self.hdr = Header(header)

    def get_extname(self):
        return self.ext

    def get_colnames(self):
        if self.rec is None:
            raise AttributeError("'ImageHDU' object has no attribute "
                                 "'get_colnames'")
        return list(self.rec.names)

    def has_data(self):
        return True

    def get_nrows(self):
        return self.rec.size

    def get_exttype(self, num=False):
        return 'BINARY_TBL' if self.rec is not None else 'IMAGE_HDU'

    def get_dims(self):
        if self.image is None:
            raise AttributeError('get_dims')
        return list(self.image.shape)

    def get_info(self):
        return {'ndims': self.image.ndim, 'dims': list(self.image.shape)}

    def _get_image_numpy_dtype(self):
        return {'f': 'f8', 'i': 'i8', 'b': 'i8'}[self.image._k]

    def read_header(self):
        h = Header(self.hdr._d)
        h['EXTNAME'] = self.ext
        return h

    def _col(self, n):
        for q in self.rec.names:
            if q.upper() == str(n).upper():
                return q
        raise ValueError(f"column name '{n}' not found (case insensitive)")

    def read(self, columns=None, rows=None, **kw):
        if self.rec is None:
            return self.image.copy()
        r = self.rec
        if rows is not None:
            r = r[asarr(rows, 'i')]
        if columns is None:
            return r.copy()
        if isinstance(columns, str):
            return r._c[self._col(columns)].copy()
        want = {self._col(c) for c in columns}
        return SymRec({c: r._c[c].copy()        # order of the file
                       for c in self.rec.names if c in want}, r.size)

    def read_column(self, c, rows=None):
        return self.read(columns=c, rows=rows)

    def read_columns(self, c, rows=None):
        return self.read(columns=list(c), rows=rows)

    def __getitem__(self, ix):
        if self.image is None:
            if isinstance(ix, str):
                return _Col(self, ix)
            if isinstance(ix, (list, tuple)) and ix and \
                    isinstance(ix[0], str):
                return _Col(self, list(ix))
            if isinstance(ix, (int, core.SNum, _np.integer)):
                ix = operator.index(ix)
                return self.rec[ix:ix + 1].copy()
            return self.rec[ix].copy()
        if not isinstance(ix, tuple):
            ix = (ix,)
        out = []
        for i in ix:
            if isinstance(i, slice):
                out.append(arr.norm_index(i))
            else:
                i = operator.index(i)
                if not 0 <= i < self.image.shape[len(out)]:
                    raise OSError(f'FITSIO status = 321: bad pixel {i}')
                out.append(slice(i, i + 1))
        return self.image[tuple(out)].copy()

    def write_key(self, name, value, comment=''):
        self.hdr[name] = value

    def write_keys(self, h, clean=True):
        for k in h.keys():
            if k not in _STRUCT:
                self.hdr[k] = h[k]


class _Col:
    def __init__(self, h, c):
        self.h, self.c = h, c

    def read(self, **k):
        return self.h.read(columns=self.c)

    def __getitem__(self, ix):
        return self.read()[ix]


class FITS:
    def __init__(self, filename, mode='r', lower=False, upper=False,
                 trim_strings=False, vstorage='fixed', case_sensitive=False,
                 iter_row_buffer=1, write_bitcols=False, ignore_empty=False,
                 verbose=False, clobber=False, **keys):
        e = core.cur()
        self._filename = e.resolve(str(filename))
        self.mode = mode
        vfs = e.vfs
        if mode in (0, 'r', None):
            if self._filename not in vfs:
                raise OSError("FITSIO status = 104: could not open the named "
                              f"file {self._filename}")
            self._h = vfs[self._filename]
            if not self._h:
                raise OSError("FITSIO status = 252: not a FITS file")
        else:
            if clobber or self._filename not in vfs:
                vfs[self._filename] = []
            self._h = vfs[self._filename]
        self.closed = False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _live(self):
        if self.closed:
            raise OSError('operation on closed FITS')

    def __len__(self):
        return len(self._h)

    def __iter__(self):
        self._live()
        return iter(list(self._h))

    def __contains__(self, k):
        if isinstance(k, int):
            return 0 <= k < len(self._h)
        k = core.cur().resolve(k)
        return any(h.ext.upper() == k.upper() for h in self._h)

    def __getitem__(self, k):
        self._live()
        if isinstance(k, slice):
            return self._h[k]
        if isinstance(k, (int, _np.integer, core.SNum)):
            k = operator.index(k)
            if not -len(self._h) <= k < len(self._h):
                raise OSError(f"extension number {k} out of bounds")
            return self._h[k]
        if isinstance(k, tuple):
            k = k[0]
        k = core.cur().resolve(k)
        for h in self._h:
            if h.ext.upper() == k.upper():
                return h
        raise OSError(f"extension not found: {k} (case insensitive)")

    def _ensure_primary(self, image):
        if not self._h and not image:
            self._h.append(HDU('', image=asarr(_np.zeros(0))))

    def write(self, data, units=None, extname=None, extver=None,
              compress=None, header=None, names=None, table_type='binary',
              **kw):
        self._live()
        if self.mode in (0, 'r'):
            raise OSError('FITSIO status = 112: read-only')
        extname = core.cur().resolve(extname)
        if data is None:
            self._h.append(HDU(extname or '', image=asarr(_np.zeros(0)),
                               header=header or ()))
            return
        if isinstance(data, (list, tuple)):
            if names is None:
                raise ValueError("names= required for a list of columns")
            if len(names) != len(data):
                raise ValueError("names and data must be same length")
            cols = {}
            n = None
            for i, c in enumerate(data):
                c = asarr(c)
                nm = names[i]
                if n is None:
                    n = c.shape[0]
                elif c.shape[0] != n:
                    raise ValueError("not all entries have same row count, "
                                     f"{n}/{c.shape[0]}")
                cols[nm] = c.copy()
            rec = SymRec(cols, n)
        elif isinstance(data, dict):
            rec = SymRec({k: asarr(v).copy() for k, v in data.items()})
        elif isinstance(data, SymRec):
            rec = data.copy()
        elif isinstance(data, _np.ndarray):
            data = asarr(data)
            if isinstance(data, SymRec):
                rec = data.copy()
            else:
                self._h.append(HDU(extname, image=data.copy(),
                                   header=header or ()))
                return
        else:
            raise core.EngineLimit('FITS write of %s' % type(data).__name__)
        hd = Header(header or ())
        for k, v in hd.items():
            if core._isnanlike(v) or core._isinflike(v):
                raise OSError("FITSIO status = 402: bad float to string "
                              "conversion")
        hd.clean()
        self._ensure_primary(False)
        self._h.append(HDU(extname, rec=rec, header=hd))

    write_table = write

    def write_image(self, img, extname=None, header=None, **k):
        self.write(img if img is None else asarr(img), extname=extname,
                   header=header)

    def movabs_hdu(self, *a):
        pass


def fitsio_module():
    m = types.ModuleType('fitsio')
    m.FITS = FITS
    m.FITSHDR = Header

    def read(fname, ext=None, columns=None, header=False, rows=None, **k):
        with FITS(fname) as f:
            if ext is None:
                ext = 0 if f[0].rec is not None or f[0].image.size else 1
            d = f[ext].read(columns=columns, rows=rows)
            return (d, f[ext].read_header()) if header else d

    def read_header(fname, ext=0, **k):
        with FITS(fname) as f:
            return f[ext].read_header()

    def write(fname, data, extname=None, clobber=False, header=None,
              names=None, **k):
        with FITS(fname, 'rw', clobber=clobber) as f:
            f.write(data, extname=extname, header=header, names=names)
    m.read, m.read_header, m.write = read, read_header, write
    return m


# -------------------------------------------------------- third-party proxies
class Proxy:
    """Callable proxy of `lib.attr`: a harness stub, or the library."""

    def __init__(self, key, real):
        self.__dict__['_key'] = key
        self.__dict__['_real'] = real
        self.__dict__['__name__'] = key.rsplit('.', 1)[-1]
        self.__dict__['__module__'] = key.rsplit('.', 1)[0]

    def __call__(self, *a, **k):
        e = eng()
        f = e.stubs.get(self._key)
        if f is not None:
            return f(*a, **k)
        if not e.symbolic:
            return self._real(*a, **k)
        f = SYMBOLIC.get(self._key)
        if f is not None:
            return f(*a, **k)
        a2 = [to_real(x, self._key) for x in a]
        k2 = {q: to_real(v, self._key) for q, v in k.items()}
        return from_real(self._real(*a2, **k2))

    def __getattr__(self, n):
        return getattr(self._real, n)


class ModProxy(types.ModuleType):
    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__['_rm'] = real
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        c = self._cache
        if n in c:
            return c[n]
        try:
            v = getattr(self._rm, n)
        except AttributeError:
            import importlib
            try:
                v = importlib.import_module(self._rm.__name__ + '.' + n)
            except ImportError:
                raise AttributeError(
                    f"module '{self._rm.__name__}' has no attribute '{n}'")
        if isinstance(v, types.ModuleType):
            r = ModProxy(self.__name__ + '.' + n, v)
        elif isinstance(v, type) and issubclass(v, BaseException):
            r = v
        elif callable(v):
            r = Proxy(self.__name__ + '.' + n, v)
        else:
            r = v
        c[n] = r
        return r


class LinCubicSpline:
    """scipy CubicSpline is linear in y: apply the real one to unit vectors."""

    def __init__(self, x, y, axis=0, bc_type='not-a-knot', extrapolate=None):
        from scipy.interpolate import CubicSpline
        self.y = asarr(y)
        x = to_real(asarr(x), 'CubicSpline x')
        self.cs = CubicSpline(x, _np.eye(len(x)), axis=0, bc_type=bc_type,
                              extrapolate=extrapolate)

    def integrate(self, a, b, extrapolate=None):
        w = self.cs.integrate(float(a), float(b))
        from . import npshim
        return npshim.dot(asarr(w), self.y)

    def __call__(self, x, nu=0):
        from . import npshim
        x = to_real(asarr(x), 'CubicSpline x')
        return npshim.dot(asarr(self.cs(x, nu)), self.y)


def sym_legendre(n, monic=False):
    """scipy.special.legendre: the polynomial, evaluated by recurrence."""
    n = operator.index(n)
    if monic:
        raise core.EngineLimit('legendre monic')

    def f(x):
        p0, p1 = 1. + 0. * x, x
        if n == 0:
            return p0
        for k in range(1, n):
            p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / (k + 1)
        return p1 + 0. * x
    return f


def sym_median_filter(a, size=None, footprint=None, output=None,
                      mode='reflect', cval=0.0, origin=0, **k):
    """scipy.ndimage.median_filter, 1-d, mode reflect."""
    a = asarr(a)
    n = a.size
    size = operator.index(size)
    if mode != 'reflect' or a.ndim != 1 or n == 0:
        raise core.EngineLimit('median_filter mode')
    from . import npshim
    lo = size // 2
    out = []
    for i in range(n):
        win = []
        for j in range(i - lo, i - lo + size):
            m = j % (2 * n)
            if m >= n:
                m = 2 * n - 1 - m
            win.append(a[m])
        win = npshim.sort(asarr(win))
        out.append(win[size // 2])
    return asarr(out)


def sym_glob(pattern, *a, **k):
    import fnmatch
    e = core.cur()
    pat = e.resolve(str(pattern))
    return [f for f in e.vfs if fnmatch.fnmatch(f, pat)
            and f.count('/') == pat.count('/')]


SYMBOLIC = {
    'glob.glob': sym_glob,
    'scipy.interpolate.CubicSpline': LinCubicSpline,
    'scipy.ndimage.median_filter': sym_median_filter,
    'scipy.special.legendre': sym_legendre,
}


def thirdparty():
    """Module table shared by the symbolic and the concrete loader."""
    import scipy
    import scipy.optimize
    import scipy.interpolate
    import scipy.special
    import scipy.ndimage
    import healpy
    import iminuit
    import astropy.io.ascii
    import glob
    import multiprocessing
    import os
    t = {}
    for name, m in [('scipy', scipy), ('scipy.optimize', scipy.optimize),
                    ('scipy.interpolate', scipy.interpolate),
                    ('scipy.special', scipy.special),
                    ('scipy.ndimage', scipy.ndimage),
                    ('healpy', healpy), ('iminuit', iminuit),
                    ('astropy.io.ascii', astropy.io.ascii),
                    ('glob', glob), ('multiprocessing', multiprocessing),
                    ('os', os)]:
        t[name] = ModProxy(name, m)
    t['os'].__dict__['_cache']['path'] = OsPath(os.path)
    t['os'].__dict__['_cache']['environ'] = os.environ
    return t


class OsPath(types.ModuleType):
    def __init__(self, real):
        super().__init__('os.path')
        self.__dict__['_rm'] = real

    def __getattr__(self, n):
        return getattr(self._rm, n)

    def exists(self, p):
        e = eng()
        if e.symbolic:
            return e.resolve(str(p)) in e.vfs
        return self._rm.exists(p)

    isfile = exists


def numba_module():
    m = types.ModuleType('numba')

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    m.njit = m.jit = njit
    m.vectorize = njit
    m.prange = range
    return m


def sym_loadtxt(fname, dtype=None, **k):
    e = core.cur()
    f = e.stubs.get('numpy.loadtxt')
    if f is None:
        t = e.vfs.get(e.resolve(str(fname)))
        if not t or t[0][0] != 'text':
            raise OSError(f"{fname} not found.")
        r = asarr(t[0][1], arr.kind_of_dtype(dtype) or 'f')
        if r.size == 1 and k.get('ndmin', 0) == 0:
            r = r.reshape(())
        return r
    return f(fname, dtype=dtype, **k)
