"""In-memory file system standing in for open(), os.path and pathlib.

File contents may be symbolic text.  Outside a file check nothing here is
active and the real functions are used.
"""
import builtins
import codecs
import io as real_io
import functools as real_ft
import math as real_math
import textwrap as real_tw
import unicodedata as real_ud
import os as real_os
import pathlib as real_pathlib
from .core import SymBytes, SymNum, SymStr, Unsupported, category, ch_in, concretise_str, encodable, is_str, items_of, mkstr

UTF = ('utf-8', 'utf-16', 'utf-32', 'utf-8-sig')


def enc_name(e):
    return codecs.lookup(e).name if e is not None else 'utf-8'


def key(p):
    if isinstance(p, FakePath):
        p = p.p
    elif hasattr(p, '__fspath__'):
        p = p.__fspath__()
    if not is_str(p):
        raise TypeError('expected str, bytes or os.PathLike object')
    return p


class FS:
    cur = None

    def __init__(self):
        self.files = []          # [path, text, encoding]
        self.log = []

    def find(self, p):
        p = key(p)
        for f in self.files:
            if bool(f[0] == p):
                return f
        return None


class FakeFile:
    def __init__(self, fs, p, mode, encoding, errors, newline):
        self.fs, self.mode, self.closed = fs, mode, False
        self.enc = enc_name(encoding)
        self.errors = errors
        if newline not in (None, '', '\n'):
            raise Unsupported('open(newline=...)')
        self.name = p
        m = mode.replace('t', '')
        self.bin = 'b' in m
        if self.bin:
            m = m.replace('b', '')
            self.enc = None
        if m not in ('r', 'w', 'a', 'x', 'r+', 'w+'):
            raise Unsupported('open mode %r' % mode)
        self.e = fs.find(p)
        fs.log.append((m, p, self.enc))
        if m[0] == 'r':
            if self.e is None:
                raise FileNotFoundError('No such file')
        elif m[0] == 'x' and self.e is not None:
            raise FileExistsError('exists')
        elif m[0] == 'w' or self.e is None:
            if self.e is None:
                self.e = [key(p), '', self.enc]
                fs.files.append(self.e)
            self.e[1], self.e[2] = '', self.enc
        self.pos = 0

    def _text(self):
        t = self.e[1]
        if self.bin:
            return SymBytes(t, self.e[2])
        if self.enc != self.e[2]:
            out = []
            for c in items_of(t):
                if self.enc in UTF[:1] + ('ascii', 'iso8859-1') and self.e[2] in UTF[:1] + ('ascii', 'iso8859-1') \
                        and bool(ch_in(c, ((0, 127),))):
                    out.append(c)
                elif self.errors in (None, 'strict') or (self.enc, self.e[2]) != ('utf-8', 'iso8859-1'):
                    raise UnicodeDecodeError(self.enc, b'', 0, 1, 'file was written as ' + self.e[2])
                elif self.errors == 'replace':
                    out.append('\ufffd')
                elif self.errors != 'ignore':
                    raise Unsupported('decoding errors=%r' % (self.errors,))
            t = mkstr(out)
        return t

    def read(self, n=-1):
        if n is not None and n >= 0:
            raise Unsupported('partial read')
        if self.bin:
            return self._text()
        t = self._text()[self.pos:]
        self.pos = len(self.e[1])
        return t

    def readlines(self):
        t = self.read()
        from .core import STR_METHODS
        return STR_METHODS['splitlines'](t, True) if type(t) is SymStr else t.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if self.mode[0] == 'r' and '+' not in self.mode:
            raise real_io.UnsupportedOperation('not writable')
        if self.bin:
            if isinstance(s, bytes):
                s = SymBytes(s.decode('latin-1'), 'iso8859-1') if self.enc == 'iso8859-1' else SymBytes(s.decode('utf-8'), 'utf-8')
            if not isinstance(s, SymBytes):
                raise TypeError('a bytes-like object is required')
            if self.enc not in (None, s.enc):
                raise Unsupported('mixed encodings')
            self.enc = self.e[2] = s.enc
            s = s.s
        else:
            if not is_str(s):
                raise TypeError('write() argument must be str')
            s = encodable(s, self.enc, self.errors)
        self.e[1] = self.e[1] + s
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        raise Unsupported('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def fopen(p, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if FS.cur is None:
        return builtins.open(p, mode, buffering, encoding, errors, newline, closefd, opener)
    return FakeFile(FS.cur, p, mode, encoding, errors, newline)


class Proxy:
    def __init__(self, real, over):
        self.__dict__['_r'], self.__dict__['_o'] = real, over

    def __getattr__(self, n):
        o = self._o
        if n in o:
            return o[n]
        return getattr(self._r, n)


def _isfile(p):
    if FS.cur is None:
        return real_os.path.isfile(p)
    return FS.cur.find(p) is not None


def _false(p):
    if FS.cur is None:
        return real_os.path.isdir(p)
    return False


def _fspath(p):
    return key(p) if FS.cur is not None else real_os.fspath(p)


def _replace(a, b, **k):
    if FS.cur is None:
        return real_os.replace(a, b)
    f = FS.cur.find(a)
    if f is None:
        raise FileNotFoundError(a)
    t = FS.cur.find(b)
    if t is not None and t is not f:
        FS.cur.files.remove(t)
    f[0] = key(b)


def _remove(a):
    if FS.cur is None:
        return real_os.remove(a)
    f = FS.cur.find(a)
    if f is None:
        raise FileNotFoundError(a)
    FS.cur.files.remove(f)


def _unsup(n):
    def f(*a, **k):
        if FS.cur is None:
            return getattr(real_os, n)(*a, **k)
        raise Unsupported('os.' + n)
    return f


class FakePath:
    def __init__(self, p='.', *more):
        self.p = key(p)
        if more:
            raise Unsupported('Path join')

    def __fspath__(self):
        return self.p

    def __str__(self):
        if type(self.p) is not str:
            raise Unsupported('str(Path)')
        return self.p

    def __eq__(self, o):
        return isinstance(o, FakePath) and self.p == o.p

    def __hash__(self):
        return 5

    def is_file(self):
        return _isfile(self.p)
    exists = is_file

    def is_dir(self):
        return False

    def open(self, *a, **k):
        return fopen(self.p, *a, **k)

    def write_bytes(self, data):
        with fopen(self.p, 'wb') as f:
            return f.write(data)

    def read_bytes(self):
        with fopen(self.p, 'rb') as f:
            return f.read()

    def read_text(self, encoding=None, errors=None, newline=None):
        with fopen(self.p, 'r', encoding=encoding, errors=errors, newline=newline) as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with fopen(self.p, 'w', encoding=encoding, errors=errors, newline=newline) as f:
            return f.write(data)

    def unlink(self, missing_ok=False):
        if missing_ok and not _isfile(self.p):
            return
        _remove(self.p)

    def replace(self, b):
        _replace(self.p, b)
        return FakePath(b)
    rename = replace

    def __getattr__(self, n):
        if hasattr(real_pathlib.Path, n):
            raise Unsupported('Path.' + n)
        raise AttributeError(n)


def _Path(*a):
    if FS.cur is None:
        return real_pathlib.Path(*a)
    return FakePath(*a)


path_shim = Proxy(real_os.path, dict(isfile=_isfile, exists=_isfile, lexists=_isfile, isdir=_false))
os_shim = Proxy(real_os, dict(path=path_shim, fspath=_fspath, replace=_replace, rename=_replace, remove=_remove,
                              unlink=_remove, **{n: _unsup(n) for n in ('open', 'stat', 'access', 'makedirs', 'mkdir',
                                                                       'listdir', 'scandir', 'truncate', 'chmod')}))


class SymIO:
    """io.StringIO over symbolic text"""

    def __init__(self, initial_value='', newline='\n'):
        self.t = initial_value if initial_value is not None else ''
        self.pos = 0
        self.closed = False

    def write(self, s):
        if not is_str(s):
            raise TypeError('string argument expected, got %r' % type(s).__name__)
        self.t = self.t[:self.pos] + s + self.t[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        return self.t

    def read(self, n=-1):
        e = len(self.t) if n is None or n < 0 else min(len(self.t), self.pos + n)
        r = self.t[self.pos:e]
        self.pos = e
        return r

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else len(self.t)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        self.t = self.t[:self.pos if n is None else n]

    def readlines(self):
        t = self.read()
        from .core import STR_METHODS
        return STR_METHODS['splitlines'](t, True) if type(t) is SymStr else t.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _indent(text, prefix, predicate=None):
    if type(text) is not SymStr and type(prefix) is not SymStr:
        return real_tw.indent(text, prefix, predicate)
    from .core import STR_METHODS
    out = []
    for line in (STR_METHODS['splitlines'](text, True) if type(text) is SymStr else text.splitlines(True)):
        if (predicate(line) if predicate else bool(line.strip())):
            out.extend(items_of(prefix))
        out.extend(items_of(line))
    return mkstr(out)


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _lru(maxsize, 128, False)
    return lambda f: _lru(f, maxsize, typed)


def _same(a, b, typed):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if is_str(x) != is_str(y) or (typed and kind_of(x) != kind_of(y)):
            return False
        if not bool(x == y):
            return False
    return True


def kind_of(x):
    return ('float' if x.kind == 'float' else 'int') if isinstance(x, SymNum) else 'str' if is_str(x) else type(x).__name__


def _lru(f, maxsize, typed):
    store = []

    @real_ft.wraps(f)
    def g(*a, **k):
        for x in a + tuple(k.values()):
            hash(x)
        ka = a + tuple(k[n] for n in sorted(k))
        kn = (len(a), tuple(sorted(k)))
        for n, x, r in store:
            if n == kn and _same(x, ka, typed):
                return r
        r = f(*a, **k)
        if maxsize != 0:
            store.append((kn, ka, r))
            if maxsize and len(store) > maxsize:
                store.pop(0)
        return r
    g.cache_clear = store.clear
    g.cache_info = lambda: (0, 0, maxsize, len(store))
    return g


functools_shim = Proxy(real_ft, dict(lru_cache=_lru_cache, cache=lambda f: _lru(f, None, False)))
textwrap_shim = Proxy(real_tw, dict(indent=_indent))
io_shim = Proxy(real_io, dict(open=fopen, StringIO=SymIO))
pathlib_shim = Proxy(real_pathlib, dict(Path=_Path, PosixPath=_Path))


class MathShim:
    """math functions over symbolic numbers (exact decimal arithmetic)"""

    def __getattr__(self, n):
        f = getattr(real_math, n)
        if not callable(f):
            return f

        def g(*a, **k):
            if any(isinstance(x, SymNum) for x in a):
                h = getattr(self, 's_' + n, None)
                if h is None:
                    raise Unsupported('math.' + n)
                return h(*a, **k)
            return f(*a, **k)
        if n.startswith('s_'):
            raise AttributeError(n)
        return g

    def s_floor(self, x):
        return x.__floor__()

    def s_ceil(self, x):
        return x.__ceil__()

    def s_trunc(self, x):
        return x.__trunc__()

    def s_fabs(self, x):
        return abs(x).to_float()

    def s_isnan(self, x):
        return False
    s_isinf = s_isnan

    def s_isfinite(self, x):
        return True

    def s_isclose(self, a, b, rel_tol=1e-09, abs_tol=0.0):
        d = abs(a - b)
        return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))

    def s_modf(self, x):
        t = x.to_int()
        return x - t, t

    def s_fmod(self, x, y):
        if isinstance(y, SymNum):
            raise Unsupported('math.fmod')
        r = abs(x) % y
        return -r if x.neg else r


def _normalize(form, s):
    if type(s) is SymStr:
        if all(bool(ch_in(c, category(form))) for c in s.it):
            return s
        return real_ud.normalize(form, concretise_str(s))
    return real_ud.normalize(form, s)


SHIMS = {'math': MathShim(), 'unicodedata': Proxy(real_ud, dict(normalize=_normalize)), 'os': os_shim, 'os.path': path_shim, 'io': io_shim, 'functools': functools_shim, 'textwrap': textwrap_shim, 'pathlib': pathlib_shim}
