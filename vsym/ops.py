"""Runtime helpers the rewritten code calls, and the builtin stand-ins."""
import builtins
import re as _re
import string as _string
from .core import *            # noqa
from .core import SymBytes, STR_METHODS, is_str, ch_eq, match_at
from . import core


def has_sym(x, depth=3):
    if type(x) in (SymStr, SymNum, SymBool):
        return True
    if depth and type(x) in (list, tuple, dict, set):
        for y in (x.values() if type(x) is dict else x):
            if has_sym(y, depth - 1):
                return True
        if type(x) is dict:
            for y in x:
                if has_sym(y, depth - 1):
                    return True
    return False


class StrBound:
    """bound method of a concrete str that may get symbolic arguments"""
    __slots__ = ('s', 'n')

    def __init__(self, s, n):
        self.s, self.n = s, n

    def __call__(self, *a, **k):
        s, n = self.s, self.n
        if n == 'join':
            seq = list(a[0])
            if has_sym(seq, 1):
                return STR_METHODS['join'](s, seq)
            return s.join(seq)
        if n == 'format':
            return str_format(s, a, k)
        if n == 'format_map':
            return str_format(s, (), dict(a[0]))
        if has_sym(a) or has_sym(k):
            a = tuple(x.__index__() if type(x) is SymNum else x for x in a)
            if not has_sym(a) and not has_sym(k):
                return getattr(s, n)(*a, **k)
            f = STR_METHODS.get(n)
            if f is None:
                if n == '__eq__':
                    return s == a[0]
                if n == '__contains__':
                    return contains(a[0], s)
                raise Unsupported('str.%s with symbolic argument' % n)
            return f(s, *a, **k)
        return getattr(s, n)(*a, **k)


def find_key(d, key):
    """the key of d that equals key (decided by the solver), or key itself"""
    if type(key) in (SymStr, SymNum) or (type(key) in (str, int, float) and any(type(x) in (SymStr, SymNum) for x in d)):
        for x in list(d):
            if x is key or (is_str(x) == is_str(key) and bool(x == key)):
                return x, True
        return key, False
    return key, None


def skey(d, key):
    if isinstance(d, dict):
        return find_key(d, key)[0]
    return key


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        d[find_key(d, k)[0]] = v
    return d


def mkset(xs):
    d = set()
    for x in xs:
        if not find_key(d, x)[1]:
            d.add(x)
    return d


class SetAdd:
    __slots__ = ('d', 'n')

    def __init__(self, d, n):
        self.d, self.n = d, n

    def __call__(self, x):
        k, found = find_key(self.d, x)
        if self.n == 'add':
            if not found:
                self.d.add(x)
            return None
        return getattr(self.d, self.n)(k)


class DictBound:
    __slots__ = ('d', 'n')

    def __init__(self, d, n):
        self.d, self.n = d, n

    def __call__(self, *a, **k):
        d, n = self.d, self.n
        if n == 'update':
            for x in a:
                for y in (x.items() if hasattr(x, 'items') else x):
                    y0, y1 = y
                    d[find_key(d, y0)[0]] = y1
            for y0, y1 in k.items():
                d[find_key(d, y0)[0]] = y1
            return None
        if n == '__setitem__':
            d[find_key(d, a[0])[0]] = a[1]
            return None
        if n in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and a and \
                (type(a[0]) in (SymStr, SymNum) or any(type(x) in (SymStr, SymNum) for x in d)):
            key = a[0]
            for x in list(d):
                if type(x) is type(key) or is_str(x) == is_str(key):
                    if bool(x == key):
                        if n == '__contains__':
                            return True
                        return d.pop(x) if n == 'pop' else d[x]
            if n == '__contains__':
                return False
            if n == 'get':
                return a[1] if len(a) > 1 else None
            if n == 'setdefault':
                v = a[1] if len(a) > 1 else None
                d[key] = v
                return v
            if n == 'pop' and len(a) > 1:
                return a[1]
            raise KeyError(key)
        return getattr(d, n)(*a, **k)


def meth(o, n):
    t = type(o)
    if t is str:
        getattr(o, n)
        return StrBound(o, n)
    if n in DICT_NAMES and isinstance(o, dict):
        return DictBound(o, n)
    if t is set and n in ('add', 'discard', 'remove'):
        return SetAdd(o, n)
    return getattr(o, n)


DICT_NAMES = ('get', 'pop', 'setdefault', '__getitem__', '__contains__', 'update', '__setitem__')
ATTR_NAMES = frozenset(STR_METHODS) | set(DICT_NAMES) | {'format', 'format_map', 'add', 'join'}


def getitem(o, k):
    t = type(o)
    if t is dict and (type(k) in (SymStr, SymNum) or (type(k) in (str, int, float) and any(type(x) in (SymStr, SymNum) for x in o))):
        return DictBound(o, '__getitem__')(k)
    if t is not dict and isinstance(o, dict):
        return o[find_key(o, k)[0]]
    if t is str and type(k) is SymNum:
        return o[k.__index__()]
    if t in (str, list, tuple) and type(k) is slice:
        return o[core._conc_slice(k)]
    return o[k]


def contains(x, c):
    if is_str(c):
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand, not %s" % tname(x))
        if type(x) is str and type(c) is str:
            return x in c
        core._needle_harvest(c, x)
        if type(c) is str and type(x) is SymStr and 0 < len(c) <= 48:
            note_harvest(x, c)
        h, n = items_of(c), items_of(x)
        if len(n) == 1:
            # one solver decision instead of one per position
            parts = []
            for y in h:
                e = core.ch_eq_e(y, n[0])
                if e is True:
                    return True
                if e is not False:
                    parts.append(e)
            if not parts:
                return False
            if len(parts) == 1:
                return bool(SymBool(parts[0]))
        return core._find_from(h, n, 0, len(h)) >= 0
    if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys', 'mappingproxy'):
        if type(x) in (SymStr, SymNum) or any(type(y) in (SymStr, SymNum) for y in c):
            for y in c:
                if is_str(y) == is_str(x) and bool(y == x):
                    return True
            return False
        return x in c
    return x in c


def not_contains(x, c):
    return not contains(x, c)


# ---- formatting ----------------------------------------------------------
SPEC = _re.compile(r'(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?z?(?P<alt>#)?(?P<zero>0)?(?P<w>\d+)?(?P<grp>[_,])?(?:\.(?P<p>\d+))?(?P<t>[a-zA-Z%])?$', _re.S)


def to_text(v):
    """str(v)"""
    if type(v) is SymStr or type(v) is str:
        return v
    if type(v) is SymNum:
        return v.text()
    if type(v) is SymBool:
        return str(bool(v))
    if has_sym(v, 4):
        return to_repr(v)
    if type(v).__str__ is object.__str__ and hasattr(v, '__dataclass_fields__'):
        return to_repr(v)
    return builtins.str(v)


def to_repr(v):
    if type(v) is SymNum:
        return v.text()
    if type(v) is SymBool:
        return repr(bool(v))
    if type(v) is SymStr:
        bad = iv_or(iv_chars("'\\\""), iv_not(category('isprintable')))
        for c in v.it:
            if bool(ch_in(c, bad)):
                raise Unsupported('repr of special characters')
        return mkstr(["'"] + v.it + ["'"])
    if type(v) in (list, tuple) and has_sym(v):
        out = []
        for i, x in enumerate(v):
            if i:
                out += [',', ' ']
            out += items_of(to_repr(x))
        if type(v) is list:
            return mkstr(['['] + out + [']'])
        return mkstr(['('] + out + ([','] if len(v) == 1 else []) + [')'])
    if has_sym(v):
        raise Unsupported('repr of container')
    if hasattr(v, '__dataclass_fields__'):
        return '<%s>' % type(v).__name__
    return builtins.repr(v)


def fmt(v, conv=None, spec=''):
    if conv == 's':
        v = to_text(v)
    elif conv in ('r', 'a'):
        v = to_repr(v)
    if spec == '' or spec is None:
        return to_text(v)
    if type(spec) is SymStr:
        raise Unsupported('symbolic format spec')
    if type(v) is SymBool:
        v = bool(v)
    if not has_sym(v, 1):
        return format(v, spec)
    m = SPEC.match(spec)
    if not m:
        raise ValueError('Invalid format specifier')
    fill, align, sign, zero = m['fill'] or ' ', m['align'], m['sign'], m['zero']
    w = int(m['w']) if m['w'] else 0
    p = int(m['p']) if m['p'] else None
    t = m['t']
    if type(v) is SymStr:
        if t not in (None, 's'):
            raise ValueError('Unknown format code for str')
        if p is not None:
            v = v[:p]
        return core._pad(v, w, fill, {'<': 'l', '>': 'r', '^': 'c', None: 'l'}[align])
    if type(v) is not SymNum:
        raise TypeError('unsupported format string')
    if m['grp'] or m['alt'] or align == '=':
        raise Unsupported('format spec %r' % spec)
    if t == 'd':
        if v.kind != 'int':
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        s = v.text()
    elif t in ('f', 'F'):
        s = v.fixed(6 if p is None else p)
    elif t is None and p is None:
        s = v.text()
    elif t in ('g', 'G', None):
        s = fmt_g(v, 6 if p is None else max(p, 1), t)
    elif t == 's':
        raise ValueError("Unknown format code 's'")
    else:
        raise Unsupported('format spec %r' % spec)
    if sign in ('+', ' ') and not v.neg:
        s = sign + s
    if zero and not align:
        k = w - len(s)
        if k > 0:
            h = items_of(s)
            n = 1 if (v.neg or sign in ('+', ' ')) else 0
            s = mkstr(h[:n] + ['0'] * k + h[n:])
        return s
    return core._pad(s, w, fill, {'<': 'l', '>': 'r', '^': 'c', None: 'r'}[align])


def fmt_g(v, p, t):
    c = canon(v)
    sig = c.ip + c.fp
    if len(c.ip) == 1 and bool(ch_eq(c.ip[0], '0')):
        k = 0
        while k < len(c.fp) and bool(ch_eq(c.fp[k], '0')):
            k += 1
        if k == len(c.fp):
            return '-0' if c.neg else '0'
        nd = len(c.fp) - k
        if k >= 4:
            if nd > p:
                raise Unsupported('g rounding')
            return c.text()
        if nd > p:
            c = canon(c.rounded(k + p))
    else:
        if len(c.ip) > p:
            raise Unsupported('g exponent')
        if len(sig) > p:
            c = canon(c.rounded(p - len(c.ip)))
    s = ['-'] if c.neg else []
    s += c.ip
    if c.fp:
        s += ['.'] + c.fp
    elif t is None and v.kind == 'float':
        s += ['.', '0']
    return mkstr(s)


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            p = fmt(*p)
        if type(p) is SymStr:
            sym = True
        out.append(p)
    if not sym:
        return ''.join(out)
    its = []
    for p in out:
        its.extend(p.it if type(p) is SymStr else p)
    return mkstr(its)


def str_format(s, args, kw):
    if type(s) is SymStr:
        raise Unsupported('symbolic template in format()')
    if not (has_sym(args) or has_sym(kw)) and not any(hasattr(a, '__dataclass_fields__') for a in args):
        return s.format(*args, **kw)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for isattr, k in rest:
            v = getattr(v, k) if isattr else getitem(v, k)
        if spec and '{' in spec:
            if '{}' in spec:
                spec = spec.replace('{}', '{%d}' % auto)
                auto += 1
            spec = str_format(spec, args, kw)
        out.append((v, conv, spec))
    return fstr(*out)


PCT = _re.compile(r'%(?:\((?P<k>[^)]*)\))?(?P<fl>[-+ #0]*)(?P<w>\d+|\*)?(?:\.(?P<p>\d+))?[hlL]?(?P<t>[a-zA-Z%])')


def mod(a, b):
    if not is_str(a):
        return a % b
    if type(a) is SymStr:
        raise Unsupported('symbolic % template')
    if not has_sym(b):
        return a % b
    args = b if type(b) is tuple else (b,)
    out = []
    i = pos = 0
    while True:
        m = PCT.search(a, pos)
        if not m:
            out.append(a[pos:])
            break
        out.append(a[pos:m.start()])
        pos = m.end()
        if m['t'] == '%':
            out.append('%')
            continue
        if m['w'] == '*':
            raise Unsupported('%*')
        if m['k'] is not None:
            v = getitem(b, m['k'])
        else:
            if i >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[i]
            i += 1
        t = m['t']
        if t in 'sra':
            s = to_text(v) if t == 's' else to_repr(v)
            if m['p']:
                s = s[:int(m['p'])]
        elif t in 'diu':
            if not isinstance(v, (int, float, SymNum)):
                raise TypeError('%d format: a real number is required')
            s = to_text(v.to_int() if type(v) is SymNum else int(v))
        else:
            if not isinstance(v, (int, float, SymNum)):
                raise TypeError('must be real number, not ' + tname(v))
            s = fmt(v if type(v) is SymNum else float(v), None, ('.' + m['p'] if m['p'] else '') + t)
        fl = m['fl']
        if '+' in fl and type(v) is SymNum and not v.neg:
            s = '+' + s
        w = int(m['w']) if m['w'] else 0
        if w:
            s = core._pad(s, w, '0' if '0' in fl and '-' not in fl else ' ', 'l' if '-' in fl else 'r')
        out.append(s)
    return fstr(*out)


# ---- builtin stand-ins ---------------------------------------------------
class Shadow:
    """Stands for a builtin type name inside the code under test."""

    def __init__(self, real, conv, check):
        self._real, self._conv, self._check = real, conv, check
        self.__name__ = real.__name__
        self.__qualname__ = real.__qualname__
        self.__doc__ = None

    def __call__(self, *a, **k):
        return self._conv(*a, **k)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __eq__(self, o):
        return o is self or o is self._real

    def __hash__(self):
        return hash(self._real)

    def __or__(self, o):
        return self
    __ror__ = __or__

    def __getitem__(self, k):
        return self

    def __repr__(self):
        return repr(self._real)

    def __getattr__(self, n):
        if self._real is str and n in STR_METHODS:
            return lambda s, *a, **k: meth(s, n)(*a, **k)
        return getattr(self._real, n)


def _str(*a, **k):
    if not a:
        return builtins.str(*a, **k)
    if len(a) > 1 or k:
        if isinstance(a[0], SymBytes):
            return a[0].decode(*a[1:], **k)
        return builtins.str(*a, **k)
    return to_text(a[0])


def _float(x=0.0):
    if type(x) is SymStr:
        return parse_number(x, 'float')
    if type(x) is SymNum:
        return x.to_float()
    if type(x) is SymBool:
        return float(bool(x))
    return builtins.float(x)


def _int(x=0, *a, **k):
    if type(x) is SymStr:
        if a or k:
            base = a[0] if a else k.get('base')
            if base == 16:
                raise Unsupported('int base 16')
            if base != 10:
                raise Unsupported('int base')
        return parse_number(x, 'int')
    if type(x) is SymNum:
        return x.to_int()
    if type(x) is SymBool:
        return int(bool(x))
    return builtins.int(x, *a, **k)


def _bool(x=False):
    return builtins.bool(x)


def chk_str(x):
    return type(x) is SymStr or isinstance(x, str)


def chk_int(x):
    return (type(x) is SymNum and x.kind == 'int') or type(x) is SymBool or isinstance(x, int)


def chk_float(x):
    return (type(x) is SymNum and x.kind == 'float') or isinstance(x, float)


def chk_bool(x):
    return type(x) is SymBool or isinstance(x, bool)


S_str = Shadow(str, _str, chk_str)
S_int = Shadow(int, _int, chk_int)
S_float = Shadow(float, _float, chk_float)
S_bool = Shadow(bool, _bool, chk_bool)
SHADOW = {str: S_str, int: S_int, float: S_float, bool: S_bool}


def _mkp(sh):
    class M(type):
        def __instancecheck__(cls, x):
            return sh._check(x)
    return M('P_' + sh.__name__, (), {})


P = {s.__name__: _mkp(s) for s in SHADOW.values()}


def P_(name):
    return P[name]


def vs_isinstance(x, t):
    if type(t) is tuple:
        return any(vs_isinstance(x, y) for y in t)
    if type(t) is Shadow:
        return t._check(x)
    if t in SHADOW if isinstance(t, type) else False:
        return SHADOW[t]._check(x)
    if type(x) in (SymStr, SymNum, SymBool):
        real = str if type(x) is SymStr else bool if type(x) is SymBool else (int if x.kind == 'int' else float)
        try:
            return issubclass(real, t)
        except TypeError:
            args = getattr(t, '__args__', None)
            if args:
                return any(vs_isinstance(x, y) for y in args)
            raise
    return builtins.isinstance(x, t)


def vs_issubclass(c, t):
    def r(z):
        if type(z) is tuple:
            return tuple(r(y) for y in z)
        return z._real if type(z) is Shadow else z
    return builtins.issubclass(r(c), r(t))


class _TypeShadow(Shadow):
    def __init__(self):
        self._real = type
        self.__name__ = 'type'

    def __call__(self, *a, **k):
        if len(a) != 1:
            return builtins.type(*a, **k)
        x = a[0]
        if builtins.type(x) is SymStr:
            return S_str
        if builtins.type(x) is SymNum:
            return S_int if x.kind == 'int' else S_float
        if builtins.type(x) is SymBool:
            return S_bool
        t = builtins.type(x)
        return SHADOW.get(t, t)

    def _check(self, x):
        return isinstance(x, (type, Shadow))


S_type = _TypeShadow()


def vs_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        lo, hi = c.it[0].dom[0][0], c.it[0].dom[-1][1]
        return num_from_expr('int', c.it[0].v, 0, 8, False)
    return builtins.ord(c)


def vs_chr(n):
    if type(n) is SymNum:
        e = eng()
        c = e.fresh_char(ANY, 'chr')
        e.assume(c.v == n.scaled(0))
        return SymStr([c])
    return builtins.chr(n)


def vs_round(x, n=None):
    if type(x) is SymNum:
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def vs_format(v, spec=''):
    return fmt(v, None, spec)


def vs_divmod(a, b):
    return (a // b, a % b)


def vs_min(*a, **k):
    return builtins.min(*a, **k)


def vs_print(*a, sep=' ', end='\n', file=None, flush=False):
    if file is None:
        return None
    out = []
    for i, x in enumerate(a):
        if i:
            out.append(' ' if sep is None else sep)
        out.append(to_text(x))
    file.write(fstr(*out, '\n' if end is None else end))


def vs_is(a, b):
    if type(a) is SymBool and type(b) is bool:
        return bool(a) is b
    if type(a) is Shadow or type(b) is Shadow:
        return a == b
    return a is b


def vs_is_not(a, b):
    return not vs_is(a, b)


OVERRIDES = {
    'str': S_str, 'int': S_int, 'float': S_float, 'bool': S_bool, 'type': S_type,
    'isinstance': vs_isinstance, 'issubclass': vs_issubclass, 'ord': vs_ord,
    'chr': vs_chr, 'round': vs_round, 'format': vs_format, 'repr': to_repr,
    'divmod': vs_divmod, 'print': vs_print, 'ascii': to_repr,
}
