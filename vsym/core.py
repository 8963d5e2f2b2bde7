"""Symbolic values and path exploration.

The code under test runs in CPython on these proxy values.  Every branch that
depends on a symbolic value is decided by z3 (Engine.fork); every path is
explored by depth-first re-execution with decision prefixes.
"""
import codecs
import time
import unicodedata
from fractions import Fraction
import z3

MAXCP = 0x10FFFF


class Unsupported(Exception):
    """An operation the symbolic model does not cover (never an alarm)."""


class PathAbort(BaseException):
    """Path is infeasible or out of budget."""


class Budget(BaseException):
    pass


# --------------------------------------------------------------------------
# interval sets of code points: tuple of (lo, hi) inclusive, sorted, disjoint
# --------------------------------------------------------------------------
def iv_norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_not(a, top=MAXCP):
    out = []
    cur = 0
    for lo, hi in a:
        if cur < lo:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= top:
        out.append((cur, top))
    return tuple(out)


def iv_or(a, b):
    return iv_norm(tuple(a) + tuple(b))


def iv_sub(a, b):
    return iv_and(a, iv_not(b))


def iv_has(a, c):
    for lo, hi in a:
        if lo <= c <= hi:
            return True
        if c < lo:
            return False
    return False


def iv_chars(s):
    return iv_norm([(ord(c), ord(c)) for c in s])


def iv_pred(pred):
    out = []
    start = None
    for i in range(MAXCP + 2):
        ok = i <= MAXCP and pred(chr(i))
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    return tuple(out)


_cat = {}


def category(name):
    if name not in _cat:
        if name == 'space':
            _cat[name] = iv_pred(str.isspace)
        elif name == 'digit':
            _cat[name] = iv_pred(str.isdecimal)
        elif name == 'word':
            _cat[name] = iv_pred(lambda c: c.isalnum() or c == '_')
        elif name == 'isdigit':
            _cat[name] = iv_pred(str.isdigit)
        elif name == 'isnumeric':
            _cat[name] = iv_pred(str.isnumeric)
        elif name == 'isalpha':
            _cat[name] = iv_pred(str.isalpha)
        elif name == 'isalnum':
            _cat[name] = iv_pred(str.isalnum)
        elif name == 'isprintable':
            _cat[name] = iv_pred(str.isprintable)
        elif name == 'lowerfix':
            _cat[name] = iv_pred(lambda c: c.lower() == c)
        elif name == 'upperfix':
            _cat[name] = iv_pred(lambda c: c.upper() == c)
        elif name == 'foldfix':
            _cat[name] = iv_pred(lambda c: c.casefold() == c)
        elif name == 'swapfix':
            _cat[name] = iv_pred(lambda c: c.swapcase() == c)
        elif name == 'cased':
            _cat[name] = iv_pred(lambda c: c.lower() != c or c.upper() != c or c.title() != c)
        elif name[:3] in ('NFC', 'NFD', 'NFK'):
            import unicodedata as u
            _cat[name] = iv_pred(lambda c: not 0xD800 <= ord(c) < 0xE000 and not u.combining(c) and u.normalize(name, c) == c and
                                 u.is_normalized(name, 'a' + c) and not 0x1161 <= ord(c) <= 0x11FF)
        elif name == 'lines':
            _cat[name] = iv_chars('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
        else:
            raise KeyError(name)
    return _cat[name]


ANY = ((0, 0xD7FF), (0xE000, MAXCP))      # text: any Unicode scalar value
DIGIT = ((48, 57),)
NZDIGIT = ((49, 57),)
LETTER = ((65, 90), (97, 122))
QUOTE = ord('"')
BSLASH = ord('\\')


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.unknown = 0
        self.vcs = 0
        self.approx = 0
        self.concretised = 0
        self.maxdepth = 0
        self.witness = 0
        self.validated = 0
        self.replays = 0


class Engine:
    cur = None

    def __init__(self, stats=None, path_budget=100000, slice_s=None):
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.work = [[]]
        self.path_budget = path_budget
        self.slice_s = slice_s
        self.initial = [[]]
        self.deadline = None
        self.harvest = set()
        self.alias = {}
        self.exhausted = False

    # -- exploration ------------------------------------------------------
    def explore(self, fn):
        """Run fn() on every feasible path; yields its return value."""
        n = 0
        self.work = list(self.initial)
        t0 = time.time()
        while self.work:
            # stop between paths only: what is left is handed back as prefixes
            if n >= self.path_budget or (n and self.slice_s and time.time() - t0 > self.slice_s):
                self.exhausted = True
                return
            prefix = self.work.pop()
            self.prefix = prefix
            self.trace = []
            self.idx = 0
            self.nfresh = 0
            self.doms = {}
            self.alias = {}
            self.pc = []
            self.flags = set()
            self.notes = {}
            self.solver.push()
            Engine.cur = self
            self.deadline = time.time() + 60
            n += 1
            self.stats.paths += 1
            try:
                try:
                    res = fn()
                except PathAbort:
                    res = None
                self.stats.maxdepth = max(self.stats.maxdepth, len(self.trace))
                if res is not None:
                    yield res
            finally:
                self.solver.pop()
                Engine.cur = None

    def _check(self, *assume):
        t = time.time()
        r = self.solver.check(*assume)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            self.flags.add('unknown')
        return r

    def assume(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def fork(self, cond, narrow=None):
        """Decide the z3 condition on this path; explores both outcomes."""
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
        else:
            t = self._check(cond) != z3.unsat
            f = self._check(z3.Not(cond)) != z3.unsat
            if t and f:
                d = True
                self.work.append(self.trace + [False])
                self.stats.forks += 1
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathAbort()
            self.prefix = self.trace + [d]
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of one path')
        self.idx += 1
        self.trace.append(d)
        self.assume(cond if d else z3.Not(cond))
        if narrow is not None:
            name, ivs = narrow
            cur = self.doms.get(name)
            if cur is not None:
                self.doms[name] = iv_and(cur, ivs if d else iv_not(ivs))
        if len(self.trace) > 4000:
            raise Unsupported('decision depth')
        return d

    def choose(self, n):
        """Free choice in range(n) (explored exhaustively)."""
        v = z3.Int('choice!%d' % self.nfresh)
        self.nfresh += 1
        self.assume(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.fork(v == i):
                return i
        return n - 1

    def flag(self, name):
        return z3.Bool('flag!' + name)

    # -- fresh symbols ----------------------------------------------------
    def char(self, name, dom):
        v = z3.Int(name)
        self.doms[name] = dom
        self.assume(iv_expr(v, dom))
        return SymChar(v, name)

    def fresh_char(self, dom, base='t'):
        self.nfresh += 1
        return self.char('%s!%d' % (base, self.nfresh), dom)

    def model(self, extra=None):
        r = self._check(*( [extra] if extra is not None else []))
        if r == z3.sat:
            return self.solver.model()
        return None


def iv_expr(v, ivs):
    if not ivs:
        return z3.BoolVal(False)
    parts = []
    for lo, hi in ivs:
        if lo == hi:
            parts.append(v == lo)
        else:
            parts.append(z3.And(v >= lo, v <= hi))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def eng():
    return Engine.cur


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ('e', 'nar')

    def __init__(self, e, nar=None):
        self.e = e
        self.nar = nar

    def __bool__(self):
        return eng().fork(self.e, self.nar)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __eq__(self, o):
        e = self._o(o)
        if e is None:
            return bool(self) == o
        return SymBool(self.e == e)

    def __ne__(self, o):
        e = self._o(o)
        if e is None:
            return bool(self) != o
        return SymBool(self.e != e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, self._o(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.e, self._o(o)))
    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__


def mkbool(e, nar=None):
    """z3 bool / python bool -> SymBool or bool."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e, nar)


def conj(parts):
    if not parts:
        return True
    return parts[0] if len(parts) == 1 else z3.And(*parts)


def disj(parts):
    if not parts:
        return False
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


# --------------------------------------------------------------------------
class SymChar:
    """One symbolic code point."""
    __slots__ = ('v', 'name')

    def __init__(self, v, name):
        self.v = v
        self.name = name

    @property
    def dom(self):
        return eng().doms.get(self.name, ((0, MAXCP),))

    @property
    def leaf(self):
        a = eng().alias.get(self.name)
        if a is not None:
            return a
        return self.name.rsplit('#', 1)[0] if '#' in self.name else None


def ch_in(c, ivs):
    """c (str char or SymChar) in interval set -> bool or SymBool"""
    if type(c) is str:
        return iv_has(ivs, ord(c))
    d = c.dom
    i = iv_and(d, ivs)
    if not i:
        return False
    if i == d:
        return True
    return SymBool(iv_expr(c.v, i), (c.name, ivs))


def ch_eq_e(a, b):
    """equality of two chars -> True/False/z3 expr"""
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        o = ord(b)
        d = a.dom
        if not iv_has(d, o):
            return False
        if d == ((o, o),):
            return True
        return a.v == o
    if a is b or a.name == b.name:
        return True
    if not iv_and(a.dom, b.dom):
        return False
    return a.v == b.v


def ch_eq(a, b):
    e = ch_eq_e(a, b)
    if e is True or e is False:
        return e
    if type(b) is str:
        return SymBool(e, (a.name, ((ord(b), ord(b)),)))
    if type(a) is str:
        return SymBool(e, (b.name, ((ord(a), ord(a)),)))
    return SymBool(e)


def items_of(s):
    if type(s) is SymStr:
        return s.it
    if isinstance(s, str):
        return list(s)
    raise TypeError('expected str, got %s' % tname(s))


def tname(x):
    if isinstance(x, SymStr):
        return 'str'
    if isinstance(x, SymNum):
        return x.kind
    if isinstance(x, SymBool):
        return 'bool'
    return type(x).__name__


def mkstr(items):
    for i in items:
        if type(i) is not str:
            return SymStr(items)
    return ''.join(items)


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


def one_leaf(s, pure=False):
    """the leaf all symbolic characters of s belong to, or None"""
    leaf = None
    for c in s.it:
        if type(c) is str:
            if pure:
                return None
            continue
        l = c.leaf
        if l is None:
            return None
        if leaf is None:
            leaf = l
        elif leaf != l:
            return None
    return leaf


def note_harvest(s, const, kind='s'):
    """s: SymStr compared against a concrete constant ('s': as a whole, 'p': with a part of it)."""
    if type(const) is not str:
        return
    leaf = one_leaf(s)
    if leaf is not None and len(const) <= 48:
        eng().harvest.add((leaf, kind, const))


def note_width(s, lo):
    """s was matched against a pattern that needs at least lo characters"""
    if 0 < lo <= 48:
        leaf = one_leaf(s, True)
        if leaf is not None:
            eng().harvest.add((leaf, 'w', lo))


def str_eq_e(a, b):
    """equality of two str-likes -> True/False/z3"""
    if type(a) is SymStr and a.lazy and isinstance(b, str):
        e = lazy_eq(a, b)
        if e is not None:
            return e
    elif type(b) is SymStr and b.lazy and isinstance(a, str):
        e = lazy_eq(b, a)
        if e is not None:
            return e
    ia = items_of(a)
    ib = items_of(b)
    if len(ia) != len(ib):
        if type(a) is SymStr:
            note_harvest(a, b)
        if type(b) is SymStr:
            note_harvest(b, a)
        return False
    parts = []
    for x, y in zip(ia, ib):
        e = ch_eq_e(x, y)
        if e is False:
            return False
        if e is not True:
            parts.append(e)
    return conj(parts)


def str_eq(a, b):
    e = str_eq_e(a, b)
    if e is True or e is False:
        return e
    if getattr(a, 'lazy', None) or getattr(b, 'lazy', None):
        return SymBool(e)
    if len(items_of(a)) == 1:
        return ch_eq(items_of(a)[0], items_of(b)[0])
    return SymBool(e)


_pre = {}


def lazy_eq(a, b):
    """a case-converted text against a constant -> True/False/z3, or None if it has to be worked out"""
    src, _, conv = a.lazy
    if conv not in _pre:
        pre, wide = {}, []
        for i in range(0x110000):
            c = chr(i)
            d = conv(c)
            if len(d) == 1:
                if d != c:
                    pre.setdefault(d, []).append(c)
            else:
                wide.append(d)
        _pre[conv] = pre, wide
    pre, wide = _pre[conv]
    its = items_of(src)
    if 'σ' in b or 'ς' in b:
        return None
    if len(its) != len(b):
        note_harvest(src, b)
        if len(its) < len(b) and any(w in b for w in wide):
            return None
        return False
    parts = []
    for c, d in zip(its, b):
        if type(c) is str:
            if conv(c) != d:
                return False
            continue
        es = [ch_eq_e(c, x) for x in ([d] if conv(d) == d else []) + pre.get(d, [])]
        if any(x is True for x in es):
            continue
        es = [x for x in es if x is not False]
        if not es:
            return False
        parts.append(z3.Or(*es))
    return conj(parts)


def match_at(hay, i, needle):
    """items-level: needle at hay[i:] -> python bool (forks)"""
    parts = []
    for k in range(len(needle)):
        e = ch_eq_e(hay[i + k], needle[k])
        if e is False:
            return False
        if e is not True:
            parts.append((e, hay[i + k], needle[k]))
    if not parts:
        return True
    if len(parts) == 1:
        return bool(ch_eq(parts[0][1], parts[0][2]))
    return bool(SymBool(conj([p[0] for p in parts])))


WS = None


def _ws():
    return category('space')


class SymStr:
    """String of known length whose characters may be symbolic.

    A case-converted text is lazy: comparing it with a constant needs no fork per character; its
    characters are worked out (see _case) only if something else is done with it."""
    __slots__ = ('it', 'lazy')

    def __init__(self, items):
        self.it = items
        self.lazy = None

    # -- basics
    def __len__(self):
        return len(self.it)

    def __bool__(self):
        return bool(self.lazy[0] if self.lazy else self.it)

    def __hash__(self):
        return 7

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        for c in self.it:
            yield c if type(c) is str else SymStr([c])

    def __getitem__(self, k):
        if isinstance(k, SymNum):
            k = k.__index__()
        if isinstance(k, slice):
            return mkstr(self.it[_conc_slice(k)])
        c = self.it[k]
        return c if type(c) is str else SymStr([c])

    def __add__(self, o):
        if not is_str(o):
            raise TypeError('can only concatenate str (not "%s") to str' % tname(o))
        return SymStr(self.it + items_of(o))

    def __radd__(self, o):
        if not is_str(o):
            raise TypeError('can only concatenate str')
        return SymStr(items_of(o) + self.it)

    def __mul__(self, n):
        n = n.__index__()
        return mkstr(self.it * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return ops().mod(self, args)

    def __eq__(self, o):
        if not is_str(o):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        if not is_str(o):
            return True
        e = str_eq_e(self, o)
        if e is True:
            return False
        if e is False:
            return True
        if not self.lazy and not getattr(o, 'lazy', None) and len(self.it) == 1:
            return not ch_eq(self.it[0], items_of(o)[0])
        return SymBool(z3.Not(e))

    def _cmp(self, o):
        if not is_str(o):
            raise TypeError("'<' not supported between str and %s" % tname(o))
        b = items_of(o)
        for x, y in zip(self.it, b):
            if ch_eq(x, y):
                continue
            vx = ord(x) if type(x) is str else x.v
            vy = ord(y) if type(y) is str else y.v
            return -1 if mkbool(vx < vy) else 1
        return (len(self.it) > len(b)) - (len(self.it) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __contains__(self, sub):
        return ops().contains(sub, self)

    def __str__(self):
        raise Unsupported('native str() of symbolic string')

    def __repr__(self):
        return '<SymStr %s>' % ''.join(c if type(c) is str else '\u25a1' for c in self.it)

    def __format__(self, spec):
        raise Unsupported('native format() of symbolic string')

    def __getattr__(self, name):
        if name == 'it':
            src, fixname, conv = self.lazy
            self.lazy = None
            self.it = items_of(_case(src, fixname, conv))
            return self.it
        f = STR_METHODS.get(name)
        if f is None:
            if hasattr(str, name):
                raise Unsupported('str.%s on symbolic string' % name)
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return lambda *a, **k: f(self, *a, **k)


def _conc_slice(s):
    def c(x):
        return x.__index__() if x is not None else None
    return slice(c(s.start), c(s.stop), c(s.step))


# ---- string methods over str-likes (self may be concrete or symbolic) -----
STR_METHODS = {}


def strm(f):
    STR_METHODS[f.__name__.rstrip('_')] = f
    return f


def _find_from(h, n, start, stop):
    """first index i in [start, stop-len(n)] where n matches, or -1 (forks)"""
    for i in range(start, stop - len(n) + 1):
        if match_at(h, i, n):
            return i
    return -1


def _needle_harvest(s, sub):
    if type(s) is SymStr and type(sub) is str and len(sub) > 0:
        note_harvest(s, sub, 'p')


def _range(n, start, end):
    a, b, _ = slice(start, end).indices(n)
    return a, b


@strm
def find(s, sub, start=None, end=None):
    _needle_harvest(s, sub)
    h, n = items_of(s), items_of(sub)
    a, b = _range(len(h), start, end)
    return _find_from(h, n, a, b)


@strm
def rfind(s, sub, start=None, end=None):
    _needle_harvest(s, sub)
    h, n = items_of(s), items_of(sub)
    a, b = _range(len(h), start, end)
    for i in range(b - len(n), a - 1, -1):
        if match_at(h, i, n):
            return i
    return -1


@strm
def index(s, sub, *a):
    r = find(s, sub, *a)
    if r < 0:
        raise ValueError('substring not found')
    return r


@strm
def rindex(s, sub, *a):
    r = rfind(s, sub, *a)
    if r < 0:
        raise ValueError('substring not found')
    return r


@strm
def count(s, sub, start=None, end=None):
    _needle_harvest(s, sub)
    h, n = items_of(s), items_of(sub)
    a, b = _range(len(h), start, end)
    if not n:
        return b - a + 1
    k = 0
    while True:
        i = _find_from(h, n, a, b)
        if i < 0:
            return k
        k += 1
        a = i + len(n)


@strm
def replace(s, old, new, count=-1):
    if not (is_str(old) and is_str(new)):
        raise TypeError('replace() argument must be str')
    _needle_harvest(s, old)
    h, o, w = items_of(s), items_of(old), items_of(new)
    if not o:
        raise Unsupported('replace of empty string')
    out = []
    i = 0
    k = 0
    while i < len(h):
        if (count < 0 or k < count) and i + len(o) <= len(h) and match_at(h, i, o):
            out.extend(w)
            i += len(o)
            k += 1
        else:
            out.append(h[i])
            i += 1
    return mkstr(out)


@strm
def startswith(s, prefix, start=None, end=None):
    if isinstance(prefix, tuple):
        return any(bool(startswith(s, p, start, end)) for p in prefix)
    _needle_harvest(s, prefix)
    h, n = items_of(s), items_of(prefix)
    a, b = _range(len(h), start, end)
    if b - a < len(n):
        return False
    return str_eq(mkstr(h[a:a + len(n)]), mkstr(n)) if n else True


@strm
def endswith(s, suffix, start=None, end=None):
    if isinstance(suffix, tuple):
        return any(bool(endswith(s, p, start, end)) for p in suffix)
    _needle_harvest(s, suffix)
    h, n = items_of(s), items_of(suffix)
    a, b = _range(len(h), start, end)
    if b - a < len(n):
        return False
    return str_eq(mkstr(h[b - len(n):b]), mkstr(n)) if n else True


@strm
def removeprefix(s, p):
    return s[len(p):] if startswith(s, p) else s


@strm
def removesuffix(s, p):
    return s[:len(s) - len(p)] if p and endswith(s, p) else s


def _stripset(chars):
    if chars is None:
        return lambda c: bool(ch_in(c, _ws()))
    cs = items_of(chars)
    return lambda c: any(bool(ch_eq(c, x)) for x in cs)


@strm
def lstrip(s, chars=None):
    h = items_of(s)
    t = _stripset(chars)
    i = 0
    while i < len(h) and t(h[i]):
        i += 1
    return mkstr(h[i:])


@strm
def rstrip(s, chars=None):
    h = items_of(s)
    t = _stripset(chars)
    i = len(h)
    while i > 0 and t(h[i - 1]):
        i -= 1
    return mkstr(h[:i])


@strm
def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


@strm
def split(s, sep=None, maxsplit=-1):
    h = items_of(s)
    out = []
    if sep is None:
        i = 0
        ws = _ws()
        while True:
            while i < len(h) and ch_in(h[i], ws):
                i += 1
            if i >= len(h):
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(mkstr(h[i:])))
                return out
            j = i
            while j < len(h) and not ch_in(h[j], ws):
                j += 1
            out.append(mkstr(h[i:j]))
            i = j
    if len(sep) == 0:
        raise ValueError('empty separator')
    _needle_harvest(s, sep)
    n = items_of(sep)
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = _find_from(h, n, i, len(h))
        if j < 0:
            break
        out.append(mkstr(h[i:j]))
        i = j + len(n)
    out.append(mkstr(h[i:]))
    return out


@strm
def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        raise Unsupported('rsplit whitespace')
    _needle_harvest(s, sep)
    h, n = items_of(s), items_of(sep)
    out = []
    end = len(h)
    while len(out) < maxsplit:
        j = rfind(mkstr(h[:end]), sep)
        if j < 0:
            break
        out.insert(0, mkstr(h[j + len(n):end]))
        end = j
    out.insert(0, mkstr(h[:end]))
    return out


@strm
def partition(s, sep):
    j = find(s, sep)
    if j < 0:
        return (s, '', '')
    return (s[:j], sep, s[j + len(sep):])


@strm
def rpartition(s, sep):
    j = rfind(s, sep)
    if j < 0:
        return ('', '', s)
    return (s[:j], sep, s[j + len(sep):])


@strm
def splitlines(s, keepends=False):
    h = items_of(s)
    nl = category('lines')
    out = []
    i = 0
    while i < len(h):
        j = i
        while j < len(h) and not ch_in(h[j], nl):
            j += 1
        if j >= len(h):
            out.append(mkstr(h[i:]))
            break
        k = j + 1
        if bool(ch_eq(h[j], '\r')) and k < len(h) and bool(ch_eq(h[k], '\n')):
            k += 1
        out.append(mkstr(h[i:k] if keepends else h[i:j]))
        i = k
    return out


@strm
def join(s, seq):
    out = []
    first = True
    for x in seq:
        if not is_str(x):
            raise TypeError('sequence item: expected str instance, %s found' % tname(x))
        if not first:
            out.extend(items_of(s))
        first = False
        out.extend(items_of(x))
    return mkstr(out)


def _case(s, fixname, conv):
    out = []
    for c in items_of(s):
        if type(c) is str:
            out.extend(conv(c))
            continue
        if bool(ch_in(c, category(fixname))):
            out.append(c)
        elif bool(ch_in(c, LETTER)):
            n = eng().fresh_char(LETTER, 'case')
            eng().assume(n.v == c.v + (32 if conv('A') == 'a' else -32))
            if c.leaf is not None:
                eng().alias[n.name] = c.leaf
            out.append(n)
        else:
            out.extend(conv(concretise_char(c)))
    return mkstr(out)


def _lazy_case(s, fixname, conv):
    if type(s) is not SymStr:
        return conv(s)
    if len(s.it) == 1 and type(s.it[0]) is not str and len(s.it[0].dom) == 1 and s.it[0].dom[0][1] < 128:
        return _case(s, fixname, conv)
    r = SymStr.__new__(SymStr)
    r.lazy = s, fixname, conv
    return r


@strm
def lower(s):
    return _lazy_case(s, 'lowerfix', str.lower)


@strm
def upper(s):
    return _lazy_case(s, 'upperfix', str.upper)


@strm
def casefold(s):
    return _lazy_case(s, 'foldfix', str.casefold)


@strm
def swapcase(s):
    out = []
    for c in items_of(s):
        if type(c) is str:
            out.extend(c.swapcase())
        elif bool(ch_in(c, category('swapfix'))):
            out.append(c)
        elif bool(ch_in(c, ((65, 90),))):
            out.extend(items_of(lower(mkstr([c]))))
        elif bool(ch_in(c, ((97, 122),))):
            out.extend(items_of(upper(mkstr([c]))))
        else:
            out.extend(concretise_char(c).swapcase())
    return mkstr(out)


@strm
def title(s):
    out, prev = [], False
    for c in items_of(s):
        if bool(ch_in(c, category('cased'))):
            if not prev and type(c) is not str and not bool(ch_in(c, LETTER)):
                c = concretise_char(c)
            out.extend(items_of((lower if prev else upper)(mkstr([c]))) if type(c) is not str or prev else list(c.title()))
            prev = True
        else:
            out.append(c)
            prev = False
    return mkstr(out)


@strm
def capitalize(s):
    return upper(s[:1]) + lower(s[1:])


def _allin(s, ivs, empty=False):
    h = items_of(s)
    if not h:
        return empty
    for c in h:
        if not ch_in(c, ivs):
            return False
    return True


@strm
def isdigit(s):
    return _allin(s, category('isdigit'))


@strm
def isdecimal(s):
    return _allin(s, category('digit'))


@strm
def isnumeric(s):
    return _allin(s, category('isnumeric'))


@strm
def isalpha(s):
    return _allin(s, category('isalpha'))


@strm
def isalnum(s):
    return _allin(s, category('isalnum'))


@strm
def isspace(s):
    return _allin(s, category('space'))


@strm
def isascii(s):
    return _allin(s, ((0, 127),), True)


@strm
def isprintable(s):
    return _allin(s, category('isprintable'), True)


@strm
def islower(s):
    h = items_of(s)
    return bool(s == lower(s)) and not bool(s == upper(s))


@strm
def isupper(s):
    return bool(s == upper(s)) and not bool(s == lower(s))


@strm
def isidentifier(s):
    h = items_of(s)
    if not h:
        return False
    w = iv_and(category('word'), ((0, 127),))
    for c in h:
        if type(c) is not str and not ch_in(c, ((0, 127),)):
            raise Unsupported('isidentifier non-ascii')
    return bool(ch_in(h[0], iv_sub(w, DIGIT))) and _allin(s, w)


def _pad(s, n, fill, how):
    k = n - len(s)
    if k <= 0:
        return s
    f = items_of(fill)
    if how == 'l':
        return mkstr(items_of(s) + f * k)
    if how == 'r':
        return mkstr(f * k + items_of(s))
    left = k // 2 + (k & n & 1)
    return mkstr(f * left + items_of(s) + f * (k - left))


@strm
def ljust(s, n, fill=' '):
    return _pad(s, n, fill, 'l')


@strm
def rjust(s, n, fill=' '):
    return _pad(s, n, fill, 'r')


@strm
def center(s, n, fill=' '):
    return _pad(s, n, fill, 'c')


@strm
def zfill(s, n):
    h = items_of(s)
    if h and (bool(ch_eq(h[0], '-')) or bool(ch_eq(h[0], '+'))):
        return mkstr([h[0]] + ['0'] * max(0, n - len(h)) + h[1:])
    return _pad(s, n, '0', 'r')


@strm
def expandtabs(s, n=8):
    if bool(ops().contains('\t', s)):
        raise Unsupported('expandtabs')
    return s


@strm
def translate(s, table):
    out = []
    keys = [k for k in table.keys()]
    for c in items_of(s):
        if type(c) is str:
            r = table.get(ord(c), c)
        else:
            r = c
            for k in keys:
                if bool(ch_eq(c, chr(k))):
                    r = table[k]
                    break
        if r is None:
            continue
        if type(r) is int:
            r = chr(r)
        out.extend([r] if type(r) is SymChar else items_of(r))
    return mkstr(out)


ENC_LIMIT = {'ascii': 0x7F, 'iso8859-1': 0xFF}
ENC_UTF = ('utf-8', 'utf-16', 'utf-32', 'utf-8-sig')


def encodable(s, enc, errors='strict'):
    """what is left of s after encoding it (and decoding it again)"""
    lim = ENC_LIMIT.get(enc)
    if lim is None:
        if enc not in ENC_UTF:
            raise Unsupported('encoding ' + enc)
        return s
    out = []
    for c in items_of(s):
        if bool(ch_in(c, ((0, lim),))):
            out.append(c)
        elif errors in (None, 'strict'):
            raise UnicodeEncodeError(enc, '', 0, 1, 'character')
        elif errors == 'replace':
            out.append('?')
        elif errors != 'ignore':
            raise Unsupported('encoding errors=%r' % (errors,))
    return mkstr(out)


@strm
def encode(s, encoding='utf-8', errors='strict'):
    enc = codecs.lookup(encoding).name
    return SymBytes(encodable(s, enc, errors), enc)


@strm
def format_(s, *args, **kw):
    return ops().str_format(s, args, kw)


class SymBytes:
    """str.encode() result: decoding with the same codec, joining and writing to a file are modelled."""

    def __init__(self, s, enc):
        self.s, self.enc = s, enc

    def decode(self, encoding='utf-8', errors='strict'):
        if codecs.lookup(encoding).name != self.enc:
            raise Unsupported('re-decoding')
        return self.s

    def __add__(self, o):
        if not isinstance(o, SymBytes) or o.enc != self.enc or self.enc not in ('utf-8', 'ascii', 'iso8859-1'):
            raise Unsupported('bytes')
        return SymBytes(self.s + o.s, self.enc)

    def __bool__(self):
        return len(self.s) > 0

    def __len__(self):
        raise Unsupported('len of bytes')


def concretise_char(c):
    """Pick a concrete value, exploring the others too (bounded enumeration)."""
    if type(c) is str:
        return c
    e = eng()
    for _ in range(64):
        m = e.model()
        if m is None:
            raise PathAbort()
        v = m.eval(c.v, model_completion=True).as_long()
        if e.fork(c.v == v):
            return chr(v)
        e.stats.concretised += 1
        e.flags.add('concretised')
        if len(e.trace) > 0 and _ >= 3:
            break
    raise PathAbort()


def concretise_str(s):
    if type(s) is not SymStr:
        return s
    eng().flags.add('concretised')
    eng().stats.concretised += 1
    m = eng().model()
    if m is None:
        raise PathAbort()
    out = []
    for c in s.it:
        if type(c) is str:
            out.append(c)
        else:
            v = m.eval(c.v, model_completion=True).as_long()
            eng().assume(c.v == v)
            out.append(chr(v))
    return ''.join(out)


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
def dig_v(d):
    return int(d) if type(d) is str else d.v - 48


def _as_frac(x):
    """exact decimal value of a python number's shortest repr"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    import math
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return Fraction(repr(x))
    return None


class SymNum:
    """A number with a decimal digit expansion of known shape.

    value = (-1)^neg * (ip . fp); digits are '0'..'9' or SymChar in DIGIT.
    kind 'int' has no fp.  At most 15 significant digits, so that float() of
    the numeral and repr() of the float are inverse to each other (IEEE
    double guarantees 15 significant decimal digits).
    """
    __slots__ = ('kind', 'neg', 'ip', 'fp')

    def __init__(self, kind, neg, ip, fp=()):
        self.kind, self.neg, self.ip, self.fp = kind, neg, list(ip), list(fp)

    # scaled integer value at scale q >= len(fp)
    def scaled(self, q):
        ds = self.ip + self.fp + ['0'] * (q - len(self.fp))
        n = len(ds)
        const = 0
        terms = []
        for i, d in enumerate(ds):
            w = 10 ** (n - 1 - i)
            if type(d) is str:
                const += int(d) * w
            else:
                const -= 48 * w
                terms.append(d.v * w if w != 1 else d.v)
        if not terms:
            e = z3.IntVal(const)
        else:
            e = z3.Sum(*terms) + const if len(terms) > 1 else terms[0] + const
        return -e if self.neg else e

    @property
    def leaf(self):
        l = None
        for d in self.ip + self.fp:
            if type(d) is not str:
                x = d.leaf
                if x is None or (l is not None and l != x):
                    return None
                l = x
        return l

    def _pair(self, o):
        """(a, b) scaled z3 ints for comparison with o, or None"""
        if isinstance(o, SymNum):
            q = max(len(self.fp), len(o.fp))
            return self.scaled(q), o.scaled(q)
        if isinstance(o, SymBool):
            o = bool(o)
        f = _as_frac(o)
        if f is None:
            return None
        l = self.leaf
        if l is not None and not isinstance(o, bool):
            eng().harvest.add((l, 'n', o))
        q = len(self.fp)
        while (f * 10 ** q).denominator != 1 and q < 40:
            q += 1
        return self.scaled(q), z3.IntVal(int(f * 10 ** q))

    def _isnum(self, o):
        return isinstance(o, (int, float, SymNum, SymBool))

    def __eq__(self, o):
        if not self._isnum(o):
            return False
        if isinstance(o, SymNum) and same_digits(self, o):
            return True
        p = self._pair(o)
        if p is None:
            return False
        return mkbool(z3.simplify(p[0] == p[1]))

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.e))
        return not r

    def _cmp(self, o, f):
        if not self._isnum(o):
            raise TypeError("'<' not supported between instances of '%s' and '%s'" % (self.kind, tname(o)))
        p = self._pair(o)
        if p is None:
            import math
            if math.isnan(o):
                return False
            return f(0, 1) if o > 0 else f(1, 0)
        return mkbool(z3.simplify(f(p[0], p[1])))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 11

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<SymNum %s%s.%s>' % ('-' if self.neg else '', *[''.join(c if type(c) is str else '\u25a1' for c in x) for x in (self.ip, self.fp)])

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported('native format of symbolic number')

    def text(self):
        """repr()/str() of the number, a str-like"""
        s = canon(self)
        sign = ['-'] if s.neg else []
        if s.kind == 'int':
            return mkstr(sign + s.ip)
        fp = s.fp or ['0']
        # leading zero run -> exponent form below 1e-4
        if len(s.ip) == 1 and len(fp) > 4 and bool(ch_eq(s.ip[0], '0')):
            k = 0
            while k < len(fp) and bool(ch_eq(fp[k], '0')):
                k += 1
            if k >= 4 and k < len(fp):
                m = fp[k:]
                return mkstr(sign + [m[0]] + (['.'] + m[1:] if len(m) > 1 else []) + list('e-%02d' % (k + 1)))
        return mkstr(sign + s.ip + ['.'] + fp)

    def fixed(self, n):
        """format(x, '.{n}f')"""
        s = self
        if len(s.fp) <= n:
            fp = s.fp + ['0'] * (n - len(s.fp))
            c = canon(s)
            return mkstr((['-'] if s.neg else []) + c.ip + (['.'] + fp if n else []))
        r = self.rounded(n)
        fp = r.fp + ['0'] * (n - len(r.fp))
        return mkstr((['-'] if r.neg else []) + canon_ip(r.ip) + (['.'] + fp if n else []))

    def rounded(self, n):
        """round half-even on the decimal expansion (binary ties differ: flagged)"""
        if len(self.fp) <= n:
            return SymNum(self.kind, self.neg, self.ip, self.fp)
        e = eng()
        e.flags.add('approx')
        e.stats.approx += 1
        q = len(self.fp)
        a = SymNum(self.kind, False, self.ip, self.fp).scaled(q)
        w = 10 ** (q - n)
        half = w // 2
        quo = z3.Int('rq!%d' % e.nfresh)
        rem = z3.Int('rr!%d' % e.nfresh)
        e.nfresh += 1
        e.assume(z3.And(a == quo * w + rem, rem >= 0, rem < w))
        up = e.fork(rem > half)
        if not up and e.fork(rem == half):
            raise Unsupported('rounding tie')
        return num_from_expr('float', quo + (1 if up else 0), n, len(self.ip) + 1 + n, self.neg)

    def is_integer(self):
        parts = []
        for d in self.fp:
            e = ch_eq_e(d, '0')
            if e is False:
                return False
            if e is not True:
                parts.append(e)
        return not parts or bool(SymBool(conj(parts)))

    def to_int(self):
        c = canon(SymNum('int', self.neg, self.ip, []))
        if c.neg and len(c.ip) == 1 and bool(ch_eq(c.ip[0], '0')):
            return 0
        return mknum(c)

    def to_float(self):
        return SymNum('float', self.neg, self.ip, self.fp)

    def __index__(self):
        if self.kind != 'int':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._conc(int)

    def __int__(self):
        return self._conc(lambda x: int(x))

    def __float__(self):
        raise Unsupported('native float() of symbolic number')

    def _conc(self, conv):
        e = eng()
        v = self.scaled(len(self.fp))
        for _ in range(40):
            m = e.model()
            if m is None:
                raise PathAbort()
            k = m.eval(v, model_completion=True).as_long()
            if e.fork(v == k):
                return conv(Fraction(k, 10 ** len(self.fp)))
        e.flags.add('concretised')
        raise PathAbort()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # -- arithmetic: exact on the decimal values (flagged approximate for float)
    def __neg__(self):
        if self.kind == 'int' and not bool(self != 0):
            return 0
        return SymNum(self.kind, not self.neg, self.ip, self.fp)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(self.kind, False, self.ip, self.fp)

    def __round__(self, n=None):
        if n is None:
            if self.kind == 'int':
                return self
            return self.rounded(0).to_int()
        if self.kind == 'int':
            return self
        return canon(self.rounded(n).to_float())

    def _arith(self, o, f, qf):
        if not self._isnum(o):
            raise TypeError('unsupported operand type(s)')
        if isinstance(o, SymBool):
            o = int(bool(o))
        kind = 'float' if 'float' in (self.kind, tname(o)) else 'int'
        if kind == 'float':
            eng().flags.add('approx')
            eng().stats.approx += 1
        if isinstance(o, SymNum):
            oq, oe = len(o.fp), o.scaled(len(o.fp))
        else:
            fr = _as_frac(o)
            if fr is None:
                raise Unsupported('arith with inf/nan')
            oq = 0
            while (fr * 10 ** oq).denominator != 1:
                oq += 1
                if oq > 20:
                    raise Unsupported('arith precision')
            oe = int(fr * 10 ** oq)
        return kind, oq, oe

    def __add__(self, o, sub=False, rev=False):
        kind, oq, oe = self._arith(o, None, None)
        q = max(oq, len(self.fp))
        a = self.scaled(q)
        b = oe * 10 ** (q - oq)
        e = (a + b) if not sub else ((b - a) if rev else (a - b))
        return num_from_expr(kind, z3.simplify(e), q, 16)
    __radd__ = __add__

    def __sub__(self, o):
        return self.__add__(o, sub=True)

    def __rsub__(self, o):
        return self.__add__(o, sub=True, rev=True)

    def __mul__(self, o):
        if is_str(o) or isinstance(o, (list, tuple)):
            return o * self.__index__()
        kind, oq, oe = self._arith(o, None, None)
        q = oq + len(self.fp)
        return num_from_expr(kind, z3.simplify(self.scaled(len(self.fp)) * oe), q, 16)
    __rmul__ = __mul__

    def __truediv__(self, o):
        fr = None if isinstance(o, SymNum) else _as_frac(o)
        if fr in (None, 0):
            raise Unsupported('division')
        inv = 1 / fr
        q = 0
        while (inv * 10 ** q).denominator != 1:
            q += 1
            if q > 12:
                raise Unsupported('division precision')
        k = int(inv * 10 ** q)
        eng().flags.add('approx')
        return num_from_expr('float', z3.simplify(self.scaled(len(self.fp)) * k), q + len(self.fp), 16)

    def __rtruediv__(self, o):
        raise Unsupported('division by symbolic')

    def __mod__(self, o):
        if isinstance(o, int) and self.kind == 'int' and o > 0:
            return num_from_expr('int', self.scaled(0) % o, 0, len(str(o)))
        if isinstance(o, int) and not isinstance(o, bool) and self.kind == 'float' and o > 0:
            q = len(self.fp)
            return num_from_expr('float', self.scaled(q) % (o * 10 ** q), q, len(str(o)))
        raise Unsupported('modulo')

    def __floordiv__(self, o):
        if isinstance(o, int) and self.kind == 'int' and o > 0:
            return num_from_expr('int', self.scaled(0) / o, 0, len(self.ip) + 1)
        if isinstance(o, int) and not isinstance(o, bool) and self.kind == 'float' and o > 0:
            return num_from_expr('float', self.scaled(len(self.fp)) / (o * 10 ** len(self.fp)), 0, len(self.ip) + 1)
        raise Unsupported('floordiv')

    def __trunc__(self):
        return self if self.kind == 'int' else self.to_int()

    def __floor__(self):
        if self.kind == 'int':
            return self
        t = self.to_int()
        return t - 1 if self.neg and bool(self != t) else t

    def __ceil__(self):
        if self.kind == 'int':
            return self
        t = self.to_int()
        return t if self.neg or bool(self == t) else t + 1

    def __pow__(self, o):
        raise Unsupported('pow')
    __rpow__ = __rmod__ = __rfloordiv__ = __pow__

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio')


def same_digits(a, b):
    if a.neg != b.neg or len(a.ip) != len(b.ip) or len(a.fp) != len(b.fp):
        return False
    for x, y in zip(a.ip + a.fp, b.ip + b.fp):
        if type(x) is str or type(y) is str:
            if x != y:
                return False
        elif x.name != y.name:
            return False
    return True


def canon_ip(ip):
    ip = list(ip)
    while len(ip) > 1 and bool(ch_eq(ip[0], '0')):
        ip = ip[1:]
    return ip or ['0']


def canon(s):
    """strip leading zeros of ip / trailing zeros of fp (forks)"""
    ip = canon_ip(s.ip)
    fp = list(s.fp)
    while fp and bool(ch_eq(fp[-1], '0')):
        fp.pop()
    return SymNum(s.kind, s.neg, ip, fp)


def mknum(s):
    """all-concrete -> python number"""
    for d in s.ip + s.fp:
        if type(d) is not str:
            return s
    t = ('-' if s.neg else '') + ''.join(s.ip)
    if s.kind == 'int':
        return int(t)
    return float(t + '.' + ''.join(s.fp or ['0']))


def num_from_expr(kind, e, q, maxdig, neg=None):
    """SymNum with fresh digits equal to e / 10**q"""
    en = eng()
    if z3.is_int_value(e):
        k = e.as_long()
        f = Fraction(k, 10 ** q)
        if neg:
            f = -f
        return int(f) if kind == 'int' else float(f)
    if neg is None:
        neg = en.fork(e < 0)
        a = -e if neg else e
    else:
        a = e
    n = q + 1
    while n < maxdig + q and not en.fork(a < 10 ** n):
        n += 1
    ds = []
    for i in range(n):
        ds.append(en.fresh_char(DIGIT, 'dig'))
    r = SymNum(kind, neg, ds[:n - q], ds[n - q:])
    en.assume(SymNum(kind, False, r.ip, r.fp).scaled(q) == a)
    if kind == 'int' and neg is False or kind == 'int':
        r = SymNum('int', neg, r.ip, [])
    return canon(r)


def parse_number(s, kind):
    """float(str-like) / int(str-like)"""
    s = strip(s)
    h = items_of(s)
    if not h:
        raise ValueError('could not convert string to %s' % kind)
    neg = False
    if bool(ch_eq(h[0], '-')):
        neg = True
        h = h[1:]
    elif bool(ch_eq(h[0], '+')):
        h = h[1:]
    ip, fp, dot = [], [], False
    asc = category('digit')
    i = 0
    while i < len(h):
        c = h[i]
        if bool(ch_in(c, DIGIT)):
            (fp if dot else ip).append(c)
        elif kind == 'float' and not dot and bool(ch_eq(c, '.')):
            dot = True
        elif bool(ch_in(c, asc)):
            c = concretise_char(c)
            (fp if dot else ip).append(str(unicodedata.decimal(c)))
        elif kind == 'float' and (ip or fp) and bool(ch_in(c, iv_chars('eE'))):
            return _parse_exp(neg, ip, fp, h[i + 1:])
        elif bool(ch_eq(c, '_')):
            raise Unsupported('underscore numeral')
        elif not bool(ch_in(c, ((0, 127),))):
            raise ValueError('could not convert')
        else:
            if type(c) is not str and bool(ch_in(c, iv_chars('infaINFA'))):
                raise Unsupported('inf/nan numeral')
            if type(c) is str and c in 'inIN':
                if all(type(x) is str for x in h):
                    return float(('-' if neg else '') + ''.join(h))
                raise Unsupported('inf/nan')
            raise ValueError('could not convert string to %s' % kind)
        i += 1
    if not ip and not fp:
        raise ValueError('could not convert string to %s' % kind)
    if len(ip) + len(fp) > 15 and any(type(x) is not str for x in ip + fp):
        # beyond 15 significant digits the decimal model is not exact
        lead = 0
        for x in ip + fp:
            if x == '0':
                lead += 1
            else:
                break
        if len(ip) + len(fp) - lead > 15:
            if kind == 'float':
                raise Unsupported('more than 15 digits')
    if not ip:
        ip = ['0']
    n = SymNum(kind, neg, ip, fp)
    if kind == 'int':
        n = canon(n)
        if n.neg and len(n.ip) == 1 and bool(ch_eq(n.ip[0], '0')):
            return 0
    return mknum(n)


def _parse_exp(neg, ip, fp, rest):
    if not rest:
        raise ValueError('could not convert string to float')
    t = ''
    for c in rest:
        t += c if type(c) is str else concretise_char(c)
    k = int(t)
    if abs(k) > 30:
        if all(type(x) is str for x in ip + fp):
            return float(('-' if neg else '') + ''.join(ip) + '.' + ''.join(fp or ['0']) + 'e' + t)
        raise Unsupported('exponent range')
    ds = list(ip) + list(fp)
    pos = len(ip) + k
    if pos <= 0:
        ip2, fp2 = ['0'], ['0'] * (-pos) + ds
    elif pos >= len(ds):
        ip2, fp2 = ds + ['0'] * (pos - len(ds)), []
    else:
        ip2, fp2 = ds[:pos], ds[pos:]
    return mknum(SymNum('float', neg, ip2, fp2))


_ops = None


def ops():
    global _ops
    if _ops is None:
        from . import ops as o
        _ops = o
    return _ops
