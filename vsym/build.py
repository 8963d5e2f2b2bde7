"""Builds symbolic (object, expected token tree) pairs from the format tables.

A table entry (spec/*.py) describes one kiutils class: which tokens KiCad
documents for it, in which order, which attribute each carries, which are
optional and what the attribute is when the token is absent.
"""
import re
import z3
from .core import (ANY, DIGIT, NZDIGIT, LETTER, MAXCP, Engine, SymNum, SymStr, SymChar,
                   iv_and, iv_chars, iv_norm, iv_not, iv_or, iv_sub, mkstr, mknum)

TXT_BASE = iv_sub(ANY, iv_chars('"\\'))
WORD0 = LETTER
WORD1 = iv_sub(((33, 126),), iv_chars('()"^\\'))
HEX = iv_chars('0123456789abcdef')
HEXL = iv_chars('abcdef')

LISTIDX = re.compile(r'\[(\d+)')
SPECS = {}
MOD = {}


def spec(mod, name):
    def deco(fn):
        SPECS[name] = fn
        MOD[name] = mod
        fn.cname = name
        return fn
    return deco


class Obj:
    """description of an object: class name + attribute values"""

    def __init__(self, cls, f, req=0):
        self.cls, self.f, self.req = cls, f, req          # req: leading entries of the token that cannot be missing


class WR:
    """a tree node that differs between what is written and what is read"""

    def __init__(self, w, r):
        self.w, self.r = w, r


class Ch:
    """a named child: tree plus read-side default when it is omitted"""

    def __init__(self, tree, om, group=None, req=0):
        self.tree, self.om, self.group = tree, om, group      # group: list attribute whose order the file order is
        self.req = req                                        # leading entries that cannot be missing


class Leaf:
    def __init__(self, name, kind, top):
        self.name, self.kind, self.top = name, kind, top


class Builder:
    def __init__(self, engine, base='min', k=2, focus=None, prefix='', depth=0, root=None, fixed=None):
        self.e = engine
        self.base, self.k = base, k
        self.focus = focus or {}
        self.prefix = prefix
        self.depth = depth
        self.root = root or self
        if root is None:
            self.devs = []
            self.leaves = []
            self.ndev = 0
            self.deps = set()
            self.used = {}
        self.fixed = fixed or {}

    # -- nondeterministic structure ----------------------------------------
    def _name(self, n):
        return self.prefix + n

    def opt(self, name):
        """symbolic presence flag"""
        n = self._name(name)
        if n in self.fixed:
            return self.fixed[n]
        present = self.base == 'max'
        if self.depth > 0:
            return present
        r = self.root
        if r.ndev >= self.k:
            return present
        v = self.e.flag(n)
        if self.e.fork(v if present else z3.Not(v)):
            return present
        r.ndev += 1
        return not present

    def pick(self, name, options, maxidx=None):
        """symbolic choice among options; index 0 is the min baseline"""
        n = self._name(name)
        if n in self.fixed:
            return options[self.fixed[n]]
        base = 0 if self.base == 'min' or maxidx is None else maxidx
        r = self.root
        if self.depth > 0 or r.ndev >= self.k or len(options) == 1:
            return options[base]
        v = z3.Int('pick!' + n)
        self.e.assume(z3.And(v >= 0, v < len(options)))
        if self.e.fork(v == base):
            return options[base]
        r.ndev += 1
        for i in range(len(options)):
            if i != base and self.e.fork(v == i):
                return options[i]
        from .core import PathAbort
        raise PathAbort()

    def count(self, name, lens_min=(0, 1, 2), lens_max=(2, 0, 1, 3)):
        if self.depth == 0 and '#' in self.fixed:
            return self.fixed['#']
        lens = lens_max if self.base == 'max' else lens_min
        if self.depth > 0:
            return 1 if self.base == 'max' else 0
        return self.pick(name, lens)

    # -- leaves --------------------------------------------------------------
    def leaf(self, name, kind, ban=(), shapes=None):
        n = self._name(name)
        i = self.root.used.get(n, 0)
        self.root.used[n] = i + 1
        if i:
            n = '%s~%d' % (n, i)
        self.root.leaves.append(Leaf(n, kind, self.depth == 0))
        shape = self.focus.get(n)
        if shape is None and self.depth == 0:
            shape = self.focus.get('*' + kind[0])
        if shape is None and '#' in self.fixed:
            m = LISTIDX.search(n)
            if m and int(m.group(1)) >= 2:         # long lists: symbolic heads, distinct constants after
                shape = '=' + (str(int(m.group(1)) % 100) if kind[0] in 'NIPFJ' else 'c%s%s' % (m.group(1), 'xyz'[len(n) % 3]))
        v = make_leaf(self.e, n, kind, shape)
        for b in ban:
            if type(v) is SymStr and len(v) == len(b):
                ne = [c.v != ord(x) for c, x in zip(v.it, b) if type(c) is not str]
                if ne:
                    self.e.assume(z3.Or(*ne))
        return v

    def child(self, name, base=None, focus=None):
        return Builder(self.e, base or ('max' if self.base == 'max' and self.depth < 1 else 'min'), 0,
                       self.focus, self.prefix + name + '.', self.depth + 1, self.root, self.fixed)

    def make(self, cname, name, base=None):
        if self.depth == 0:
            self.root.deps.add(cname)
        return SPECS[cname](self.child(name, base))

    def cls(self, cname, token=None):
        return C(self, cname, token)


NUM_SHAPES = ['d', '-D', 'DD', 'd.D', '-d.dD', 'Dd.dddddD', '0.000D', 'Ddd', '0.0000D', '-0.00000DD', 'Dddddd', 'Dddddd.dddddD',
              'D.dddddddD', 'D.dddddddddD', 'Dddddddd', '-Ddd.ddD', '-0.D', 'DdddddddddddddddD', '=1.5e-07', '=-2.5e+20']
INT_SHAPES = ['d', 'Dd', 'Ddddd', '-D', 'Dddddddd', 'DdddddddddddddddD']
TXT_SHAPES = ['t2', 't0', 't1', 'T3']
WORD_SHAPES = ['w3', 'w1', 'w9']
UUID_SHAPES = ['w4', 'g8', 'v36']
PADL_SHAPES = ['y2', 'y0', 'y1', 'Y3']     # layer names of pads: never contain & or *
LIB_SHAPES = ['L2', 'L1', 'L5', 'Q3']      # parts of library identifiers


def shapes_for(kind):
    k = kind[0]
    return {'N': NUM_SHAPES, 'I': INT_SHAPES, 'T': TXT_SHAPES, 'W': WORD_SHAPES, 'U': UUID_SHAPES,
            'P': ['d', 'DD', 'd.D', 'd.ddD'], 'F': ['d', 'd.D', '0.DddddD', '-d.dD', 'Ddd.dddD'], 'X': ['t2', 't1', 'T3'],
            'J': ['d', 'Dd'], 'L': LIB_SHAPES, 'Y': PADL_SHAPES}[k]


def make_leaf(e, n, kind, shape=None):
    if shape is None:
        shape = shapes_for(kind)[0]
    c = shape[0]
    if c == '=':                                   # constant taken from the code
        return shape[1:] if kind[0] in 'TWUXLY' else (float(shape[1:]) if '.' in shape or 'e' in shape else int(shape[1:]))
    if kind[0] in 'NIPFJ':
        neg = c == '-'
        s = shape[1:] if neg else shape
        ip, _, fp = s.partition('.')
        num = [0]

        def dig(x):
            num[0] += 1
            if x == 'd':
                return e.char('%s#%d' % (n, num[0]), DIGIT)
            if x == 'D':
                return e.char('%s#%d' % (n, num[0]), NZDIGIT)
            return x
        ipd = [dig(x) for x in ip]
        fpd = [dig(x) for x in fp]
        return mknum(SymNum('float' if fp else 'int', neg, ipd, fpd))
    if c in 'tyLw' and int(shape[1:]) > 60:        # long: arbitrary characters at the ends and in the middle only
        k = int(shape[1:])
        dom = {'t': TXT_BASE, 'y': iv_sub(TXT_BASE, iv_chars('&*')), 'L': iv_sub(TXT_BASE, iv_chars(':\n')), 'w': WORD0}[c]
        return mkstr([e.char('%s#%d' % (n, i), dom) if i in (0, 1, k // 2, k - 2, k - 1) else 'abcdefghij'[i % 10] for i in range(k)])
    if c == 't':
        return mkstr([e.char('%s#%d' % (n, i), TXT_BASE) for i in range(int(shape[1:]))])
    if c == 'm':                                   # many quotes, an arbitrary plain character before each
        k = int(shape[1:])
        return mkstr([x for i in range(k) for x in (e.char('%s#%d' % (n, i), TXT_BASE) if k <= 60 or i in (0, k - 1) else 'q', '"')])
    if c == 'T':
        k = int(shape[1:])
        its = [e.char('%s#%d' % (n, i), ANY if i < k - 1 else iv_sub(ANY, iv_chars('\\'))) for i in range(k)]
        return mkstr(its)
    if c == 'B':                                   # ends in a backslash
        return mkstr([e.char('%s#%d' % (n, i), ANY) for i in range(int(shape[1:]) - 1)] + ['\\'])
    if c in 'yY':
        k = int(shape[1:])
        dom = iv_sub(TXT_BASE if c == 'y' else ANY, iv_chars('&*'))
        return mkstr([e.char('%s#%d' % (n, i), dom if i < k - 1 else iv_sub(dom, iv_chars('\\'))) for i in range(k)])
    if c in 'LQ':
        k = int(shape[1:])
        dom = iv_sub(TXT_BASE if c == 'L' else ANY, iv_chars(':\n'))
        its = [e.char('%s#%d' % (n, i), dom if i < k - 1 else iv_sub(dom, iv_chars('\\'))) for i in range(k)]
        return mkstr(its)
    if c == 'w':
        k = int(shape[1:])
        return mkstr([e.char('%s#%d' % (n, i), WORD0 if i == 0 else WORD1) for i in range(k)])
    if c == 'h':
        k = int(shape[1:])
        its = [e.char('%s#%d' % (n, i), HEX) for i in range(k)]
        # at least one letter: an all-digit raw token is a number in the format
        e.assume(z3.Or(*[x.v >= 97 for x in its]))
        return mkstr(its)
    if c in 'uv':
        its = []
        for i in range(36):
            its.append('-' if i in (8, 13, 18, 23) else e.char('%s#%d' % (n, i), HEXL if c == 'v' and i == 0 else HEX))
        return mkstr(its)
    if c == 'g':
        return mkstr([e.char('%s#%d' % (n, i), HEXL if i == 0 else HEX) for i in range(int(shape[1:]))])
    raise ValueError(shape)


def shape_of_const(kind, const):
    """a leaf shape whose value set contains the constant, or None"""
    if kind[0] in 'NIPFJ':
        if isinstance(const, bool) or not isinstance(const, (int, float)):
            return None
        if isinstance(const, float) and (const != const or abs(const) == float('inf')):
            return None
        s = repr(const)
        if 'e' in s or len(s) > 14:
            return '=' + s
        neg = s.startswith('-')
        s = s.lstrip('-')
        ip, _, fp = s.partition('.')
        if fp == '0':
            fp = ''
        if kind[0] in 'IJ' and fp:
            return None
        o = ip if ip == '0' else 'D' + 'd' * (len(ip) - 1)
        if ip == '0' and not fp:
            o = 'd'
        if fp:
            o += '.' + 'd' * (len(fp) - 1) + 'D'
        if kind[0] == 'P' and neg:
            return None
        return ('-' if neg else '') + o
    if not isinstance(const, str):
        return None
    if kind[0] in 'TX':
        if any(ord(ch) in (34, 92) for ch in const):
            return '=' + const if not const.endswith('\\') else None
        return 't%d' % len(const)
    if kind[0] == 'Y':
        return None if set(const) & set('&*"\\') else 'y%d' % len(const)
    if kind[0] == 'L':
        if not const or set(const) & set(':\n"\\'):
            return None
        return 'L%d' % len(const)
    if kind[0] in 'WU':
        if not const:
            return None
        ok = ord(const[0]) < 128 and const[0].isalpha() and all(33 <= ord(x) <= 126 and x not in '()"^\\' for x in const)
        return 'w%d' % len(const) if ok else None
    return None


REQ = object()


class C:
    """accumulates the token tree and the attribute values of one object"""

    def __init__(self, b, cname, token):
        self.b, self.cname = b, cname
        self.t = [token] if token is not None else []
        self.f = {}
        self.req = 0

    def done(self):
        return Obj(self.cname, self.f, self.req), self.t

    # positional -------------------------------------------------------------
    def arg(self, field, kind, ban=(), opt=False):
        v = self.b.leaf(field, kind, ban)
        self.f[field] = v
        self.t.append(v)
        if not opt and len(self.t) - 1 == max(self.req, 1):
            self.req = len(self.t)
        return v

    def const(self, **kw):
        self.f.update(kw)

    def lit(self, x):
        self.t.append(x)

    def flag(self, field, word):
        v = self.b.opt(field)
        self.f[field] = v
        if v:
            self.t.append(word)
        return v

    # named ------------------------------------------------------------------
    def add(self, tree, om=None, group=None, req=0):
        self.t.append(Ch(tree, om, group, req))

    def tok(self, field, token, kind, opt=False, d=None, ban=()):
        if opt and not self.b.opt(field):
            self.f[field] = d
            return None
        v = self.b.leaf(field, kind, ban)
        self.f[field] = v
        self.add([token, v], {field: d}, req=2)
        return v

    def tokflag(self, field, token, *rest):
        v = self.b.opt(field)
        self.f[field] = v
        if v:
            self.add([token, *rest], {field: False})
        return v

    def yesno(self, field, token, t='yes', f='no', opt=False, d=False):
        if opt and not self.b.opt(field + '?'):
            self.f[field] = d
            return
        v = self.b.opt(field)
        self.f[field] = v
        self.add([token, t if v else f], {field: d}, req=2)

    def choice(self, field, token, options, opt=False, d=None):
        """(token word) with the word among options"""
        if opt and not self.b.opt(field):
            self.f[field] = d
            return
        v = self.b.pick(field + '=', options)
        self.f[field] = v
        self.add([token, v], {field: d}, req=2)

    def argchoice(self, field, options):
        v = self.b.pick(field + '=', options)
        self.f[field] = v
        if v is not None:
            self.t.append(v)
        return v

    def posval(self, field, head, angle=False, unlocked=False):
        """Position object + its token; angle: False | True | 'req'"""
        b = self.b
        x, y = b.leaf(field + '.X', 'N'), b.leaf(field + '.Y', 'N')
        t = [head, x, y]
        f = dict(X=x, Y=y, angle=None, unlocked=False)
        if angle == 'req' or (angle and b.opt(field + '.angle')):
            f['angle'] = b.leaf(field + '.angle', 'N')
            t.append(f['angle'])
        if unlocked and b.opt(field + '.unlocked'):
            f['unlocked'] = True
            t.append('unlocked')
        return Obj('Position', f), t

    def pos(self, field, token, angle=False, unlocked=False, opt=False, d=REQ):
        if opt and not self.b.opt(field):
            self.f[field] = None if d is REQ else d
            return
        o, t = self.posval(field, token, angle, unlocked)
        self.f[field] = o
        self.add(t, {field: (None if opt else P0()) if d is REQ else d}, req=3)

    def sub(self, field, cname, opt=False, d=None):
        if opt and not self.b.opt(field):
            self.f[field] = d
            return
        o, t = self.b.make(cname, field)
        self.f[field] = o
        self.add(t, {field: d})

    def subs(self, field, cname, lens_min=(0, 1, 2), lens_max=(2, 0, 1, 3)):
        n = self.b.count(field + '#', lens_min, lens_max)
        out = []
        for i in range(n):
            o, t = self.b.make(cname, '%s[%d]' % (field, i), base=None if i == 0 else 'min')
            out.append(o)
            self.add(t, None, field)
        self.f[field] = out
        return n

    def polys(self, field, cnames):
        """heterogeneous list of items, order kept; adds the trees"""
        n = len(cnames)
        alls = tuple(range(n))
        opts = [()] + [(i,) for i in alls] + [(i, i) for i in alls] + ([alls[::-1]] if n > 1 else []) + \
            [(i, (i + 1) % n, i) for i in alls if n > 1] + [alls]
        if self.b.depth == 0 and '#' in self.b.fixed:
            sel = (alls * (self.b.fixed['#'] // n + 1))[:self.b.fixed['#']]
        else:
            sel = self.b.pick(field + '*', opts, len(opts) - 1)
        out, seen = [], set()
        for j, i in enumerate(sel):
            o, t = self.b.make(cnames[i], '%s[%d:%s]' % (field, j, cnames[i]), base='min')
            out.append(o)
            self.add(t, None, field)
        self.f[field] = out

    def inside(self, field, token, cname, write_empty):
        """(token item item ...)"""
        n = self.b.count(field + '#')
        out, ts = [], []
        for i in range(n):
            o, t = self.b.make(cname, '%s[%d]' % (field, i), base=None if i == 0 else 'min')
            out.append(o)
            ts.append(t)
        self.f[field] = out
        if n or write_empty:
            self.add([token] + ts, {field: []})

    def dict(self, field, tree, kk='T', vk='T'):
        n = self.b.count(field + '#')
        d = {}
        for i in range(n):
            k, v = self.b.leaf('%s[%d].key' % (field, i), kk), self.b.leaf('%s[%d]' % (field, i), vk)
            for k2 in d:
                self.b.e.assume_ne(k, k2)
            d[k] = v
            self.add(tree(k, v), None)
        self.f[field] = d

    def list(self, field, token, kind, lens_min=(0, 1, 2), lens_max=(2, 0, 1, 3), write_empty=True, ban=()):
        n = self.b.count(field + '#', lens_min, lens_max)
        vs = [self.b.leaf('%s[%d]' % (field, i), kind, ban) for i in range(n)]
        self.f[field] = vs
        if vs or write_empty:
            self.add([token] + vs, {field: []})

    def pts(self, field, token='pts', head='xy', lens_min=(1, 2), lens_max=(2, 1, 3), wrap=True):
        n = self.b.count(field + '#', lens_min, lens_max) if self.b.depth == 0 else 2
        objs, ts = [], []
        for i in range(n):
            o, t = self.posval('%s[%d]' % (field, i), head)
            objs.append(o)
            ts.append(t)
        self.f[field] = objs
        if wrap:
            self.add([token] + ts, {field: []})
        else:
            return ts


def P0(**kw):
    return Obj('Position', dict(dict(X=0, Y=0, angle=None, unlocked=False), **kw))
