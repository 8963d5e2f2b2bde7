"""Symbolic regular expression matching.

Interprets the parse tree that CPython's own re parser produces for the
pattern in the source, with the backtracking order of CPython's matcher, over
strings whose characters may be symbolic (each class test forks via z3).
"""
import re as _re
import re._parser as _p
import re._constants as _c
from . import core
from .core import (SymStr, Unsupported, category, ch_eq, ch_in, items_of, iv_and,
                   iv_chars, iv_norm, iv_not, iv_or, mkstr, MAXCP)

CATS = {
    _c.CATEGORY_SPACE: ('space', False), _c.CATEGORY_NOT_SPACE: ('space', True),
    _c.CATEGORY_DIGIT: ('digit', False), _c.CATEGORY_NOT_DIGIT: ('digit', True),
    _c.CATEGORY_WORD: ('word', False), _c.CATEGORY_NOT_WORD: ('word', True),
}
ASCII_ONLY = {'space': iv_chars(' \t\n\r\f\v'), 'digit': ((48, 57),),
              'word': ((48, 57), (65, 90), (95, 95), (97, 122))}


def _catset(cat, flags):
    name, neg = CATS[cat]
    s = ASCII_ONLY[name] if flags & _re.ASCII else category(name)
    return iv_not(s) if neg else s


def _inset(av, flags):
    out = ()
    neg = False
    for op, a in av:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            out = out + ((a, a),)
        elif op is _c.RANGE:
            out = out + (tuple(a),)
        elif op is _c.CATEGORY:
            out = out + tuple(_catset(a, flags))
        else:
            raise Unsupported('regex class %s' % op)
    s = iv_norm(out)
    if flags & _re.IGNORECASE:
        ext = []
        for lo, hi in s:
            if hi - lo > 2000:
                continue
            for c in range(lo, hi + 1):
                for x in (chr(c).lower(), chr(c).upper()):
                    if len(x) == 1:
                        ext.append((ord(x), ord(x)))
        s = iv_norm(tuple(s) + tuple(ext))
    return iv_not(s) if neg else s


def single_set(op, av, flags):
    """interval set if this node consumes exactly one char of a set"""
    if op is _c.LITERAL:
        return _inset([(op, av)], flags)
    if op is _c.NOT_LITERAL:
        return iv_not(_inset([(_c.LITERAL, av)], flags))
    if op is _c.ANY:
        return ((0, MAXCP),) if flags & _re.DOTALL else iv_not(((10, 10),))
    if op is _c.IN:
        return _inset(av, flags)
    return None


def compile_seq(nodes, flags):
    """-> f(it, i, g, k): k(i, g) continuation; returns result or None"""
    fs = [compile_node(op, av, flags) for op, av in nodes]

    def seq(it, i, g, k, fs=fs):
        def step(n, i, g):
            if n == len(fs):
                return k(i, g)
            return fs[n](it, i, g, lambda i2, g2: step(n + 1, i2, g2))
        return step(0, i, g)
    if len(fs) == 1:
        return fs[0]
    return seq


def compile_node(op, av, flags):
    s = single_set(op, av, flags)
    if s is not None:
        def one(it, i, g, k, s=s):
            if i < len(it) and ch_in(it[i], s):
                return k(i + 1, g)
            return None
        return one
    if op is _c.BRANCH:
        alts = [compile_seq(a, flags) for a in av[1]]

        def branch(it, i, g, k):
            for a in alts:
                r = a(it, i, g, k)
                if r is not None:
                    return r
            return None
        return branch
    if op is _c.SUBPATTERN:
        group, add, sub, p = av
        f = compile_seq(p, (flags | add) & ~sub)
        if group is None:
            return f

        def cap(it, i, g, k):
            return f(it, i, g, lambda j, g2: k(j, {**g2, group: (i, j)}))
        return cap
    if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
        lo, hi, p = av
        hi = 10 ** 9 if hi is _c.MAXREPEAT else int(hi)
        body = compile_seq(p, flags)
        try:
            w = p.getwidth()
        except Exception:
            w = (0, 2)
        simple = w == (1, 1) and not _has_group(p)
        sset = single_set(p[0][0], p[0][1], flags) if len(p) == 1 else None
        if simple:
            def rep(it, i, g, k):
                def ok(pos):
                    if sset is not None:
                        return pos < len(it) and bool(ch_in(it[pos], sset))
                    return body(it, pos, g, lambda j, g2: True) is not None
                if op is _c.MIN_REPEAT:
                    n = 0
                    while n < lo:
                        if not ok(i + n):
                            return None
                        n += 1
                    while True:
                        r = k(i + n, g)
                        if r is not None:
                            return r
                        if n >= hi or not ok(i + n):
                            return None
                        n += 1
                n = 0
                while n < hi and ok(i + n):
                    n += 1
                if op is _c.POSSESSIVE_REPEAT:
                    return k(i + n, g) if n >= lo else None
                while n >= lo:
                    r = k(i + n, g)
                    if r is not None:
                        return r
                    n -= 1
                return None
            return rep
        if op is _c.POSSESSIVE_REPEAT:
            raise Unsupported('possessive repeat')

        def reprec(it, i, g, k):
            def go(n, i, g, last):
                if op is _c.MAX_REPEAT:
                    if n < hi and not (n >= lo and i == last):
                        r = body(it, i, g, lambda j, g2: go(n + 1, j, g2, i))
                        if r is not None:
                            return r
                    return k(i, g) if n >= lo else None
                if n >= lo:
                    r = k(i, g)
                    if r is not None:
                        return r
                if n < hi and not (n >= lo and i == last):
                    return body(it, i, g, lambda j, g2: go(n + 1, j, g2, i))
                return None
            return go(0, i, g, -1)
        return reprec
    if op in (_c.ASSERT, _c.ASSERT_NOT):
        direction, p = av
        f = compile_seq(p, flags)
        neg = op is _c.ASSERT_NOT
        if direction > 0:
            def look(it, i, g, k):
                r = f(it, i, g, lambda j, g2: g2)
                if neg:
                    return k(i, g) if r is None else None
                return k(i, r) if r is not None else None
            return look
        w = p.getwidth()
        if w[0] != w[1]:
            raise Unsupported('variable lookbehind')
        n = w[0]

        def back(it, i, g, k):
            r = None
            if i - n >= 0:
                r = f(it, i - n, g, lambda j, g2: g2 if j == i else None)
            if neg:
                return k(i, g) if r is None else None
            return k(i, r) if r is not None else None
        return back
    if op is _c.AT:
        def at(it, i, g, k):
            if av in (_c.AT_BEGINNING_STRING,) or (av is _c.AT_BEGINNING and not flags & _re.MULTILINE):
                ok = i == 0
            elif av is _c.AT_BEGINNING:
                ok = i == 0 or bool(ch_eq(it[i - 1], '\n'))
            elif av is _c.AT_END_STRING:
                ok = i == len(it)
            elif av is _c.AT_END:
                ok = i == len(it)
                if not ok:
                    if flags & _re.MULTILINE:
                        ok = bool(ch_eq(it[i], '\n'))
                    else:
                        ok = i == len(it) - 1 and bool(ch_eq(it[i], '\n'))
            elif av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
                ws = _catset(_c.CATEGORY_WORD, flags)
                a = i > 0 and bool(ch_in(it[i - 1], ws))
                b = i < len(it) and bool(ch_in(it[i], ws))
                ok = (a != b) == (av is _c.AT_BOUNDARY)
            else:
                raise Unsupported('regex anchor %s' % av)
            return k(i, g) if ok else None
        return at
    if op is _c.GROUPREF:
        def ref(it, i, g, k):
            if av not in g:
                return None
            a, b = g[av]
            n = b - a
            if i + n > len(it):
                return None
            for x in range(n):
                if not ch_eq(it[a + x], it[i + x]):
                    return None
            return k(i + n, g)
        return ref
    if op is _c.GROUPREF_EXISTS:
        cond, yes, no = av
        fy = compile_seq(yes, flags)
        fn = compile_seq(no, flags) if no else (lambda it, i, g, k: k(i, g))
        return lambda it, i, g, k: (fy if cond in g else fn)(it, i, g, k)
    if op is _c.ATOMIC_GROUP:
        f = compile_seq(av, flags)

        def atomic(it, i, g, k):
            r = f(it, i, g, lambda j, g2: (j, g2))
            return k(*r) if r is not None else None
        return atomic
    raise Unsupported('regex op %s' % op)


def _has_group(p):
    for op, av in p:
        if op is _c.SUBPATTERN and av[0] is not None:
            return True
        if op is _c.SUBPATTERN and _has_group(av[3]):
            return True
        if op is _c.BRANCH and any(_has_group(a) for a in av[1]):
            return True
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT) and _has_group(av[2]):
            return True
        if op in (_c.ASSERT, _c.ASSERT_NOT) and _has_group(av[1]):
            return True
        if op in (_c.GROUPREF,):
            return True
    return False


class SymMatch:
    def __init__(self, pat, s, start, end, g):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, g
        self.pos, self.endpos = 0, len(s)

    def _idx(self, n):
        if is_sym(n):
            raise Unsupported('symbolic group name')
        if isinstance(n, str):
            if n not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[n]
        if n > self.re.groups:
            raise IndexError('no such group')
        return n

    def span(self, n=0):
        n = self._idx(n)
        if n == 0:
            return (self._s, self._e)
        return self._g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _one(self, n, default=None):
        a, b = self.span(n)
        return default if a < 0 else self.string[a:b]

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        best = None
        for n, (a, b) in self._g.items():
            if best is None or (b, -n) >= (self._g[best][1], -best):
                best = n
        return best

    @property
    def lastgroup(self):
        li = self.lastindex
        for n, i in self.re.groupindex.items():
            if i == li:
                return n
        return None

    def __bool__(self):
        return True

    def expand(self, tpl):
        return _expand(self, tpl)


def is_sym(x):
    return type(x) is SymStr


_cache = {}


class SymPattern:
    """Stand-in for re.Pattern; concrete strings go to the real one."""

    def __init__(self, pattern, flags=0):
        if is_sym(pattern):
            raise Unsupported('symbolic regex')
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._m = None
        self._w = None

    @property
    def m(self):
        if self._m is None:
            key = (self.pattern, int(self.flags))
            if key not in _cache:
                tree = _p.parse(self.pattern, int(self.flags))
                _cache[key] = compile_seq(list(tree), int(self.flags))
            self._m = _cache[key]
        return self._m

    def _at(self, s, i, full=False):
        it = items_of(s)
        n = len(it)
        if i == 0 and n <= 64 and type(s) is core.SymStr:
            if self._w is None:
                self._w = _p.parse(self.pattern, int(self.flags)).getwidth()[0]
            core.note_width(s, self._w)

        def done(j, g):
            if full and j != n:
                return None
            return (j, g)
        r = self.m(it, i, {}, done)
        return None if r is None else SymMatch(self, s, i, r[0], r[1])

    def match(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.match(s, pos) if endpos is None else self.real.match(s, pos, endpos)
        return self._at(s if endpos is None else s[:endpos], pos)

    def fullmatch(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.fullmatch(s, pos) if endpos is None else self.real.fullmatch(s, pos, endpos)
        return self._at(s if endpos is None else s[:endpos], pos, True)

    def search(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.search(s, pos) if endpos is None else self.real.search(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        for i in range(pos, len(s) + 1):
            m = self._at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if not is_sym(s):
            yield from (self.real.finditer(s, pos) if endpos is None else self.real.finditer(s, pos, endpos))
            return
        if endpos is not None:
            s = s[:endpos]
        i = pos
        n = len(s)
        last_empty = -1
        while i <= n:
            m = self._at(s, i)
            if m is None:
                i += 1
                continue
            if m._e == m._s:
                yield m
                i += 1          # empty match: move on (sre retries non-empty; not modelled)
                continue
            yield m
            i = m._e

    def findall(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.findall(s, pos) if endpos is None else self.real.findall(s, pos, endpos)
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, ''))
            else:
                out.append(m.groups(''))
        return out

    def split(self, s, maxsplit=0):
        if not is_sym(s):
            return self.real.split(s, maxsplit)
        out = []
        i = 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[i:m._s])
            out.extend(m.groups())
            i = m._e
        out.append(s[i:])
        return out

    def subn(self, repl, s, count=0):
        if not is_sym(s) and not is_sym(repl) and not callable(repl):
            return self.real.subn(repl, s, count)
        if not is_sym(s):
            s = SymStr(list(s))
        out = []
        i = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(items_of(s[i:m._s]))
            r = repl(m) if callable(repl) else _expand(m, repl)
            out.extend(items_of(r))
            i = m._e
            n += 1
        out.extend(items_of(s[i:]))
        return mkstr(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


def _expand(m, tpl):
    if is_sym(tpl):
        raise Unsupported('symbolic template')
    if '\\' not in tpl:
        return tpl
    parsed = _p.parse_template(tpl, m.re.real)
    out = []
    for x in parsed:
        if isinstance(x, int):
            out.extend(items_of(m._one(x, '') or ''))
        else:
            out.extend(items_of(x))
    return mkstr(out)


class ReShim:
    """Replacement for the re module inside the code under test."""
    Pattern = SymPattern
    Match = SymMatch

    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        if isinstance(p, SymPattern):
            return p
        return SymPattern(p, flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def escape(self, s):
        if is_sym(s):
            raise Unsupported('re.escape')
        return _re.escape(s)
