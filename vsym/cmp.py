"""Verification conditions: structural equality as a z3 formula."""
import itertools
import z3
from .core import SymBool, SymNum, SymStr, is_str, str_eq_e, items_of, _as_frac, same_digits
from .build import Ch, Obj, WR


class Mismatch(Exception):
    pass


def show(x):
    if isinstance(x, Obj):
        return '%s(...)' % x.cls
    return repr(x)[:120]


def cmp_val(exp, got, out, loc='value'):
    """append z3 equalities to out; raise Mismatch if definitely different"""
    if isinstance(exp, Obj):
        if type(got).__name__ != exp.cls.partition('@')[0]:
            raise Mismatch('%s: expected a %s, got %s' % (loc, exp.cls, show(got)))
        for k, v in exp.f.items():
            try:
                g = getattr(got, k)
            except AttributeError:
                raise Mismatch('%s.%s: attribute missing' % (loc, k))
            cmp_val(v, g, out, loc + '.' + k)
        return
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)):
            raise Mismatch('%s: expected a list, got %s' % (loc, show(got)))
        if len(exp) != len(got):
            raise Mismatch('%s: expected %d entries, got %d: %s' % (loc, len(exp), len(got), show(got)))
        for i, (a, b) in enumerate(zip(exp, got)):
            cmp_val(a, b, out, '%s[%d]' % (loc, i))
        return
    if isinstance(exp, dict):
        if not isinstance(got, dict) or len(exp) != len(got):
            raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
        alts = []
        gi, ei = [], []
        left = list(got.items())
        for a, b in exp.items():
            hit = [i for i, (c, d) in enumerate(left) if type(a) is str and type(c) is str and a == c]
            if hit:
                c, d = left.pop(hit[0])
                cmp_val(b, d, out, loc + '[..]')
            else:
                ei.append((a, b))
        gi = left
        if not ei:
            return
        last = None
        for perm in (itertools.permutations(gi) if len(gi) <= 5 else [gi]):
            o = []
            try:
                for (a, b), (c, d) in zip(ei, perm):
                    cmp_val(a, c, o, loc + '.key')
                    cmp_val(b, d, o, loc + '[..]')
            except Mismatch as m:
                last = m
                continue
            alts.append(z3.And(*o) if o else z3.BoolVal(True))
        if not alts:
            raise last
        out.append(z3.Or(*alts))
        return
    if exp is None or got is None:
        if exp is not got:
            raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
        return
    if isinstance(exp, (bool, SymBool)) or isinstance(got, (bool, SymBool)):
        if not (isinstance(exp, (bool, SymBool)) and isinstance(got, (bool, SymBool))):
            raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
        a = exp.e if isinstance(exp, SymBool) else z3.BoolVal(exp)
        b = got.e if isinstance(got, SymBool) else z3.BoolVal(got)
        out.append(a == b)
        return
    if is_str(exp) or is_str(got):
        if not (is_str(exp) and is_str(got)):
            raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
        a, b = items_of(exp), items_of(got)
        if len(a) != len(b):
            raise Mismatch('%s: expected text of length %d %s, got length %d %s' % (loc, len(a), show(exp), len(b), show(got)))
        for x, y in zip(a, b):
            if type(x) is str and type(y) is str:
                if x != y:
                    raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
            else:
                vx = ord(x) if type(x) is str else x.v
                vy = ord(y) if type(y) is str else y.v
                out.append(vx == vy)
        return
    if isinstance(exp, (int, float, SymNum)) and isinstance(got, (int, float, SymNum)):
        if isinstance(exp, SymNum) or isinstance(got, SymNum):
            s, o = (exp, got) if isinstance(exp, SymNum) else (got, exp)
            if isinstance(o, SymNum):
                if s.neg == o.neg and len(s.ip) == len(o.ip) and len(s.fp) == len(o.fp):
                    for x, y in zip(s.ip + s.fp, o.ip + o.fp):
                        vx = int(x) + 48 if type(x) is str else x.v
                        vy = int(y) + 48 if type(y) is str else y.v
                        e = vx == vy
                        if e is False:
                            raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
                        if e is not True:
                            out.append(e)
                    return
                q = max(len(s.fp), len(o.fp))
                out.append(s.scaled(q) == o.scaled(q))
                return
            f = _as_frac(o)
            if f is None:
                raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
            q = len(s.fp)
            while (f * 10 ** q).denominator != 1 and q < 40:
                q += 1
            out.append(s.scaled(q) == int(f * 10 ** q))
            return
        if exp != got:
            raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))
        return
    if type(exp) != type(got) or exp != got:
        raise Mismatch('%s: expected %s, got %s' % (loc, show(exp), show(got)))


def view(t, side):
    """concrete list tree for writing ('w') or reading ('r')"""
    if isinstance(t, Ch):
        t = t.tree
    if isinstance(t, WR):
        t = t.w if side == 'w' else t.r
    if isinstance(t, list):
        return [view(x, side) for x in t]
    if isinstance(t, Obj):
        return Obj(t.cls, {k: view(v, side) for k, v in t.f.items()})
    if isinstance(t, dict):
        return {k: view(v, side) for k, v in t.items()}
    return t


# -- concretisation ----------------------------------------------------------
def conc(x, m):
    """JSON-able concrete value under model m"""
    if isinstance(x, Obj):
        return {'$cls': x.cls, 'f': {k: conc(v, m) for k, v in x.f.items()}}
    if isinstance(x, (list, tuple)):
        return [conc(v, m) for v in x]
    if isinstance(x, dict):
        return {'$dict': [[conc(k, m), conc(v, m)] for k, v in x.items()]}
    if isinstance(x, SymStr):
        return ''.join(c if type(c) is str else chr(m.eval(c.v, model_completion=True).as_long()) for c in x.it)
    if isinstance(x, SymNum):
        def d(c):
            return c if type(c) is str else chr(m.eval(c.v, model_completion=True).as_long())
        s = ('-' if x.neg else '') + ''.join(d(c) for c in x.ip)
        if x.kind == 'int':
            return int(s)
        return float(s + '.' + ''.join(d(c) for c in (x.fp or ['0'])))
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, Ch):
        return conc(x.tree, m)
    return x
