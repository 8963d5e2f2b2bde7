"""The symbolic checks besides harness.wr (registered with the harness)."""
import inspect
import z3

from vsym import harness as H
from vsym.build import Builder, Ch, Obj, SPECS, make_leaf
from vsym.cmp import Mismatch, cmp_val, conc, view
from vsym.core import (ANY, DIGIT, LETTER, PathAbort, SymNum, SymStr, Unsupported, is_str, items_of, iv_and, iv_chars,
                       iv_sub, MAXCP, mkstr, str_eq_e)
from vsym.harness import (build_pair, check, copy_tree, guarded, make, parse, read_vc, symclass, witness)


def qual(o, job):
    return o.cls if '@' in o.cls else job['cls']


def claim_equal(ctx, exp, got, scn, what, loc):
    parts = []
    try:
        cmp_val(exp, got, parts, loc)
    except Mismatch as mm:
        ctx.e.stats.vcs += 1
        ctx.candidate(scn, '%s: %s' % (what, mm))
        return False
    return ctx.vc(parts, scn, what)


def claim(ctx, cond, scn, what):
    """cond: python bool (already decided on this path)"""
    ctx.reached += 1
    ctx.e.stats.vcs += 1
    if not cond:
        ctx.candidate(scn, what)
        return False
    return True


# ---------------------------------------------------------------------------
@check
def omit(ctx, e, job, leaves):
    """a token left out of the file leaves the documented default in place"""
    o, t = build_pair(e, job, leaves)
    idx = [i for i, x in enumerate(t) if isinstance(x, Ch) and x.om is not None]
    if not idx or len(t) < 3:      # a token with neither value nor child is not part of the format
        raise PathAbort()
    i = idx[e.choose(len(idx))]
    f = dict(o.f)
    f.update(t[i].om)
    tr = view(t[:i] + t[i + 1:], 'r')
    orr = view(Obj(o.cls, f), 'r')
    sr = read_vc(ctx, job['cls'], tr, orr)
    witness(ctx, e, sr)


@check
def rt(ctx, e, job, leaves):
    """saving and loading gives back every value"""
    o, t = build_pair(e, job, leaves)
    ow, orr = view(o, 'w'), view(o, 'r')
    c = qual(o, job)
    sc = lambda m: dict(kind='rt', cls=c, obj=conc(ow, m), back=conc(orr, m))
    obj = make(ow)
    ok, got = guarded(ctx, sc, 'saving and loading', lambda: symclass(c).from_sexpr(parse(obj.to_sexpr(), job['cls'])))
    if ok:
        claim_equal(ctx, orr, got, sc, 'object after saving and loading', job['cls'])
    witness(ctx, e, sc)


# tokens without which the file is not one of that kind
REQUIRED = dict(Zone={'layers'}, Board={'version', 'generator'}, Group={'id'}, Dimension={'pts'},
                **{c: {'coordinates'} for c in ('GrPoly', 'GrCurve', 'FpPoly', 'FpCurve', 'FilledPolygon', 'FillSegments')},
                **{c: {'start', 'end', 'angle', 'pts'} for c in ('GrTextBox', 'FpTextBox')})


@check
def stable(ctx, e, job, leaves):
    """load -> save -> load -> save reproduces what was saved first"""
    o, t = build_pair(e, job, leaves)
    if job.get('omit'):
        idx = [i for i, x in enumerate(t) if isinstance(x, Ch) and x.om is not None]
        idx = [i for i in idx if not REQUIRED.get(job['cls'], set()) & set(t[i].om)]
        if not idx or len(t) < 3:
            raise PathAbort()
        i = idx[e.choose(len(idx))]
        t = t[:i] + t[i + 1:]
    tr = view(t, 'r')
    c = qual(o, job)
    sc = lambda m: dict(kind='stable', cls=c, tree=conc(tr, m))
    cl = symclass(c)

    def run():
        s1 = cl.from_sexpr(copy_tree(tr)).to_sexpr()
        s2 = cl.from_sexpr(parse(s1, job['cls'])).to_sexpr()
        return s1, s2
    ok, r = guarded(ctx, sc, 'load, save, load, save', run)
    if ok:
        claim_equal(ctx, parse(r[0], job['cls']), parse(r[1], job['cls']), sc, 'tokens saved a second time', 'token')
    witness(ctx, e, sc)


@check
def permute(ctx, e, job, leaves):
    """the order of named child tokens in a file does not matter"""
    o, t = build_pair(e, job, leaves)
    if job.get('words'):                         # switch words: anywhere after what the token starts with
        lo = max(o.req, job['words'])
        ws = [i for i, x in enumerate(t) if type(x) is str and i >= lo]
        if not ws:
            raise PathAbort()
        i = ws[e.choose(len(ws))]
        t2 = t[:i] + t[i + 1:]
        to = lo + e.choose(len(t) - lo)
        if to == i:
            raise PathAbort()
        t2.insert(to, t[i])
        sr = read_vc(ctx, job['cls'], view(t2, 'r'), view(o, 'r'))
        witness(ctx, e, sr)
        return
    pos = [i for i, x in enumerate(t) if isinstance(x, Ch)]
    kids = [t[i] for i in pos]
    n = len(kids)
    if n < 2:
        raise PathAbort()

    def head(x):
        x = view(x, 'r')
        return x[0] if isinstance(x, list) and x and isinstance(x[0], str) else None
    gk = [k.group or head(k) for k in kids]
    # move child i to the front or to the end, or reverse; children with the same token keep their order
    how = e.choose(2 * n + 1)
    if how < n:
        order = [how] + [j for j in range(n) if j != how]
    elif how < 2 * n:
        order = [j for j in range(n) if j != how - n] + [how - n]
    else:
        order = list(range(n - 1, -1, -1))
    slots = {}
    for j in range(n):
        slots.setdefault(gk[j], []).append(j)
    nxt = {k: iter(v) for k, v in slots.items()}
    perm = [next(nxt[gk[j]]) for j in order]
    if perm == list(range(n)):
        raise PathAbort()
    t2 = list(t)
    for p, j in zip(pos, perm):
        t2[p] = kids[j]
    sr = read_vc(ctx, job['cls'], view(t2, 'r'), view(o, 'r'))
    witness(ctx, e, sr)


@check
def vanish(ctx, e, job, leaves):
    """an item without any point is not written at all"""
    o, t = build_pair(e, job, leaves)
    o = view(o, 'w')
    o.f[job['field']] = []
    sc = lambda m: dict(kind='vanish', obj=conc(o, m))
    obj = make(o)
    ok, text = guarded(ctx, sc, 'writing', obj.to_sexpr)
    if not ok:
        return
    its = items_of(text)
    claim(ctx, all(type(x) is str and x in ' \n' for x in its), sc, 'an item without points is written')
    witness(ctx, e, sc)


@check
def unknown(ctx, e, job, leaves):
    """a child token kiutils does not know is skipped"""
    o, t = build_pair(e, job, leaves)
    pos = [i for i, x in enumerate(t) if isinstance(x, Ch)]
    if not pos:
        raise PathAbort()
    pos.append(pos[-1] + 1)
    if job.get('names') is not None:
        # a name like a documented one - as long, or a little longer or shorter - with that token's content
        names = job['names']
        kids = {}
        for j in pos[:-1]:
            x = view(t[j], 'r')
            if isinstance(x, list) and x and type(x[0]) is str:
                kids.setdefault(x[0], x)
        kids = list(kids.values())
        x = kids[e.choose(len(kids))]
        n = len(x[0]) + job['delta']
        if n < 1:
            raise PathAbort()
        name = make_leaf(e, 'unk', 'W', 'w%d' % n)
        for a in names:
            e.assume_ne(name, a)
        extra = [name] + copy_tree(x[1:])
        i = [pos[0], pos[-1]][e.choose(2)]
    else:
        i = pos[e.choose(len(pos))] if not job.get('many') else pos[0]
        name = 'zz_' + make_leaf(e, 'unk', 'W', 'w2')
        extra = [[name, make_leaf(e, 'unkn', 'N', 'd'), ['zy', make_leaf(e, 'unkt', 'T', 't1')]],
                 [name], [name, make_leaf(e, 'unkt', 'T', 't2')]][e.choose(job.get('variants', 3))]
    t2 = t[:i] + [extra] + t[i:]
    if job.get('many') == 'each':                # one at every gap
        t2 = []
        for j, x in enumerate(t + [None]):
            if j in pos:
                t2.append(copy_tree(extra))
            if j < len(t):
                t2.append(x)
    elif job.get('many'):                        # several in a row
        t2 = t[:i] + [copy_tree(extra) for _ in range(job['many'])] + t[i:]
    sr = read_vc(ctx, job['cls'], view(t2, 'r'), view(o, 'r'))
    witness(ctx, e, sr)


HEADS = {'Footprint': ['footprint', 'module']}


@check
def reject(ctx, e, job, leaves):
    """something that is not the expected kind of token is refused"""
    o, t = build_pair(e, job, leaves)
    tr = view(t, 'r')
    c = qual(o, job)
    allowed = job['heads']
    how = job['how']
    if how.startswith('w'):
        h = make_leaf(e, 'head', 'W', how)
        for a in allowed:
            e.assume_ne(h, a)
        tr = [h] + tr[1:]
    elif how == 'text':
        tr = make_leaf(e, 'txt', 'T', 't3')
    elif how == 'head':                      # the bare token word instead of a list
        tr = allowed[0]
    elif how == 'none':
        tr = None
    elif how == 'num':
        tr = make_leaf(e, 'num', 'N', 'Dd')
    sc = lambda m: dict(kind='reject', cls=c, tree=conc(tr, m))
    try:
        symclass(c).from_sexpr(copy_tree(tr))
    except Unsupported as u:
        ctx.inconclusive.append('unsupported: %s' % u)
        ctx.sample(sc)
        return
    except Exception:
        claim(ctx, True, sc, '')
        witness(ctx, e, sc)
        return
    claim(ctx, False, sc, 'accepted without an exception')


# --- C21 ---------------------------------------------------------------------
def refused(ctx, e, sc, fn):
    try:
        fn()
    except Unsupported as u:
        ctx.inconclusive.append('unsupported: %s' % u)
        ctx.sample(sc)
        return
    except Exception:
        claim(ctx, True, sc, '')
        witness(ctx, e, sc)
        return
    claim(ctx, False, sc, 'accepted without an exception')


# how many leading entries a token with this name (in this parent or class) cannot do without
LEADING = {('xy',): 3, ('xyz',): 4, ('start',): 3, ('mid',): 3, ('end',): 3, ('center',): 3, ('at',): 3, ('pos',): 3, ('textsize',): 3,
         ('size',): 3, ('via', 'size'): 2, ('target', 'size'): 2, ('pad', 'property'): 2, ('zone', 'layer'): 0, ('Zone', 'layer'): 0,
         ('color',): 5, ('layer', 'color'): 2, ('title_block', 'comment'): 3, ('TitleBlock', 'comment'): 3, ('property',): 3, ('hatch',): 3, ('connect_pads', 'clearance'): 2,
         ('drill', 'offset'): 3, ('pin_names', 'offset'): 2, ('Model', 'offset'): 2, ('Model', 'scale'): 2, ('Model', 'rotate'): 2, ('Pad', 'net'): 3,
         ('pad', 'net'): 3, ('Board', 'net'): 3, ('layers', '#'): 3, ('angle',): 2, ('layer',): 2, ('tedit',): 2, ('pngdata', 'data'): 2,
         ('SymbolPin', 'name'): 2, ('SymbolPin', 'number'): 2, ('SymbolPin', 'alternate'): 4, ('SchematicSymbol', 'pin'): 3, ('lib_id',): 2, ('path',): 2, ('page',): 2, ('reference',): 2, ('unit',): 2,
         ('width',): 2, ('type',): 2, ('thickness',): 2, ('tstamp',): 2, ('uuid',): 2, ('href',): 2, ('face',): 2}


@check
def short(ctx, e, job, leaves):
    """a token that ends before the values it needs is refused, not filled up"""
    o, t = build_pair(e, job, leaves)
    c = qual(o, job)
    if job['how'] == 'own':
        if o.req < 2:
            raise PathAbort()
        tr = view(t, 'r')[:1 + e.choose(o.req - 1)]
    elif job['how'] == 'inner':                  # named entries at any level, by their name
        tr = view(t, 'r')
        cs = {}

        def find(x, path, names):
            for i, y in enumerate(x):
                if isinstance(y, list) and y:
                    n = names + (y[0] if type(y[0]) is str else '#',)
                    r = LEADING.get(n[-2:] if len(n) > 1 else (c.split('.')[-1],) + n, LEADING.get(n[-1:], 0))
                    if 1 < r <= len(y):
                        cs.setdefault(n, (path + (i,), r))
                    find(y, path + (i,), n)
        find(tr, (), ())
        cs = list(cs.values())
        if not cs:
            raise PathAbort()
        path, r = cs[e.choose(len(cs))]
        k = 1 + e.choose(r - 1)

        def cut(x, p):
            return x[:k] if not p else x[:p[0]] + [cut(x[p[0]], p[1:])] + x[p[0] + 1:]
        tr = cut(tr, path)
    else:
        cs = [i for i, x in enumerate(t) if isinstance(x, Ch) and x.req > 1]
        if not cs:
            raise PathAbort()
        i = cs[e.choose(len(cs))]
        tr = view(t, 'r')
        tr = tr[:i] + [tr[i][:1 + e.choose(t[i].req - 1)]] + tr[i + 1:]
    sc = lambda m: dict(kind='reject', cls=c, tree=conc(tr, m))
    refused(ctx, e, sc, lambda: symclass(c).from_sexpr(copy_tree(tr)))


@check
def inexpressible(ctx, e, job, leaves):
    """an object the format has no form for, or a token kiutils has no object for, is refused"""
    o, t = build_pair(e, job, leaves)
    c = qual(o, job)
    how = job['how']
    if how == 'token':                           # a known token without a class of its own
        tr = view(t, 'r')
        if job.get('into'):
            i = [j for j, x in enumerate(tr) if isinstance(x, list) and x and x[0] == job['into']]
            if not i:
                raise PathAbort()
            n = len(tr[i[0]])
            at = 1 + e.choose(n)
            tr[i[0]] = tr[i[0]][:at] + [[job['name'], ['width', make_leaf(e, 'wid', 'N', 'd')]]] + tr[i[0]][at:]
        else:
            first = [j for j, x in enumerate(t) if isinstance(x, Ch)][0]
            at = first + e.choose(len(tr) - first + 1)
            tr = tr[:at] + [[job['name'], ['width', make_leaf(e, 'wid', 'N', 'd')]]] + tr[at:]
        sc = lambda m: dict(kind='reject', cls=c, tree=conc(tr, m))
        refused(ctx, e, sc, lambda: symclass(c).from_sexpr(copy_tree(tr)))
        return
    if how == 'members':                         # a bus alias with too few or too many entries, or members that are no list
        tr = view(t, 'r')
        x = make_leaf(e, 'x', 'T', 't2')
        tr = [tr[:2], tr + [x], tr + [['members', x]], tr[:2] + [x], tr[:1] + tr[2:]][e.choose(5)]
        sc = lambda m: dict(kind='reject', cls=c, tree=conc(tr, m))
        refused(ctx, e, sc, lambda: symclass(c).from_sexpr(copy_tree(tr)))
        return
    o = view(o, 'w')
    f = o.f
    if how == 'user':                            # free paper size without both measures
        f['paperSize'] = 'User'
        for k, v in zip(('width', 'height'), [(None, None), (None, 1), (1, None)][e.choose(3)]):
            f[k] = v and make_leaf(e, k, 'N', job['shape'])
    elif how == 'empty':
        f[job['field']] = []
    elif how == 'box':
        if e.fork(e.flag('turned')):             # not at a right angle: exactly four corners needed
            a = make_leaf(e, 'ang', 'N', job['shape'])
            for x in (0, 90, 180, 270):
                e.assume_ne(a, x)
            f['angle'] = a
            n = [0, 1, 2, 3, 5][e.choose(5)]
            f['pts'] = [Obj('Position', dict(X=make_leaf(e, 'x%d' % i, 'N', 'd'), Y=i)) for i in range(n)]
        else:                                    # otherwise both corners needed
            f['angle'] = [None, 0, 90, 180, 270][e.choose(5)]
            ps = [Obj('Position', dict(X=make_leaf(e, 'x%d' % i, 'N', job['shape']), Y=i)) for i in range(2)]
            f['start'], f['end'] = [(None, None), (ps[0], None), (None, ps[1])][e.choose(3)]
    sc = lambda m: dict(kind='refuse_write', obj=conc(o, m))
    obj = make(o)
    refused(ctx, e, sc, obj.to_sexpr)


# --- C13 ---------------------------------------------------------------------
def mutables(x, acc=None):
    """ids of every mutable object reachable from x"""
    acc = {} if acc is None else acc
    if isinstance(x, (list, set)):
        if id(x) in acc:
            return acc
        acc[id(x)] = x
        for y in x:
            mutables(y, acc)
    elif isinstance(x, dict):
        if id(x) in acc:
            return acc
        acc[id(x)] = x
        for y in x.values():
            mutables(y, acc)
    elif type(x).__module__.startswith('kiutils') and not isinstance(x, type) and hasattr(x, '__dict__'):
        if id(x) in acc:
            return acc
        acc[id(x)] = x
        for k, y in vars(x).items():
            if k[0] != '_':
                mutables(y, acc)
    return acc


def twice(x, acc=None):
    """a mutable part that x holds in two places, or None"""
    acc = set() if acc is None else acc
    if isinstance(x, list):
        ys = x
    elif isinstance(x, dict):
        ys = list(x.values())
    elif type(x).__module__.startswith('kiutils') and not isinstance(x, type) and hasattr(x, '__dict__'):
        ys = [y for k, y in vars(x).items() if k[0] != '_']
    else:
        return None
    if id(x) in acc:
        return type(x).__name__
    acc.add(id(x))
    for y in ys:
        r = twice(y, acc)
        if r is not None:
            return r
    return None


def shared(a, b):
    ma, mb = mutables(a), mutables(b)
    s = [v for k, v in ma.items() if k in mb]
    return type(s[0]).__name__ if s else None


@check
def pure(ctx, e, job, leaves):
    """saving changes nothing, loading neither changes nor shares anything"""
    o, t = build_pair(e, job, leaves)
    ow, tr = view(o, 'w'), view(t, 'r')
    c = qual(o, job)
    cl = symclass(c)
    sc = lambda m: dict(kind='pure', cls=c, obj=conc(ow, m), tree=conc(tr, m))
    obj = make(ow)

    def write():
        s1 = obj.to_sexpr()
        s2 = obj.to_sexpr()
        return s1, s2
    ok, r = guarded(ctx, sc, 'saving twice', write)
    if ok:
        claim_equal(ctx, r[0], r[1], sc, 'saving twice gives different text', 'text')
        claim_equal(ctx, ow, obj, sc, 'saving changed the object', job['cls'])

    t1 = copy_tree(tr)

    def read():
        return cl.from_sexpr(t1), cl.from_sexpr(t1)
    ok, g = guarded(ctx, sc, 'loading twice', read)
    if ok:
        claim_equal(ctx, tr, t1, sc, 'loading changed its input', 'input')
        s = shared(g[0], g[1])
        claim(ctx, s is None, sc, 'two loaded objects share a %s' % s)
        s = twice(g[0])
        claim(ctx, s is None, sc, 'two parts of a loaded object are one %s' % s)
        s = shared(g[0], t1)
        claim(ctx, s is None, sc, 'the loaded object shares a %s with its input' % s)
        s = shared(g[0], cl()) if job.get('defaultable', True) else None
        claim(ctx, s is None, sc, 'a loaded object shares a %s with a new one' % s)
    if ok:
        try:
            a, b = cl(), cl()
        except TypeError:
            a = b = None
        s = shared(a, b)
        claim(ctx, s is None, sc, 'two new objects share a %s' % s)
        s = twice(a)
        claim(ctx, s is None, sc, 'two parts of a new object are one %s' % s)
    witness(ctx, e, sc)


def spoil(cl, obj, tree, fail, parse):
    """operations that fail: what they leave behind must not matter"""
    def attempt(fn):
        try:
            fn()
        except Unsupported:
            raise
        except Exception:
            pass
    text = obj.to_sexpr()
    attempt(lambda: parse(text[:-2]))
    attempt(lambda: parse(text[:len(text) // 2]))
    attempt(lambda: parse(text + ')'))
    attempt(lambda: cl.from_sexpr(tree[:1]))
    attempt(lambda: cl.from_sexpr(tree + [list(fail)]))
    attempt(lambda: cl.from_sexpr(['zz'] + tree[1:]))
    for k, v in list(vars(obj).items()):
        if isinstance(v, list):
            v.append(Bomb())
            attempt(obj.to_sexpr)
            v.pop()


@check
def history(ctx, e, job, leaves):
    """what was saved or loaded before has no influence"""
    o1, t1 = build_pair(e, job, leaves)
    b = Builder(e, job.get('base2', 'min'), 0, prefix='z.')
    o2, t2 = SPECS[job.get('cls2', job['cls'])](b)
    v1, r1, w1 = view(o1, 'r'), view(t1, 'r'), view(o1, 'w')
    v2, r2, w2 = view(o2, 'r'), view(t2, 'r'), view(o2, 'w')
    x1, x2 = view(t1, 'w'), view(t2, 'w')
    c1 = qual(o1, job)
    c2 = o2.cls if '@' in o2.cls else job.get('cls2', job['cls'])
    n1, n2 = job['cls'], job.get('cls2', job['cls'])
    sc = lambda m: dict(kind='history', c1=c1, c2=c2, w1=conc(w1, m), w2=conc(w2, m), x1=conc(x1, m), x2=conc(x2, m),
                        r1=conc(r1, m), r2=conc(r2, m), v1=conc(v1, m), v2=conc(v2, m))
    wear, fail = job.get('wear', 0), None
    if job.get('fail'):
        ch = [x[0] for x in r2[1:] if isinstance(x, list) and x and type(x[0]) is str]
        fail = [ch[e.choose(len(ch))]] if ch else []
    sc0 = sc
    sc = lambda m: dict(sc0(m), wear=wear, fail=fail)
    a, b2 = make(w1), make(w2)

    def run():
        for i in range(wear):
            parse('(a (b %d) "c")' % i)
            symclass(c2).from_sexpr(copy_tree(r2))
            b2.to_sexpr()
        if fail is not None:
            spoil(symclass(c2), make(w2), copy_tree(r2), fail, lambda t: parse(t, n2))
        s1 = a.to_sexpr()
        p1 = parse(s1, n1)
        g1 = symclass(c1).from_sexpr(copy_tree(r1))
        s2 = b2.to_sexpr()
        p2 = parse(s2, n2)
        g2 = symclass(c2).from_sexpr(copy_tree(r2))
        p3 = parse(a.to_sexpr(), n1)
        g3 = symclass(c1).from_sexpr(copy_tree(r1))
        p4 = parse(s1, n1)
        return g1, p2, g2, p3, g3, p1, p4
    ok, r = guarded(ctx, sc, 'a sequence of saves and loads', run)
    if ok:
        g1, p2, g2, p3, g3, p1, p4 = r
        claim_equal(ctx, x2, p2, sc, 'saved after another object', 'token')
        claim_equal(ctx, v2, g2, sc, 'loaded after another object', n2)
        claim_equal(ctx, x1, p3, sc, 'saved again later', 'token')
        claim_equal(ctx, v1, g3, sc, 'loaded again later', n1)
        claim_equal(ctx, v1, g1, sc, 'an object loaded earlier', n1)
        s = shared(p1, p4)
        claim(ctx, s is None, sc, 'tokenising the same text twice shares a %s' % s)
    witness(ctx, e, sc)


# --- C14 ---------------------------------------------------------------------
@check
def layout(ctx, e, job, leaves):
    """indentation and newline arguments change white space only"""
    o, t = build_pair(e, job, leaves)
    ow, tw = view(o, 'w'), view(t, 'w')
    obj = make(ow)
    n = make_leaf(e, 'indent', 'J', job.get('ishape', 'd'))
    nl = e.fork(z3.Bool('newline'))
    sc = lambda m: dict(kind='layout', obj=conc(ow, m), tree=conc(tw, m), indent=conc(n, m), newline=nl, exact=job.get('exact', True))

    def run():
        # distinct indents are distinguished by the code only through ' ' * indent
        k = n.__index__() if isinstance(n, SymNum) else n
        ps = inspect.signature(type(obj).to_sexpr).parameters
        kw = dict(indent=k)
        if 'newline' in ps:
            kw['newline'] = nl
        s = obj.to_sexpr(**kw)
        return k, s, parse(s, job['cls'])
    ok, r = guarded(ctx, sc, 'saving with indent and newline', run)
    if ok:
        k, s, tree = r
        claim_equal(ctx, tw, tree, sc, 'tokens depend on the layout arguments', 'token')
        if job.get('exact', True):
            it = items_of(s)
            lead = 0
            while lead < len(it) and it[lead] == ' ':
                lead += 1
            claim(ctx, lead == k and it[lead] == '(', sc, 'first line is indented by %d instead of %d' % (lead, k))
            if 'newline' in inspect.signature(type(obj).to_sexpr).parameters:
                claim(ctx, (it[-1] == '\n') == nl, sc, 'text %s with a newline' % ('does not end' if nl else 'ends'))
    witness(ctx, e, sc)


# --- C10, C08, C09: the tokenizer ----------------------------------------------
WSP = iv_chars(' \t\n\r\x0b\x0c')
NOPAR = iv_sub(iv_sub(ANY, iv_chars('"\\()')), ())


class Tok:
    """renders a token tree as text with symbolic white space"""

    def __init__(self, e, ws, quoteplain=True):
        self.e, self.ws, self.n = e, ws, 0
        self.brackets = []
        self.out = []

    def gap(self, least):
        k = max(least, self.ws)
        for _ in range(k):
            self.n += 1
            self.out.append(self.e.char('ws%d' % self.n, WSP))

    def leaf(self, code):
        """returns the expected value"""
        e = self.e
        self.n += 1
        nm = 'v%d' % self.n
        k, _, sh = code.partition(':')
        if k == 'q':                                   # quoted text, escaped as KiCad does
            v = make_leaf(e, nm, 'T', sh)
            self.out += ['"']
            for c in items_of(v):
                if type(c) is str:
                    q = c == '"'
                else:
                    q = bool(SymStr([c]) == '"')
                self.out += ['\\', '"'] if q else [c]
            self.out += ['"']
            return v
        if k == 'p':                                   # quoted text without brackets
            v = mkstr([e.char('%s#%d' % (nm, i), NOPAR) for i in range(int(sh))])
            self.out += ['"'] + items_of(v) + ['"']
            return v
        if k == 'n':
            v = make_leaf(e, nm, 'N', sh)
            if isinstance(v, SymNum):
                self.out += (['-'] if v.neg else []) + v.ip + (['.'] + v.fp if v.fp else [])
            else:
                self.out += list(repr(v))
            return v
        if k == 'e':                                   # exponent notation: mantissa shape, exponent
            mant, _, ex = sh.partition('e')
            v = make_leaf(e, nm, 'N', mant)
            self.out += (['-'] if v.neg else []) + v.ip + (['.'] + v.fp if v.fp else []) + list('e' + ex)
            from vsym.core import _parse_exp
            return _parse_exp(v.neg, v.ip, v.fp, list(ex))
        if k == 'x':                                   # looks like a number but is a word
            its = []
            for i, ch in enumerate(sh):
                if ch == 'd':
                    its.append(e.char('%s#%d' % (nm, i), DIGIT))
                elif ch == 'l':
                    its.append(e.char('%s#%d' % (nm, i), LETTER))
                else:
                    its.append(ch)
            v = mkstr(its)
            self.out += its
            return v
        v = make_leaf(e, nm, 'W', code)
        self.out += items_of(v)
        return v

    def tree(self, t):
        self.brackets.append(len(self.out))
        self.out.append('(')
        exp = []
        prev = '('
        for x in t:
            if isinstance(x, list):
                self.gap(1 if prev == 'a' else 0)
                exp.append(self.tree(x))
                prev = ')'
            else:
                self.gap(1 if prev == 'a' else 0)
                exp.append(self.leaf(x))
                prev = 'a'
        self.gap(0)
        self.brackets.append(len(self.out))
        self.out.append(')')
        return exp


@check
def tokens(ctx, e, job, leaves):
    """tokenising gives exactly the nested tokens of the text, whatever the white space"""
    tk = Tok(e, job.get('ws', 0))
    if job.get('lead'):
        tk.gap(job['lead'])
    exp = tk.tree(job['tree'])
    if job.get('lead'):
        tk.gap(job['lead'])
    text = mkstr(tk.out)
    sc = lambda m: dict(kind='tokens', text=conc(text, m), tree=conc(exp, m))
    ok, got = guarded(ctx, sc, 'tokenising', lambda: parse(text))
    if ok:
        claim_equal(ctx, exp, got, sc, 'tokens', 'token')
    witness(ctx, e, sc)


@check
def badtokens(ctx, e, job, leaves):
    """text with unbalanced brackets, or cut off anywhere, is refused"""
    tk = Tok(e, job.get('ws', 0))
    tk.tree(job['tree'])
    out, br = tk.out, tk.brackets
    how = job['how']
    if how == 'drop':
        i = br[e.choose(len(br))]
        out = out[:i] + out[i + 1:]
    elif how == 'dup':
        i = br[e.choose(len(br))]
        out = out[:i] + [out[i]] + out[i:]
    elif how == 'cut':
        end = br[-1]
        i = e.choose(end) + 1
        out = out[:i]
    text = mkstr(out)
    sc = lambda m: dict(kind='badtokens', text=conc(text, m))
    try:
        parse(text)
    except Unsupported as u:
        ctx.inconclusive.append('unsupported: %s' % u)
        ctx.sample(sc)
        return
    except Exception:
        claim(ctx, True, sc, '')
        witness(ctx, e, sc)
        return
    claim(ctx, False, sc, 'unbalanced text accepted')


@check
def edittime(ctx, e, job, leaves):
    """the edit time of a new footprint is the hexadecimal number without its 0x"""
    fn = getattr(H.PKG.module('kiutils.utils.strings'), 'remove_prefix', None)
    if fn is None:
        return
    h = make_leaf(e, 'hex', 'U', 'h%d' % job['n'])
    sc = lambda m: dict(kind='edittime', text=conc(h, m))
    ok, r = guarded(ctx, sc, 'remove_prefix', lambda: fn('0x' + h, '0x'))
    if ok:
        claim_equal(ctx, h, r, sc, 'edit time', 'tedit')
        witness(ctx, e, sc)


# --- C16 -------------------------------------------------------------------------
@check
def libid(ctx, e, job, leaves):
    """library identifiers split into nickname, entry name, unit and style and join back"""
    c = job['cls']
    cl = symclass(c)
    how = job['how']
    ns, es = job['shapes']
    ent = make_leaf(e, 'entry', 'L', es)
    f = dict(libraryNickname=None, entryName=ent)
    if c == 'Symbol':
        f.update(unitId=None, styleId=None)
    if how == 'nick':
        nick = make_leaf(e, 'nick', 'L', ns)
        if job.get('colon'):
            ent = ent + ':' + make_leaf(e, 'entry2', 'L', 'L1')
        ident = nick + ':' + ent
        f.update(libraryNickname=nick, entryName=ent)
    elif how == 'unit':
        u, s = make_leaf(e, 'unit', 'J', job['ushape'][0]), make_leaf(e, 'style', 'J', job['ushape'][1])
        tx = lambda v: v.text() if isinstance(v, SymNum) else str(v)
        ident = ent + '_' + tx(u) + '_' + tx(s)
        f.update(unitId=u, styleId=s)
    else:
        if c == 'Symbol':
            from spec.fp import no_unit_suffix
            no_unit_suffix(e, ent)
        ident = ent
    first = job.get('first')
    units = job.get('units', 0)
    # units of the symbol: any name before, any unit and style number
    us = [('old' if not i else make_leaf(e, 'uname%d' % i, 'L', 'L2'), make_leaf(e, 'unit%d' % i, 'J', 'd'),
           make_leaf(e, 'style%d' % i, 'J', 'd')) for i in range(units)]
    sc = lambda m: dict(kind='libid', cls=c, first=first, ident=conc(ident, m), f={k: conc(v, m) for k, v in f.items()},
                        units=[[conc(x, m) for x in u] for u in us])

    def run():
        kw = {}
        if units:
            kw['units'] = [cl(entryName=n, unitId=u, styleId=t) for n, u, t in us]
        o = cl(**kw)
        if first:
            o.libId = first
        o.libId = ident
        return o, o.libId
    ok, r = guarded(ctx, sc, 'setting the identifier', run)
    if not ok:
        return
    o, back = r
    for k, v in f.items():
        claim_equal(ctx, v, getattr(o, k), sc, k, k)
    claim_equal(ctx, ident, back, sc, 'identifier', 'libId')
    for i in range(units):
        claim_equal(ctx, ent, o.units[i].entryName, sc, 'unit name', 'units[%d].entryName' % i)
        tx = lambda v: v.text() if isinstance(v, SymNum) else str(v)
        claim_equal(ctx, ent + '_' + tx(us[i][1]) + '_' + tx(us[i][2]), o.units[i].libId, sc, 'unit id', 'units[%d].libId' % i)
    witness(ctx, e, sc)


# --- C17 -------------------------------------------------------------------------
class Bomb:
    """an item that cannot be saved"""

    def to_sexpr(self, *a, **k):
        raise ValueError('unsaveable item')


@check
def files(ctx, e, job, leaves):
    from vsym.fs import FS, enc_name
    op, enc = job['op'], job.get('enc')
    bomb = []
    c = job['cls']
    o, t = build_pair(e, job, leaves)
    ow, orr = view(o, 'w'), view(o, 'r')
    if enc in ('latin-1', 'ascii'):
        top = 255 if enc == 'latin-1' else 127
        high = None
        if op in ('encfail', 'decfail'):        # one character the encoding cannot express, anywhere
            used = {ch.name for ch in items_of(make(ow).to_sexpr()) if type(ch) is not str}
            cand = [n for n, d in e.doms.items() if d[-1][1] > top and n in used]
            if not cand:
                raise PathAbort()
            high = cand[e.choose(len(cand))]
        for n, d in list(e.doms.items()):
            e.assume(z3.Int(n) > top if n == high else z3.Int(n) <= top)
            e.doms[n] = iv_and(d, ((top + 1, MAXCP),) if n == high else ((0, top),))
        if op == 'decfail':                     # ... written in an encoding that can, loaded in one that cannot
            e.assume(z3.Int(high) <= 255)
            e.doms[high] = iv_and(e.doms[high], ((128, 255),))
            if not e.doms[high]:
                raise PathAbort()
    for n in list(e.doms):                      # carriage returns: known finding of text-mode files
        e.assume(z3.Int(n) != 13)
    name = 'f' + make_leaf(e, 'path', 'W', 'h2') + '.x'
    other = 'g.x'
    cl = symclass(c)
    kw = dict(encoding=enc) if enc else {}
    sc = lambda m: dict(kind='files', op=op, cls=c, obj=conc(ow, m), back=conc(orr, m), name=conc(name, m), enc=enc,
                        bomb=bomb[0] if bomb else None)
    fs = FS()
    FS.cur = fs
    try:
        obj = make(ow)
        text = None

        def run():
            nonlocal text
            text = obj.to_sexpr()
            if op in ('load', 'resave', 'seq'):
                fs.files.append([name, text, enc_name(enc)])
                fs.files.append([other, '(x)', 'utf-8'])
                g = cl.from_file(name, **kw)
                if op != 'load':
                    text = cl.from_sexpr(parse(text, c)).to_sexpr()
                    fs.files[0][1] = 'stale'
                    if op == 'seq':
                        g.to_file(other, **kw)
                        fs.files[1][1] = fs.files[1][1] + '!'
                    g.to_file(**kw)
                return g
            fs.files.append([other, 'keep', 'utf-8'])
            if op == 'saveover':
                fs.files.append([name, 'old and much longer than anything else ' * 9, 'utf-8'])
            if op in ('save', 'saveover'):
                obj.to_file(name, **kw)
            elif op == 'savedefault':
                obj.filePath = name
                obj.to_file(**kw)
            elif op == 'savepriority':
                obj.filePath = other
                obj.to_file(name, **kw)
                if not claim_equal(ctx, other, obj.filePath, sc, 'remembered path', 'filePath'):
                    raise PathAbort()
        if op in ('nopath', 'missing', 'bomb', 'wrong', 'encfail', 'decfail'):
            fs.files.append([other, 'keep', 'utf-8'])
            bad = '(zz_' + make_leaf(e, 'badhead', 'W', 'w3') + ' (version 1))'
            if op == 'wrong':
                fs.files.append([name, bad, 'utf-8'])
            try:
                if op == 'nopath':
                    obj.filePath = None
                    obj.to_file(**kw)
                elif op in ('missing', 'wrong'):
                    cl.from_file(name, **kw)
                elif op == 'decfail':
                    kw['encoding'] = 'utf-8'
                    text = obj.to_sexpr()
                    fs.files.append([name, text, 'iso8859-1'])
                    cl.from_file(name, **kw)
                elif op == 'encfail':
                    fs.files.append([name, 'precious', 'utf-8'])
                    obj.to_file(name, **kw)
                else:
                    fs.files.append([name, 'precious', 'utf-8'])
                    names = [k for k, v in ow.f.items() if isinstance(v, list) and v and isinstance(v[0], Obj)]
                    f = names[e.choose(len(names))]
                    bomb.append(f)
                    setattr(obj, f, list(getattr(obj, f)) + [Bomb()])
                    obj.to_file(name, **kw)
            except Unsupported:
                raise
            except Exception:
                claim(ctx, True, sc, '')
            else:
                claim(ctx, False, sc, 'no exception')
                return
            want = [[other, 'keep', 'utf-8']] + ([[name, 'precious', 'utf-8']] if op in ('bomb', 'encfail') else []) \
                + ([[name, bad, 'utf-8']] if op == 'wrong' else []) + ([[name, text, 'iso8859-1']] if op == 'decfail' else [])
            claim_equal(ctx, want, fs.files, sc, 'files after the failed operation', 'files')
            witness(ctx, e, sc)
            return
        ok, g = guarded(ctx, sc, 'file operation', run)
        if not ok:
            return
        en = enc_name(enc)
        if op == 'load':
            claim_equal(ctx, [[name, text, en], [other, '(x)', 'utf-8']], fs.files, sc, 'files after loading', 'files')
            claim_equal(ctx, orr, g, sc, 'object loaded from the file', c)
            claim_equal(ctx, name, g.filePath, sc, 'remembered path', 'filePath')
        elif op == 'resave':
            claim_equal(ctx, [[name, text, en], [other, '(x)', 'utf-8']], fs.files, sc, 'files after saving again', 'files')
        elif op == 'seq':
            claim_equal(ctx, [[name, text, en], [other, text + '!', en]], fs.files, sc, 'files after saving under two names', 'files')
        else:
            want = [[other, 'keep', 'utf-8'], [name, text, en]]
            claim_equal(ctx, want, fs.files, sc, 'files after saving', 'files')
            claim_equal(ctx, ow, obj, sc, 'saving changed the object', c)
        witness(ctx, e, sc)
    finally:
        FS.cur = None


# --- C20 -------------------------------------------------------------------------
def assign(obj, desc, inplace):
    """give obj the attribute values of desc, replacing or editing what it holds"""
    for k, v in desc.f.items():
        cur = getattr(obj, k, None)
        if inplace and isinstance(v, Obj) and type(cur).__name__ == v.cls.partition('@')[0]:
            assign(cur, v, inplace)
        elif inplace and isinstance(v, list) and isinstance(cur, list):
            while len(cur) > len(v):
                cur.pop()
            for i, x in enumerate(v):
                if i < len(cur) and isinstance(x, Obj) and type(cur[i]).__name__ == x.cls.partition('@')[0]:
                    assign(cur[i], x, inplace)
                elif i < len(cur):
                    cur[i] = make(x)
                else:
                    cur.append(make(x))
        elif inplace and isinstance(v, dict) and isinstance(cur, dict):
            cur.clear()
            cur.update(make(v))
        else:
            setattr(obj, k, make(v))


@check
def edit(ctx, e, job, leaves):
    """whatever an object was loaded from, saving it writes its current attribute values"""
    o, t = build_pair(e, job, leaves)
    b = Builder(e, job.get('base2', 'min'), 0, prefix='z.')
    o0, t0 = SPECS[job['cls']](b)
    ow, tw, r0 = view(o, 'w'), view(t, 'w'), view(t0, 'r')
    if o0.cls != o.cls:
        raise PathAbort()
    c = qual(o, job)
    inplace, saved = job.get('inplace', False), job.get('saved', False)
    sc = lambda m: dict(kind='edit', cls=c, start=conc(r0, m), obj=conc(ow, m), tree=conc(tw, m), inplace=inplace, saved=saved)

    def run():
        x = symclass(c).from_sexpr(copy_tree(r0))
        if saved:
            x.to_sexpr()
        assign(x, ow, inplace)
        return parse(x.to_sexpr(), job['cls'])
    ok, got = guarded(ctx, sc, 'editing and saving', run)
    if ok:
        claim_equal(ctx, tw, got, sc, 'saved after an edit', 'token')
    witness(ctx, e, sc)


# --- C18 -------------------------------------------------------------------------
NEEDS = dict(Group=['id'], Footprint=['entryName'], Symbol=['entryName'],
             SchematicSymbol=['entryName'], GrTextBox=['start', 'end'], FpTextBox=['start', 'end'],
             Zone=['layers'], Dimension=['pts'], Board=['version', 'generator'], Justify=['horizontally'],
             Attributes=['type'], WksFont=['bold'])
FRESH_SKIP = {'GrPoly', 'GrCurve', 'FpPoly', 'FpCurve', 'ZonePolygon', 'FilledPolygon', 'FillSegments', 'RenderCachePolygon', 'WksFont',
              'Justify', 'Attributes'}
# attributes that mean something only together with another one
DEPENDENT = dict(PageSettings=('width', 'height', 'paperSize'), GrText=('knockout',), FpText=('knockout',), GrTextBox=('angle', 'pts'),
                 FpTextBox=('angle', 'pts'), FpLine=('stroke', 'width'), FpRect=('stroke', 'width'), FpArc=('stroke', 'width'),
                 FpCircle=('stroke', 'width'), DrillDefinition=('width',), Symbol=('pinNamesHide', 'pinNamesOffset'))


def snapshot(x):
    """description of an object's current attribute values"""
    import dataclasses
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return Obj(type(x).__name__, {f.name: snapshot(getattr(x, f.name)) for f in dataclasses.fields(x) if f.name not in ('filePath', 'precision')})
    if isinstance(x, (list, tuple)):
        return [snapshot(y) for y in x]
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return x


def same_version(x):
    """created version strings are read back as numbers: compare them as numbers"""
    if isinstance(x, Obj):
        return Obj(x.cls, {k: (int(v) if k == 'version' and type(v) is str and v.isdigit() else same_version(v)) for k, v in x.f.items()})
    if isinstance(x, list):
        return [same_version(v) for v in x]
    return x


@check
def fresh(ctx, e, job, leaves):
    """an object with only some attributes given, the rest at its defaults, survives saving and loading"""
    o, t = build_pair(e, job, leaves)
    ow = view(o, 'w')
    c = qual(o, job)
    cl = symclass(c)
    names = [k for k in ow.f if k not in NEEDS.get(job['cls'], ()) and k not in DEPENDENT.get(job['cls'], ())]
    if any(ow.f[k] is None for k in NEEDS.get(job['cls'], ())):
        raise PathAbort()
    i = e.choose(len(names) + 1)
    pick = {k: ow.f[k] for k in NEEDS.get(job['cls'], ())}
    if i:
        if ow.f[names[i - 1]] is None:       # "nothing" is the default of every attribute that documents it
            raise PathAbort()
        pick[names[i - 1]] = ow.f[names[i - 1]]
    sub = Obj(o.cls, pick)
    sc = lambda m: dict(kind='fresh', cls=c, obj=conc(sub, m))

    def run():
        obj = make(sub)
        snap = same_version(snapshot(obj))
        s = obj.to_sexpr()
        g = cl.from_sexpr(parse(s, job['cls']))
        return snap, g
    ok, r = guarded(ctx, sc, 'saving and loading a new object', run)
    if ok:
        claim_equal(ctx, r[0], r[1], sc, 'new object after saving and loading', job['cls'])
    witness(ctx, e, sc)


@check
def created(ctx, e, job, leaves):
    """create_new gives a complete, independent object of the requested content"""
    c = job['cls']
    cl = symclass(c)
    args, expect = created_args(e, job)
    sc = lambda m: dict(kind='created', cls=c, args=conc(args, m), expect=conc(expect, m))

    def run():
        a = cl.create_new(*args)
        b = cl.create_new(*args)
        snap = same_version(snapshot(a))
        s = a.to_sexpr()
        g = cl.from_sexpr(parse(s, c))
        return a, b, snap, s, g, g.to_sexpr()
    ok, r = guarded(ctx, sc, 'create_new, saving and loading', run)
    if ok:
        a, b, snap, s, g, s2 = r
        claim_equal(ctx, expect, a, sc, 'created object', c)
        claim_equal(ctx, snap, g, sc, 'created object after saving and loading', c)
        claim_equal(ctx, parse(s, c), parse(s2, c), sc, 'tokens saved again', 'token')
        x = shared(a, b)
        claim(ctx, x is None, sc, 'two created objects share a %s' % x)
        x = twice(a)
        claim(ctx, x is None, sc, 'two parts of a created object are one %s' % x)
    witness(ctx, e, sc)


STD_LAYERS = [(0, 'F.Cu', 'signal', None), (31, 'B.Cu', 'signal', None)] + [
    (32 + i, n, 'user', u) for i, (n, u) in enumerate([
        ('B.Adhes', 'B.Adhesive'), ('F.Adhes', 'F.Adhesive'), ('B.Paste', None), ('F.Paste', None), ('B.SilkS', 'B.Silkscreen'),
        ('F.SilkS', 'F.Silkscreen'), ('B.Mask', None), ('F.Mask', None), ('Dwgs.User', 'User.Drawings'), ('Cmts.User', 'User.Comments'),
        ('Eco1.User', 'User.Eco1'), ('Eco2.User', 'User.Eco2'), ('Edge.Cuts', None), ('Margin', None), ('B.CrtYd', 'B.Courtyard'),
        ('F.CrtYd', 'F.Courtyard'), ('B.Fab', None), ('F.Fab', None)] + [('User.%d' % i, None) for i in range(1, 10)])]


@check
def badtype(ctx, e, job, leaves):
    """a footprint type that does not exist is refused"""
    typ = make_leaf(e, 'type', 'T', job['shape'])
    for a in ('smd', 'through_hole', 'other'):
        e.assume_ne(typ, a)
    sc = lambda m: dict(kind='badtype', cls='Footprint', args=['a:b', 'v', conc(typ, m)])
    try:
        symclass('Footprint').create_new('a:b', 'v', typ)
    except Unsupported as u:
        ctx.inconclusive.append('unsupported: %s' % u)
        ctx.sample(sc)
        return
    except Exception:
        claim(ctx, True, sc, '')
        witness(ctx, e, sc)
        return
    claim(ctx, False, sc, 'unsupported footprint type accepted')


def created_args(e, job):
    c = job['cls']
    sh = job.get('shape', 'T3')

    def tx(n, s=None):
        return make_leaf(e, n, 'T', s or sh)

    if c == 'Footprint':
        nick, ent = make_leaf(e, 'nick', 'L', 'L2'), make_leaf(e, 'entry', 'L', 'L2')
        typ = job['type']
        val, ref = tx('value', job.get('vs')), tx('reference', job.get('rs'))
        na = job.get('nargs', 4)
        if na < 3:
            typ = 'other'
        if na < 4:
            ref = 'REF**'

        def ft(kind, text, layer, y):
            return Obj('FpText', dict(type=kind, text=text, layer=layer, hide=False, effects=Obj('Effects', dict(font=Obj('Font', dict(thickness=0.15)))),
                                      position=Obj('Position', dict(X=0, Y=y, angle=None, unlocked=True))))
        exp = dict(libraryNickname=nick, entryName=ent, pads=[], graphicItems=[
            ft('reference', ref, 'F.SilkS', -0.5), ft('value', val, 'F.Fab', 1), ft('user', '${REFERENCE}', 'F.Fab', 2.5)],
            attributes=Obj('Attributes', dict(type=None if typ == 'other' else typ)))
        return [nick + ':' + ent, val, typ, ref][:na], Obj(c, exp)
    if c == 'Symbol':
        nick, ent = make_leaf(e, 'nick', 'L', 'L2'), make_leaf(e, 'entry', 'L', 'L2')
        r, v, f, d = tx('r', job.get('rs')), tx('v', job.get('vs')), tx('f', job.get('fs', 't2')), tx('d', job.get('ds', 't2'))
        na = job.get('nargs', 5)
        f, d = f if na > 3 else '', d if na > 4 else ''

        def pr(i, k, val):
            return Obj('Property', dict(key=k, value=val, id=i, effects=Obj('Effects', dict(
                font=Obj('Font', dict(width=1.27, height=1.27)), hide=i > 1))))
        exp = dict(libraryNickname=nick, entryName=ent, inBom=True, onBoard=True, units=[], pins=[], graphicItems=[],
                   properties=[pr(0, 'Reference', r), pr(1, 'Value', v), pr(2, 'Footprint', f), pr(3, 'Datasheet', d)])
        return [nick + ':' + ent, r, v, f, d][:na], Obj(c, exp)
    if c == 'LibTable':
        if job['type'] is None:
            return [], Obj(c, dict(type='sym_lib_table', libs=[]))
        return [job['type']], Obj(c, dict(type=job['type'], libs=[]))
    if c == 'Board':
        return [], Obj(c, dict(version='20211014', generator='kiutils', layers=[Obj('LayerToken', dict(zip(('ordinal', 'name', 'type', 'userName'), x)))
                                       for x in STD_LAYERS],
                               nets=[Obj('Net', dict(number=0, name=''))], footprints=[], graphicItems=[], traceItems=[],
                               zones=[], dimensions=[], targets=[], groups=[], properties={}))
    if c == 'Schematic':
        return [], Obj(c, dict(version='20211014', generator='kiutils', sheetInstances=[Obj('HierarchicalSheetInstance', dict(instancePath='/', page='1'))],
                               libSymbols=[], schematicSymbols=[], junctions=[], noConnects=[], graphicalItems=[],
                               labels=[], texts=[], sheets=[], symbolInstances=[]))
    if c == 'DesignRules':
        return [], Obj(c, dict(version=1, rules=[]))
    if c == 'WorkSheet':
        return [], Obj(c, dict(version='20211014', generator='kiutils', drawingObjects=[]))
    raise KeyError(c)
