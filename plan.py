"""Which symbolic explorations decide which property, and within which bounds."""
import ast
import hashlib
import json
import multiprocessing as mp
import os

import spec.common, spec.brd, spec.gr, spec.fp, spec.sch, spec.misc  # noqa: F401,E401
from vsym import harness as H
from vsym.build import SPECS, Ch, shape_of_const, shapes_for
from vsym.cmp import view
from vsym.load import REPO_SRC

FAMILY = dict(C01='Board', C02='Footprint', C03='SymbolLib', C04='Schematic', C05='WorkSheet',
              C06='DesignRules', C07='LibTable')
BIG = ('Schematic', 'Board', 'Footprint', 'Symbol', 'Pad')
HEAVY = BIG + ('Zone', 'SchematicSymbol', 'PlotSettings', 'HierarchicalSheet', 'SymbolLib')


@H.check
def plan_only(ctx, e, job, leaves):
    o, t = H.build_pair(e, job, leaves)
    for x in t:
        if isinstance(x, Ch):
            for w in 'wr':
                y = view(x, w)
                if isinstance(y, list) and y and type(y[0]) is str:
                    KIDS.add(y[0])
    ctx.reached += 1


KIDS = set()


_deps = {}
_leaves = {}
_kids = {}


def _scan(c):
    s, lv = set(), {}
    KIDS.clear()
    for base in ('min', 'max'):
        r = H.run_job(dict(check='plan_only', cls=c, base=base, k=1, slice=None))
        assert not r['error'], r['error']
        s |= {n[1:] for n, k, t in r['leaves'] if n[0] == '@'}
        lv.update({n: k for n, k, t in r['leaves'] if t})
    return c, sorted(s), lv, sorted(KIDS)


CACHE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec', 'leaves.json')


def table_hash():
    h = hashlib.sha256()
    d = os.path.dirname(CACHE)
    for p in sorted(f for f in os.listdir(d) if f.endswith('.py')):
        with open(os.path.join(d, p), 'rb') as f:
            h.update(f.read())
    with open(os.path.join(os.path.dirname(d), 'vsym', 'build.py'), 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def prepare(jobs, write=False):
    """the attributes and children of every class: a function of the format tables alone
    (not of the code under test), so it is kept in leaves.json until the tables change"""
    try:
        with open(CACHE) as f:
            d = json.load(f)
        if d['hash'] == table_hash() and not write:
            _deps.update(d['deps'])
            _leaves.update(d['leaves'])
            _kids.update(d['kids'])
            return
    except (OSError, ValueError, KeyError):
        pass
    cs = sorted(SPECS, key=lambda c: c not in HEAVY)
    with mp.get_context('fork').Pool(jobs) as p:
        for c, s, lv, kids in p.imap_unordered(_scan, cs, 1):
            _deps[c], _leaves[c], _kids[c] = s, lv, kids
    if write:
        with open(CACHE, 'w') as f:
            json.dump(dict(hash=table_hash(), deps=dict(sorted(_deps.items())), leaves=dict(sorted(_leaves.items())), kids=dict(sorted(_kids.items()))), f, indent=0)


def deps(c):
    if c not in _deps:
        _, _deps[c], _leaves[c], _kids[c] = _scan(c)
    return _deps[c]


def leaves_of(c):
    deps(c)
    return _leaves[c]


def closure(root):
    out, w = [], [root]
    while w:
        x = w.pop()
        if x not in out:
            out.append(x)
            w += deps(x)
    return out


def all_classes():
    return list(SPECS)


def size_constants():
    """integers the code compares lengths with, slices at, or multiplies by"""
    out = set()
    for d, _, fs in os.walk(os.path.join(REPO_SRC, 'kiutils')):
        for f in fs:
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    t = ast.parse(h.read())
            except (SyntaxError, OSError):
                continue

            def ints(n):
                for x in ast.walk(n):
                    if isinstance(x, ast.Constant) and type(x.value) is int and 3 < x.value <= 70000:
                        out.add(x.value)
            for n in ast.walk(t):
                if isinstance(n, ast.Compare) and any(
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len'
                        for x in ast.walk(n)):
                    ints(n)
                elif isinstance(n, ast.Slice):
                    ints(n)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'islice'):
                    ints(n)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'ljust', 'rjust', 'zfill', 'wrap', 'shorten', 'fill', 'center', 'replace', 'split', 'rsplit',
                        'sub', 'subn'):
                    ints(n)
    return out


GROUPS = [(k, s) for k in 'NITWUPFXJLY' for s in shapes_for(k)[1:]]


def shape_jobs(check, c, tier, kinds=None):
    """every value shape on every leaf of c, grouped by kind, and texts one at a time"""
    lv = leaves_of(c)
    kk = {k[0] for k in lv.values()}
    out = []
    nums = []
    for k, s in GROUPS:
        if k not in kk or (kinds and k not in kinds):
            continue
        if s in ('T3', 'Y3', 'Q3'):
            continue
        nums.append({'*' + k: s})
    # merge groups of different kinds: the i-th shape of every kind together
    bykind = {}
    for f in nums:
        (k, s), = f.items()
        bykind.setdefault(k, []).append(s)
    n = max([len(v) for v in bykind.values()], default=0)
    for i in range(n):
        f = {k: v[i] for k, v in bykind.items() if i < len(v)}
        out.append(dict(check=check, cls=c, base='max', k=small(c, 1, 0), focus=f))
        out.append(dict(check=check, cls=c, base='min', k=1 if c not in BIG else 0, focus=f))
    for l, k in lv.items():
        if kinds and k[0] not in kinds:
            continue
        if k[0] == 'U':
            for sh in ('h8', 'u36'):
                out.append(dict(check=check, cls=c, base='max', k=0, focus={l: sh}, need=[l], alt='min'))
        esc = {'T': 'T3', 'X': 'T3', 'Y': 'Y3', 'L': 'Q3'}.get(k[0])
        if esc:
            for sh in (esc, shapes_for(k)[1]):
                out.append(dict(check=check, cls=c, base='max', k=small(c, 1, 0), focus={l: sh}, need=[l], alt='min'))
                out.append(dict(check=check, cls=c, base='min', k=small(c, 1, 0), focus={l: sh}, need=[l], alt='min'))
    return out


def text_size_jobs(check, c, tier):
    """long texts, and texts with many quotes"""
    ns = {12, 40} | {m for n in size_constants() for m in (n - 1, n, n + 1)}
    out = []
    kk = {k[0] for k in leaves_of(c).values()}
    for n in sorted(ns):
        f = {}
        if kk & set('TX'):
            f.update({'*T': 't%d' % n, '*X': 't%d' % n})
        if 'L' in kk:
            f['*L'] = 'L%d' % n
        if 'Y' in kk:
            f['*Y'] = 'y%d' % n
        if 'W' in kk:
            f['*W'] = 'w%d' % n
        if f:
            out.append(dict(check=check, cls=c, base='max', k=0, focus=f))
    if kk & set('TX'):
        for n in sorted({4, 12} | {x + 1 for x in size_constants() if x < 5000}):
            out.append(dict(check=check, cls=c, base='max', k=0, focus={'*T': 'm%d' % n, '*X': 'm%d' % n}))
    return out


def size_jobs(check, c, tier):
    """long texts and long lists"""
    out = text_size_jobs(check, c, tier)
    for n in sorted(x for x in ({5, 11} | {m for n in size_constants() for m in (n, n + 1)}) if x <= 1100):
        out.append(dict(check=check, cls=c, base='min', k=0, fixed={'#': n}, ifcount=True))
    return out


def struct_jobs(check, c, tier):
    if tier == 'thorough':
        return [dict(check=check, cls=c, base='min', k=3 if c not in HEAVY else 2),
                dict(check=check, cls=c, base='max', k=3 if c not in HEAVY else 2)]
    return [dict(check=check, cls=c, base='min', k=2 if c not in BIG else (2 if c == 'Pad' else 1)),
            dict(check=check, cls=c, base='max', k=2 if c not in BIG else 1)] + (
        [dict(check=check, cls=c, base='min', k=2)] if c in BIG and c != 'Pad' else [])


BORING = ('t0', 't1', 't2', 'w1', 'w3', 'd', 'L1', 'L2', 'y0', 'y1', 'y2')
LETTER_OF = {'T': 't', 'X': 't', 'Y': 'y', 'L': 'L', 'W': 'w', 'U': 'w'}


def harvest_jobs(check, results, seen, rnd=0):
    """further rounds: values the code itself compares the leaves with - whole texts and numbers, parts of
    texts (and room for two such parts together) and lengths a pattern needs"""
    kinds, by = {}, {}
    for r in results:
        j = r['job']
        c = j['cls']
        for n, k, t in r['leaves']:
            kinds.setdefault((c, n), (k, t))
        tag = tuple(j.get(x) for x in KEEP)
        for leaf, kind, const in r['harvest']:
            by.setdefault((tag, c, leaf), set()).add((kind, const))
    own = {(c, leaf.partition('.')[0], x) for (tag, c, leaf), cs in by.items() for x in cs}
    out = []
    for (tag, c, leaf), cs in sorted(by.items(), key=repr):
        if (c, leaf) not in kinds or kinds[c, leaf][0] == '@':
            continue
        lk, top = kinds[c, leaf]
        if not top:
            # what the nested class itself compares with is explored there
            last = leaf.rpartition('.')[2]
            cs = {x for x in cs if not any((d, last, x) in own for d in deps(c))}
        shapes = []
        parts = []
        for kind, const in sorted(cs, key=repr):
            if kind == 'w':
                if lk[0] in LETTER_OF:
                    shapes += ['%s%d' % (LETTER_OF[lk[0]], const + d) for d in (0, 1)]
                continue
            s = shape_of_const(lk, const)
            if s is None:
                continue
            shapes.append(s)
            if kind == 'n' and s[0] == '=':
                shapes += ['=%r' % (const * d) for d in (0.5, 1.5)]
            if kind in 'sp' and s[0] in 'tLyw':
                parts.append(len(const))
                shapes += ['%s%d' % (s[0], len(const) + d) for d in ((1,) if kind == 's' else (1, 2, 4))]
        if lk[0] in LETTER_OF:
            for i, x in enumerate(sorted(set(parts))):
                for y in sorted(set(parts))[i:]:
                    if 2 < x + y <= 60:
                        shapes += ['%s%d' % (LETTER_OF[lk[0]], x + y + d) for d in (0, 1)]
        for s in shapes:
            key = (check, tag, c, leaf, s)
            if key in seen or s in BORING:
                continue
            seen.add(key)
            for base in ('max', 'min'):
                j = dict(check=check, cls=c, base=base, k=small(c, 1, 0), focus={leaf: s}, need=[leaf], alt='min')
                j.update({k: v for k, v in zip(KEEP, tag) if v is not None})
                out.append(j)
    return out


KEEP = ('inplace', 'saved')


VANISH = {'GrPoly', 'GrCurve', 'FpPoly', 'FpCurve', 'ZonePolygon', 'FilledPolygon', 'FillSegments'}      # nothing is written without points


def fidelity(check, classes, tier, omit=True):
    """phases for a 'what you set is what is written and read' property"""
    seen = set()

    def first():
        js = []
        for c in classes:
            js += struct_jobs(check, c, tier)
        for c in classes:
            js += shape_jobs(check, c, tier) + size_jobs(check, c, tier)
            if c in VANISH:
                js += [dict(check='vanish', cls=c, base=b, k=1, field='coordinates') for b in ('min', 'max')]
            if omit:
                js.append(dict(check='omit', cls=c, base='max', k=0))
                js.append(dict(check='omit', cls=c, base='min', k=0))
        return js

    def second(results):
        return harvest_jobs(check, [r for r in results if r['job']['check'] == check], seen)
    return [lambda res: first(), second, second]



# --- heads of every class, for "wrong kind refused" ---------------------------------
HEADS = dict(Footprint=['footprint', 'module'], Connection=['wire', 'bus'], LibTable=['fp_lib_table', 'sym_lib_table'])
NOHEAD = {'LayerToken', 'DesignRules'}       # rows without a token word of their own / a bare sequence of tokens
UNKNOWN_SKIP = {'BusAlias'}                  # documented to have exactly three items


def head_of(c):
    if c in HEADS:
        return HEADS[c]
    if c not in _heads:
        got = []

        @H.check
        def head_only(ctx, e, job, leaves):
            o, t = H.build_pair(e, job, leaves)
            got.append(t[0])
        H.run_job(dict(check='head_only', cls=c, base='min', k=0, slice=None))
        _heads[c] = [x for x in dict.fromkeys(got) if isinstance(x, str)]
    return _heads[c]


_heads = {}


def small(c, a, b):
    return b if c in HEAVY else a


def each(check, tier, k=(1, 0), classes=None, **kw):
    """both baselines of every class; k=(ordinary class, large class)"""
    out = []
    for c in classes or all_classes():
        n = small(c, *k) + (1 if tier == 'thorough' else 0)
        for base in ('min', 'max'):
            out.append(dict(check=check, cls=c, base=base, k=n, **kw))
    return out


def big_first(js):
    """long explorations first"""
    return sorted(js, key=lambda j: j['cls'] not in HEAVY)


def only(classes, *cs):
    return [c for c in classes if c not in cs]


# --- C08, C09, C10 -------------------------------------------------------------------
QT = ['q:t0', 'q:T1', 'q:T2', 'q:T3', 'q:T4']
WORDLIKE = ['dl', 'd.dl', '-l', '-', '+', '+d', '+l', '.l', '.d', 'd.', 'd-d', 'd.d.d', 'lddd', 'd-l', 'ddddlddd-dddd', '--d',
            'd/d', 'd,d', 'dd:dd', 'd_d', '.', 'd.l', '0xd', 'ddeddd', 'de', 'Dl-', '-.', 'd%', '#d', 'd*d', "d'd", '${l}', '*.l', '&l',
            'ddddddddlddd', 'ddlddldd-dddd-dddd-dddd-ddddddddllll', 'nan', 'inf', '-inf', 'NaN', 'infinity', 'None', 'true', 'd<l', 'l=d', 'd;d', '!l', 'l^d']


def text_token_jobs(tier):
    js = []
    n = 6 if tier == 'thorough' else 4
    for i in range(n + 1):
        q = 'q:T%d' % i if i else 'q:t0'
        js += [dict(tree=['w2', q]), dict(tree=['w2', q, 'n:d']), dict(tree=['w2', q, 'w2']), dict(tree=['w2', ['w1', q]], ws=1)]
        for j in range(3 if tier == 'quick' else 4):
            r = 'q:T%d' % j if j else 'q:t0'
            if i + j <= n + 1:
                js += [dict(tree=['w1', q, r]), dict(tree=['w1', q, ['w1', r]])]
    js += [dict(tree=['w1', 'q:T1', 'q:T1', 'q:T1']), dict(tree=['w1', 'q:T2', 'q:T1', 'q:T2'])]
    for i in range(1, n + 1):       # texts ending in a backslash, with no quoted text after them (known finding otherwise)
        js += [dict(tree=['w1', 'q:B%d' % i]), dict(tree=['w1', 'q:B%d' % i, 'n:d']), dict(tree=['w1', 'q:B%d' % i, ['w1', 'n:d']]),
               dict(tree=['w1', ['w1', 'q:B%d' % i], 'w2'], ws=1)]
    for m in sorted({12, 40, 3000} | {x for n in size_constants() for x in (n - 1, n, n + 1)}):
        js += [dict(tree=['w1', 'q:t%d' % m]), dict(tree=['w1', 'q:t%d' % m, 'q:T1'])]
    for m in sorted({4, 12, 40} | {x + 1 for x in size_constants() if x < 5000}):
        js += [dict(tree=['w1', 'q:m%d' % m]), dict(tree=['w1', 'q:m%d' % m, 'q:m2'])]
    return [dict(check='tokens', cls='text', **dict(dict(ws=0), **j)) for j in js]


def number_token_jobs(tier):
    js = []
    for s in shapes_for('N') + ['DddddddddddddD', 'Dd.DddddddddD', '0.0000000D', '-Ddddddddd.D', '0.0', '-0.0', 'd.0', 'Dd.00', '-d.dd0', '00d', '0d.D', '-0',
                              'DdddddddddddddddD', '-DddddddddddddddddddddD']:
        js += [dict(tree=['w1', 'n:' + s, 'n:' + s, ['w1', 'n:' + s], 'n:' + s]), dict(tree=['w1', 'n:' + s, 'w1', 'q:t1', 'n:' + s], ws=1)]
    for m in ('D', '-D', 'D.D', '-D.dD', 'D.ddddD'):
        for ex in ('-1', '-05', '-5', '-07', '+03', '+16', '-12', '+5', '-10'):
            js += [dict(tree=['w1', 'e:%se%s' % (m, ex), 'w1']), dict(tree=['w1', 'e:%se%s' % (m, ex), 'n:d'], ws=1)]
    return [dict(check='tokens', cls='number', **dict(dict(ws=0), **j)) for j in js]


TREES = [['w2'], ['w2', 'w1'], ['w3', ['w2']], ['w1', ['w2', 'n:d'], 'w1'], ['w2', 'n:d.D', 'n:-D', ['w2', 'q:T2'], 'q:t1'],
         ['w2', ['w2', ['w1', ['w1', 'n:d']]]], ['w2', ['w1'], ['w1'], ['w1']], ['w1', ['w1', 'q:t1'], ['w1', 'q:t1'], 'w1'],
         ['w1', 'q:T1', ['w1', ['w1', 'q:T1'], 'q:T1'], 'n:d'], ['w9', ['w9', 'w9']], ['w1', [], 'w1'], ['w1', [[], []]],
         [['w1'], ['w1']], ['n:d', ['n:d.D', 'w1'], 'n:-d.D'], ['q:T2', ['q:T2']]]


def deep(n, q='q:t1'):
    t = ['w1', 'n:d', q]
    for i in range(n):
        t = ['w1', t] if i % 3 else ['w1', t, 'n:d']
    return t


def wide(n, q='q:t1'):
    return ['w1'] + [['w1', 'n:d'] if i % 4 == 1 else q if i % 4 == 2 else 'w2' if i % 4 == 3 else 'n:-d.D' for i in range(n)]


def structure_jobs(tier):
    js = []
    for t in TREES:
        for ws in (0, 1, 2) + ((3, 4) if tier == 'thorough' else ()):
            js.append(dict(tree=t, ws=ws))
        for lead in (1, 2):
            js.append(dict(tree=t, ws=0, lead=lead))
    cs = sorted(x for x in size_constants() if x <= 2100)
    ns = sorted({3, 8, 20, 60, 250} | {m for n in cs for m in (n, n + 1)} | ({150} if tier == 'thorough' else set()))
    for n in ns:
        js += [dict(tree=deep(n), ws=0), dict(tree=wide(n), ws=0)]
    for s in WORDLIKE:
        js += [dict(tree=['w1', 'x:' + s]), dict(tree=['w1', 'x:' + s, ['w1', 'x:' + s], 'x:' + s], ws=1), dict(tree=['w1', 'x:' + s, 'n:d', 'q:t1'])]
    for n in list(range(1, 13)) + [36, 64]:
        js.append(dict(tree=['w%d' % n, 'w%d' % n]))
    js = [dict(check='tokens', cls='structure', **dict(dict(ws=0), **j)) for j in js]
    bad = [['w1'], ['w1', ['w1', 'p:2']], ['w1', 'n:d', ['w1'], 'w1'], ['w1', ['w1', ['w1', 'p:1'], 'p:2']], ['w2', ['w1', 'n:d.D'], ['w1', 'p:2']],
           ['w1', ['w1', ['w1', ['w1', 'w1']]]]] + ([deep(8, 'p:1'), wide(9, 'p:1')] if tier == 'thorough' else [deep(3, 'p:1')])
    js += [dict(check='badtokens', cls='unbalanced', tree=t, how=h, ws=w) for t in bad for h in ('drop', 'dup', 'cut') for w in (0, 1)]
    return js


# --- C16 -----------------------------------------------------------------------------
def libid_jobs(tier):
    js = []
    ls = ['L1', 'L2', 'L3', 'L5', 'Q3'] + (['L8', 'L12', 'Q4'] if tier == 'thorough' else [])
    for c in ('Symbol', 'Footprint', 'SchematicSymbol'):
        for ns in ls[:4]:
            for es in ls:
                for first in (None, 'a:b', 'c') + (('d_1_2',) if c == 'Symbol' else ()):
                    b = dict(check='libid', cls=c, shapes=[ns, es], first=first)
                    js += [dict(b, how='nick'), dict(b, how='nick', colon=1), dict(b, how='plain')]
                    if c == 'Symbol':
                        js += [dict(b, how='unit', ushape=u) for u in (['d', 'd'], ['Dd', 'd'], ['d', 'Dd'], ['Ddd', 'Dd'])]
                        js += [dict(b, how=h, units=u) for h in ('nick', 'plain') for u in (1, 2, 3)]
                        js += [dict(b, how='unit', ushape=['d', 'd'], units=2)]
                        js += [dict(b, how='nick', units=u, colon=1) for u in (1, 2)]
    for c in ('Symbol', 'Footprint', 'SchematicSymbol'):
        js += [j for j in shape_jobs('rt', c, tier, kinds='L')]
        js += [dict(check='wr', cls=c, base='min', k=1), dict(check='wr', cls=c, base='max', k=0)]
    return js


# --- C17 -----------------------------------------------------------------------------
def file_jobs(tier):
    js = []
    for c in FAMILY.values():
        for enc in (None, 'utf-8', 'utf-16', 'latin-1', 'ascii'):
            for op in ('save', 'saveover', 'savedefault', 'savepriority', 'load', 'resave', 'seq', 'nopath', 'missing', 'wrong'):
                if op == 'wrong' and c == 'DesignRules':
                    continue
                for base in ('max', 'min'):
                    if op in ('missing', 'wrong', 'nopath') and base == 'max':
                        continue
                    js.append(dict(check='files', cls=c, op=op, enc=enc, base=base,
                                   k=(1 if base == 'min' and op in ('save', 'load') else 0) + (1 if tier == 'thorough' else 0)))
        js.append(dict(check='files', cls=c, op='bomb', enc=None, base='max', k=0))
        js += [dict(check='files', cls=c, op='encfail', enc=enc, base=base, k=0) for enc in ('ascii', 'latin-1') for base in ('min', 'max')]
        js += [dict(check='files', cls=c, op='decfail', enc='ascii', base=base, k=0) for base in ('min', 'max')]
        if tier == 'quick':
            continue
        js.append(dict(check='files', cls=c, op='bomb', enc='utf-8', base='max', k=1))
    return js


# --- C18 -----------------------------------------------------------------------------
def created_jobs(tier):
    js = []
    tx = [('T3', 't2'), ('t2', 'T3'), ('t0', 't0'), ('t0', 't2'), ('t2', 't0')] + ([('T4', 'T3'), ('t40', 't40')] if tier == 'thorough' else [])
    for vs, rs in tx:
        for t in ('smd', 'through_hole', 'other'):
            js.append(dict(check='created', cls='Footprint', type=t, vs=vs, rs=rs))
        js += [dict(check='created', cls='Footprint', type='smd', vs=vs, rs=rs, nargs=n) for n in (2, 3)]
        js.append(dict(check='created', cls='Symbol', vs=vs, rs=rs))
    for fs in ('t0', 't2', 'T3'):
        for ds in ('t0', 't2', 'T3'):
            js.append(dict(check='created', cls='Symbol', vs='t2', rs='t2', fs=fs, ds=ds))
            js.append(dict(check='created', cls='Symbol', vs=fs, rs=ds, nargs=3))
            js.append(dict(check='created', cls='Symbol', vs='t2', rs=ds, fs=fs, nargs=4))
    js += [dict(check='badtype', cls='Footprint', shape='t%d' % n) for n in (0, 1, 3, 5, 12, 13)]
    js += [dict(check='created', cls='LibTable', type=t) for t in ('sym_lib_table', 'fp_lib_table', None)]
    js += [dict(check='created', cls=c) for c in ('Board', 'Schematic', 'DesignRules', 'WorkSheet')]
    js += [dict(check='edittime', cls='Footprint', n=n) for n in range(1, 10)]
    from checks import FRESH_SKIP
    js += each('fresh', tier, k=(1, 0), classes=only(all_classes(), *FRESH_SKIP))
    return js


# names KiCad used in earlier versions, or that only some forms of the item have
ALSO_KNOWN = dict(Footprint=['dimension'], Pad=['dimension'], Schematic=['bus'], WorkSheet=['polygon'], StackupLayer=['addsublayer'],
                  WksFont=['linewidth', 'size'])


def unknown_jobs(tier):
    js = each('unknown', 'quick', k=(0, 0), classes=only(all_classes(), *UNKNOWN_SKIP, *HEAVY))
    js += each('unknown', 'quick', k=(0, 0), classes=[c for c in HEAVY], variants=1 if tier == 'quick' else 3)
    for c in only(all_classes(), *UNKNOWN_SKIP):
        js += [dict(check='unknown', cls=c, base=b, k=0, many=m) for b in ('min', 'max') for m in ('each', 7)]
        deps(c)
        names = sorted(set(_kids[c]) | set(ALSO_KNOWN.get(c, ())))
        for d in (-1, 0, 1, 2) + ((-2, 3, 4) if tier == 'thorough' else ()):
            for base in ('max',) + (('min',) if tier == 'thorough' or c not in HEAVY else ()):
                js.append(dict(check='unknown', cls=c, base=base, k=0, names=names, delta=d))
    return js


def reject_jobs(tier):
    js = []
    for c in all_classes():
        if c in NOHEAD:
            continue
        hs = head_of(c)
        if not hs:
            continue
        lens = range(1, 17 if tier == 'quick' else 33)
        for how in ['w%d' % n for n in lens] + ['text', 'head', 'none', 'num']:
            for base in ('min', 'max') if how[0] != 'w' or int(how[1:]) in {len(h) + d for h in hs for d in (-1, 0, 1)} else ('min',):
                js.append(dict(check='reject', cls=c, base=base, k=0, how=how, heads=hs))
    return js


def incomplete_jobs(tier):
    js = each('short', tier, k=(1, 0), how='child') + each('short', tier, k=(0, 0), how='inner') + each('short', tier, k=(1, 0), how='own')
    for b in ('min', 'max'):
        for s in ('d', 'd.D', '-D', 'Dd', 'Ddd') + (('0.0000D', 'Ddd.dddD') if tier == 'thorough' else ()):
            js.append(dict(check='inexpressible', cls='PageSettings', base=b, k=1, how='user', shape=s))
            js += [dict(check='inexpressible', cls=c, base=b, k=1, how='box', shape=s) for c in ('GrTextBox', 'FpTextBox')]
        js += [dict(check='inexpressible', cls=c, base=b, k=small(c, 1, 0), how='empty', field=f) for c, f in (('Zone', 'layers'), ('Dimension', 'pts'))]
        js.append(dict(check='inexpressible', cls='Footprint', base=b, k=0, how='token', name='dimension'))
        js.append(dict(check='inexpressible', cls='Pad', base=b, k=0, how='token', name='dimension', into='primitives'))
        js.append(dict(check='inexpressible', cls='WorkSheet', base=b, k=0, how='token', name='polygon'))
        js.append(dict(check='inexpressible', cls='BusAlias', base=b, k=1, how='members'))
    return js


def history_jobs(tier):
    js = each('pure', tier, k=(1, 0))
    for c in all_classes():
        for base, base2 in (('min', 'max'), ('max', 'min'), ('min', 'min'), ('max', 'max')):
            js.append(dict(check='history', cls=c, base=base, base2=base2, k=small(c, 1, 0) if base != base2 or tier == 'thorough' else 0))
    # many operations in between, and failed ones
    cs = sorted(x + 1 for x in size_constants() if x <= 300)
    for c in all_classes():
        js.append(dict(check='history', cls=c, base='min', base2='min', k=0, wear=max([20 if tier == 'quick' else 150] + cs)))
        for b in ('min', 'max') if tier == 'thorough' or small(c, 1, 0) else ('min',):
            js.append(dict(check='history', cls=c, base=b, base2=b, k=0, fail=True))
    # a class after the file kind it occurs in
    for c in all_classes():
        for f in FAMILY.values():
            if c != f and c in closure(f):
                js.append(dict(check='history', cls=c, cls2=f, base='max', base2='max', k=0))
    # every pair of file kinds
    roots = list(FAMILY.values())
    for a in roots:
        for b in roots:
            if a != b:
                js.append(dict(check='history', cls=a, cls2=b, base='min', base2='min', k=0))
                js.append(dict(check='history', cls=a, cls2=b, base='max', base2='min', k=0))
    return js


# words with a fixed place in the token: they belong to what follows or precedes them
FIXED_WORDS = {'PageSettings', 'StackupLayer', 'GrText', 'GrTextBox', 'FpTextBox', 'SyTextBox', 'Model', 'DrillDefinition', 'FillSettings'}


def word_jobs(tier):
    return [dict(check='permute', cls=c, base=b, k=small(c, 1, 0), words=2 if c in ('Attributes', 'Footprint') else 1)
            for c in only(all_classes(), *FIXED_WORDS) for b in ('min', 'max')]


def layout_jobs(tier):
    js = []
    for c in all_classes():
        for base in ('min', 'max'):
            js.append(dict(check='layout', cls=c, base=base, k=small(c, 1, 0) + (1 if tier == 'thorough' else 0), exact=c not in LAYOUT_LOOSE))
            js.append(dict(check='layout', cls=c, base=base, k=0, ishape='Dd', exact=c not in LAYOUT_LOOSE))
    return js


LAYOUT_LOOSE = {'DesignRules'}         # known finding: always ends with a newline, whatever is asked for


def edit_jobs(tier):
    js = []
    for c in all_classes():
        for base in ('min', 'max'):
            for base2 in ('min', 'max'):
                for inplace in (False, True):
                    js.append(dict(check='edit', cls=c, base=base, base2=base2, inplace=inplace, saved=inplace,
                                   k=small(c, 1, 0) + (1 if tier == 'thorough' else 0)))
    return js


def with_harvest(check, first):
    seen = set()

    def second(results):
        return harvest_jobs(check, [r for r in results if r['job']['check'] == check and r['job']['cls'] in SPECS], seen)
    return [lambda res: big_first(first()), second, second]


def phases(prop, tier):
    if prop in FAMILY:
        return fidelity('wr', closure(FAMILY[prop]), tier)
    if prop == 'C08':
        def first():
            js = text_token_jobs(tier)
            for c in all_classes():
                js += [j for j in shape_jobs('rt', c, tier, kinds='TXYL')] + text_size_jobs('rt', c, tier)
            return js
        return with_harvest('rt', first)
    if prop == 'C09':
        def first():
            js = number_token_jobs(tier)
            for c in all_classes():
                js += shape_jobs('rt', c, tier, kinds='NIPFJ')
            return js
        return with_harvest('rt', first)
    if prop == 'C10':
        return [lambda res: structure_jobs(tier)]
    if prop == 'C11':
        return [lambda res: big_first(each('permute', tier, k=(1, 0)) + word_jobs(tier))]
    if prop == 'C12':
        return [lambda res: reject_jobs(tier)]
    if prop == 'C13':
        return with_harvest('pure', lambda: history_jobs(tier))
    if prop == 'C14':
        return [lambda res: big_first(layout_jobs(tier))]
    if prop == 'C15':
        def first():
            js = []
            for c in all_classes():
                js += struct_jobs('stable', c, tier) if c not in HEAVY or tier == 'thorough' else each('stable', tier, k=(1, 1), classes=[c])
                js += shape_jobs('stable', c, tier)
                js += [dict(check='stable', cls=c, base=b, k=0, omit=True) for b in ('min', 'max')]
            return js
        return with_harvest('stable', first)
    if prop == 'C16':
        return [lambda res: libid_jobs(tier)]
    if prop == 'C17':
        return [lambda res: big_first(file_jobs(tier))]
    if prop == 'C18':
        return [lambda res: big_first(created_jobs(tier))]
    if prop == 'C19':
        return [lambda res: big_first(unknown_jobs(tier))]
    if prop == 'C21':
        return [lambda res: big_first(incomplete_jobs(tier))]
    if prop == 'C20':
        return with_harvest('edit', lambda: edit_jobs(tier))
    raise KeyError(prop)


FINDINGS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.json')


def known(prop):
    """the recorded findings of this property that the code still shows (replayed on the real code)"""
    from vsym import concrete
    out = []
    with open(FINDINGS) as f:
        for k in json.load(f):
            if k['status'] != 'known' or k['property'] != prop:
                continue
            try:
                err = concrete.run(k['scenario'])
            except Exception as ex:
                err = repr(ex)
            if err:
                out.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    return out


SHAPES = ('numbers: %s (D digit 1-9, d digit 0-9, each position symbolic); integers: %s; texts: 0-3 characters over all Unicode '
          'scalar values (last one not a backslash) per attribute, plus lengths 12, 40 and every length the code itself compares with; '
          'words: letter followed by printable characters, lengths 1, 3, 9 and those the code compares with; uuids: 4 and 8 character words and 36 '
          'character hex ids' % (' '.join(shapes_for('N')), ' '.join(shapes_for('I'))))
STRUCT = ('per class: every attribute combination that differs in at most k optional tokens / choices / list lengths from the smallest '
          'and from the fullest item (k=%s); lists of 0-3 entries, plus 5, 11 and every length constant found in the code; nested items at their '
          'smallest or fullest form, each nested class explored by itself in the same way')


def bounds(prop, tier):
    th = tier == 'thorough'
    b = dict(values=SHAPES)
    k = '3, large classes 2' if th else '2, large classes 1-2'
    k1 = '2, large classes 1' if th else '1, large classes 0'
    if prop in FAMILY:
        b['structure'] = STRUCT % k
        b['classes'] = closure(FAMILY[prop])
    elif prop in ('C08', 'C09'):
        b['structure'] = 'every text/number attribute of every class, in the fullest form of its item (smallest form if it cannot occur there); token texts of up to %d characters' % (6 if th else 4)
        b['classes'] = all_classes()
    elif prop == 'C10':
        b['structure'] = 'token tree templates with up to %d levels and %d entries, symbolic words, numbers, texts; 0-%d symbolic white space characters at every gap; every bracket dropped or doubled and every cut position in the unbalanced templates' % (150 if th else 120, 150 if th else 120, 4 if th else 2)
    elif prop == 'C11':
        b['structure'] = STRUCT % k1 + '; orders: each named token first, each last, complete reversal, each switch word at every place'
    elif prop == 'C12':
        b['structure'] = 'token names: every word of 1-%d characters other than the right one; any text of 3 characters, any two-digit number, the bare token name, None' % (32 if th else 16)
    elif prop in ('C13', 'C20'):
        b['structure'] = STRUCT % k1 + '; two objects per history (same class in both forms, and all pairs of file kinds)' + ('; one operation repeated 20 times (or more often than any size constant in the code) before; failed loads and saves before' if prop == 'C13' else '')
    elif prop == 'C14':
        b['structure'] = STRUCT % k1 + '; indentation 0-99, both newline settings'
    elif prop == 'C15':
        b['structure'] = STRUCT % k + '; additionally every single named token left out'
    elif prop == 'C21':
        b['structure'] = STRUCT % k1 + '; one token at a time cut before a value it needs: the item itself, a named token in it, or a named token at any depth of it'
    elif prop == 'C16':
        b['structure'] = 'nicknames of 1-5 and entry names of 1-%d characters (with and without a further colon), unit and style numbers up to 3 digits, 0-3 units, earlier identifier of each form' % (12 if th else 5)
    elif prop == 'C17':
        b['structure'] = STRUCT % k1 + '; two files in an in-memory file system, file names with two symbolic characters; operations save, overwrite, default path, path argument over remembered path, load, load and save again, save under two names, no path, missing file, wrong kind, unsaveable item in each list, text that the encoding cannot express, bytes that the encoding does not allow'
    elif prop == 'C18':
        b['structure'] = STRUCT % k1 + '; one attribute at a time given, the others at their defaults'
    elif prop == 'C19':
        b['structure'] = 'fullest and smallest form of every class, one unknown token at every position, one at every gap together, seven in a row, names differing from every known one with the content of a known token; %s' % ('three kinds of content' if th else 'three kinds of content (large classes: one)')
    b['outside'] = 'longer texts and lists, more simultaneous deviations, attribute combinations the format tables exclude (see DESIGN.md)'
    return b


ASSUME = ['the format tables in spec/ state what KiCad documents for each token (they are the oracle)',
          'symbolic models of str, re, float, int, dict and list in vsym/ agree with CPython; validated on every run by replaying path models on the unmodified package',
          'text attributes do not end in a backslash; unquoted words start with a letter; library nicknames contain no colon',
          'z3 answers are correct']


def assumptions(prop):
    a = list(ASSUME)
    if prop == 'C17':
        a.append('open(), os.path and pathlib are replaced by an in-memory model; counterexamples are replayed on a real scratch directory; texts contain no carriage return (known finding)')
    if prop == 'C12':
        a.append('layer table rows and the bare design rule sequence have no token name of their own and are left out')
    if prop == 'C19':
        a.append('bus aliases have a fixed number of items and are left out')
    return a


if __name__ == '__main__':          # python3-vt plan.py : refresh spec/leaves.json after changing a format table
    H.load()
    import checks  # noqa: F401
    prepare(8, write=True)
