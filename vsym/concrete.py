"""Concrete execution of scenarios on the unmodified package (no z3 here)."""
import importlib
import math

MODS = ['items.common', 'items.brditems', 'items.gritems', 'items.fpitems', 'items.syitems',
        'items.schitems', 'items.zones', 'items.dimensions', 'board', 'footprint', 'symbol',
        'schematic', 'libraries', 'dru', 'wks']


def find_class(name, mod=None):
    name, _, m = name.partition('@')
    mod = mod or m
    if mod:
        return getattr(importlib.import_module('kiutils.' + mod), name)
    for m in MODS:
        try:
            mm = importlib.import_module('kiutils.' + m)
        except ImportError:
            continue
        c = getattr(mm, name, None)
        if isinstance(c, type) and c.__module__ == mm.__name__:
            return c
    for m in MODS:
        c = getattr(importlib.import_module('kiutils.' + m), name, None)
        if isinstance(c, type):
            return c
    raise KeyError(name)


def parse(text, cname=None):
    if cname == 'DesignRules':
        text = '(' + text + ')'
    return importlib.import_module('kiutils.utils.sexpr').parse_sexp(text)


def make(j):
    if isinstance(j, dict):
        if '$dict' in j:
            return {make(k): make(v) for k, v in j['$dict']}
        c = find_class(j['$cls'])
        return c(**{k: make(v) for k, v in j['f'].items()})
    if isinstance(j, list):
        return [make(x) for x in j]
    return j


def short(x):
    r = repr(x)
    return r if len(r) < 200 else r[:200] + '...'


def diff(exp, got, loc='value'):
    """None if equal, else description"""
    if isinstance(exp, dict) and '$cls' in exp:
        if type(got).__name__ != exp['$cls'].partition('@')[0]:
            return '%s: expected a %s, got %s' % (loc, exp['$cls'], short(got))
        for k, v in exp['f'].items():
            if not hasattr(got, k):
                return '%s.%s: attribute missing' % (loc, k)
            d = diff(v, getattr(got, k), loc + '.' + k)
            if d:
                return d
        return None
    if isinstance(exp, dict) and '$dict' in exp:
        e = {make(k): v for k, v in exp['$dict']}
        if not isinstance(got, dict) or len(e) != len(got):
            return '%s: expected %s, got %s' % (loc, short(e), short(got))
        for k, v in e.items():
            if k not in got or [x for x in got if x == k and isinstance(x, bool) == isinstance(k, bool)] == []:
                return '%s: key %s missing in %s' % (loc, short(k), short(got))
            d = diff(v, got[k], '%s[%r]' % (loc, k))
            if d:
                return d
        return None
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)):
            return '%s: expected a list, got %s' % (loc, short(got))
        if len(exp) != len(got):
            return '%s: expected %d entries %s, got %d %s' % (loc, len(exp), short(exp), len(got), short(got))
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, '%s[%d]' % (loc, i))
            if d:
                return d
        return None
    if isinstance(exp, bool) or isinstance(got, bool) or exp is None or got is None:
        return None if exp is got else '%s: expected %s, got %s' % (loc, short(exp), short(got))
    if isinstance(exp, (int, float)) and isinstance(got, (int, float)):
        return None if exp == got else '%s: expected %s, got %s' % (loc, short(exp), short(got))
    if type(exp) is not type(got) or exp != got:
        return '%s: expected %s, got %s' % (loc, short(exp), short(got))
    return None


def exc(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


@kind
def write(s):
    o = make(s['obj'])
    try:
        text = o.to_sexpr()
    except Exception as e:
        return 'to_sexpr raised ' + exc(e)
    try:
        tree = parse(text, s['obj']['$cls'])
    except Exception as e:
        return 'written text cannot be tokenised: %s; text %s' % (exc(e), short(text))
    d = diff(s['tree'], tree, 'token')
    return d and 'written tokens: %s; text %s' % (d, short(text))


@kind
def read(s):
    c = find_class(s['cls'])
    try:
        o = c.from_sexpr(s['tree'])
    except Exception as e:
        return 'from_sexpr raised ' + exc(e)
    d = diff(s['obj'], o, s['cls'])
    return d and 'loaded object: ' + d


@kind
def rt(s):
    c = find_class(s['cls'])
    o = make(s['obj'])
    try:
        g = c.from_sexpr(parse(o.to_sexpr(), s['obj']['$cls']))
    except Exception as e:
        return 'saving and loading raised ' + exc(e)
    d = diff(s['back'], g, s['cls'])
    return d and 'after saving and loading: ' + d


@kind
def stable(s):
    c = find_class(s['cls'])
    try:
        s1 = c.from_sexpr(s['tree']).to_sexpr()
        s2 = c.from_sexpr(parse(s1, s['cls'])).to_sexpr()
    except Exception as e:
        return 'load, save, load, save raised ' + exc(e)
    d = diff(parse(s1, s['cls']), parse(s2, s['cls']), 'token')
    return d and 'saved again: %s; text %s then %s' % (d, short(s1), short(s2))


@kind
def resave(s):
    c = find_class(s['cls'])
    d = diff(s['tree'], parse(c.from_sexpr(jcopy(s['tree'])).to_sexpr(), s['cls']), 'token')
    return d and 'loaded and saved: ' + d


@kind
def text(s):
    d = diff(s['obj'], find_class(s['cls']).from_sexpr(parse(s['text'], s['cls'])), s['cls'])
    return d and 'loaded from %s: %s' % (short(s['text']), d)


@kind
def reject(s):
    c = find_class(s['cls'])
    try:
        o = c.from_sexpr(s['tree'])
    except Exception:
        return None
    return 'accepted %s as %s' % (short(s['tree']), short(o))


@kind
def refuse_write(s):
    o = make(s['obj'])
    try:
        text = o.to_sexpr()
    except Exception:
        return None
    return 'saved although it has no form in the file: %s' % short(text)


def mutables(x, acc=None):
    acc = {} if acc is None else acc
    if isinstance(x, (list, set)):
        if id(x) not in acc:
            acc[id(x)] = x
            for y in x:
                mutables(y, acc)
    elif isinstance(x, dict):
        if id(x) not in acc:
            acc[id(x)] = x
            for y in x.values():
                mutables(y, acc)
    elif type(x).__module__.startswith('kiutils') and not isinstance(x, type) and hasattr(x, '__dict__'):
        if id(x) not in acc:
            acc[id(x)] = x
            for k, y in vars(x).items():
                if k[0] != '_':
                    mutables(y, acc)
    return acc


def twice(x, acc=None):
    """a mutable part that x holds in two places, or None"""
    acc = set() if acc is None else acc
    if isinstance(x, list):
        ys = x
    elif isinstance(x, dict):
        ys = list(x.values())
    elif type(x).__module__.startswith('kiutils') and not isinstance(x, type) and hasattr(x, '__dict__'):
        ys = [y for k, y in vars(x).items() if k[0] != '_']
    else:
        return None
    if id(x) in acc:
        return short(x)
    acc.add(id(x))
    for y in ys:
        r = twice(y, acc)
        if r is not None:
            return r
    return None


def shared(a, b):
    ma, mb = mutables(a), mutables(b)
    s = [v for k, v in ma.items() if k in mb]
    return short(s[0]) if s else None


def jcopy(t):
    return [jcopy(x) for x in t] if isinstance(t, list) else t


@kind
def pure(s):
    c = find_class(s['cls'])
    o = make(s['obj'])
    try:
        s1, s2 = o.to_sexpr(), o.to_sexpr()
    except Exception as e:
        return 'saving twice raised ' + exc(e)
    if s1 != s2:
        return 'saving twice gives different text: %s then %s' % (short(s1), short(s2))
    d = diff(s['obj'], o, s['cls'])
    if d:
        return 'saving changed the object: ' + d
    t = jcopy(s['tree'])
    try:
        g1, g2 = c.from_sexpr(t), c.from_sexpr(t)
    except Exception as e:
        return 'loading twice raised ' + exc(e)
    d = diff(s['tree'], t, 'input')
    if d:
        return 'loading changed its input: ' + d
    x = shared(g1, g2)
    if x:
        return 'two loaded objects share ' + x
    x = twice(g1)
    if x:
        return 'two parts of a loaded object are one ' + x
    x = shared(g1, t)
    if x:
        return 'the loaded object shares with its input ' + x
    try:
        a, b = c(), c()
    except TypeError:
        return None
    x = twice(a)
    if x:
        return 'two parts of a new object are one ' + x
    x = shared(a, b) or shared(g1, a)
    return x and 'separately created objects share ' + x


def spoil(cl, obj, tree, fail, parse):
    def attempt(fn):
        try:
            fn()
        except Exception:
            pass
    text = obj.to_sexpr()
    attempt(lambda: parse(text[:-2]))
    attempt(lambda: parse(text[:len(text) // 2]))
    attempt(lambda: parse(text + ')'))
    attempt(lambda: cl.from_sexpr(tree[:1]))
    attempt(lambda: cl.from_sexpr(tree + [list(fail)]))
    attempt(lambda: cl.from_sexpr(['zz'] + tree[1:]))
    for k, v in list(vars(obj).items()):
        if isinstance(v, list):
            v.append(Bomb())
            attempt(obj.to_sexpr)
            v.pop()


@kind
def history(s):
    c1, c2 = find_class(s['c1']), find_class(s['c2'])
    a, b = make(s['w1']), make(s['w2'])
    n1, n2 = s['w1']['$cls'], s['w2']['$cls']
    try:
        for i in range(s.get('wear', 0)):
            parse('(a (b %d) "c")' % i)
            c2.from_sexpr(jcopy(s['r2']))
            b.to_sexpr()
        if s.get('fail') is not None:
            spoil(c2, make(s['w2']), jcopy(s['r2']), s['fail'], lambda t: parse(t, n2))
        s1 = a.to_sexpr()
        p1 = parse(s1, n1)
        g1 = c1.from_sexpr(jcopy(s['r1']))
        p2 = parse(b.to_sexpr(), n2)
        g2 = c2.from_sexpr(jcopy(s['r2']))
        p3 = parse(a.to_sexpr(), n1)
        g3 = c1.from_sexpr(jcopy(s['r1']))
        p4 = parse(s1, n1)
    except Exception as e:
        return 'sequence raised ' + exc(e)
    for exp, got, w in ((s['x2'], p2, 'saved after another object'), (s['v2'], g2, 'loaded after another object'),
                        (s['x1'], p3, 'saved again later'), (s['v1'], g3, 'loaded again later'),
                        (s['v1'], g1, 'object loaded earlier')):
        d = diff(exp, got, 'value')
        if d:
            return '%s: %s' % (w, d)
    x = shared(p1, p4)
    return x and 'tokenising the same text twice shares ' + x


@kind
def layout(s):
    o = make(s['obj'])
    try:
        import inspect
        kw = dict(indent=s['indent'], newline=s['newline'])
        if 'newline' not in inspect.signature(type(o).to_sexpr).parameters:
            del kw['newline']
        text = o.to_sexpr(**kw)
        tree = parse(text, s['obj']['$cls'])
    except Exception as e:
        return 'saving with indent=%r newline=%r raised %s' % (s['indent'], s['newline'], exc(e))
    d = diff(s['tree'], tree, 'token')
    if d:
        return 'indent=%r newline=%r: %s' % (s['indent'], s['newline'], d)
    if s['exact']:
        lead = len(text) - len(text.lstrip(' '))
        if lead != s['indent']:
            return 'first line indented by %d instead of %d' % (lead, s['indent'])
        if 'newline' in kw and text.endswith('\n') != s['newline']:
            return 'newline=%r but text ends %r' % (s['newline'], text[-3:])
    return None


@kind
def tokens(s):
    try:
        t = parse(s['text'])
    except Exception as e:
        return 'tokenising %s raised %s' % (short(s['text']), exc(e))
    d = diff(s['tree'], t, 'token')
    return d and 'text %s: %s' % (short(s['text']), d)


@kind
def badtokens(s):
    try:
        t = parse(s['text'])
    except Exception:
        return None
    return 'unbalanced text %s accepted as %s' % (short(s['text']), short(t))


@kind
def vanish(s):
    text = make(s['obj']).to_sexpr()
    return 'an item without points is written: ' + short(text) if text.strip(' \n') else None


@kind
def edittime(s):
    from kiutils.utils.strings import remove_prefix
    return diff(s['text'], remove_prefix('0x' + s['text'], '0x'), 'tedit')


@kind
def libid(s):
    c = find_class(s['cls'])
    try:
        kw = {}
        if s['units']:
            kw['units'] = [c(entryName=n, unitId=u, styleId=t) for n, u, t in s['units']]
        o = c(**kw)
        if s['first']:
            o.libId = s['first']
        o.libId = s['ident']
        back = o.libId
    except Exception as e:
        return 'setting identifier %s raised %s' % (short(s['ident']), exc(e))
    for k, v in s['f'].items():
        d = diff(v, getattr(o, k), k)
        if d:
            return 'identifier %s: %s' % (short(s['ident']), d)
    d = diff(s['ident'], back, 'libId')
    if d:
        return d
    for i, (_, u, t) in enumerate(s['units']):
        d = diff('%s_%d_%d' % (s['f']['entryName'], u, t), o.units[i].libId, 'units[%d].libId' % i)
        if d:
            return d
    return None


def assign(obj, j, inplace):
    for k, v in j['f'].items():
        cur = getattr(obj, k, None)
        isobj = isinstance(v, dict) and '$cls' in v
        if inplace and isobj and type(cur).__name__ == v['$cls'].partition('@')[0]:
            assign(cur, v, inplace)
        elif inplace and isinstance(v, list) and isinstance(cur, list):
            while len(cur) > len(v):
                cur.pop()
            for i, x in enumerate(v):
                xo = isinstance(x, dict) and '$cls' in x
                if i < len(cur) and xo and type(cur[i]).__name__ == x['$cls'].partition('@')[0]:
                    assign(cur[i], x, inplace)
                elif i < len(cur):
                    cur[i] = make(x)
                else:
                    cur.append(make(x))
        elif inplace and isinstance(v, dict) and '$dict' in v and isinstance(cur, dict):
            cur.clear()
            cur.update(make(v))
        else:
            setattr(obj, k, make(v))


@kind
def edit(s):
    c = find_class(s['cls'])
    try:
        x = c.from_sexpr(jcopy(s['start']))
        if s['saved']:
            x.to_sexpr()
        assign(x, s['obj'], s['inplace'])
        text = x.to_sexpr()
        tree = parse(text, s['obj']['$cls'])
    except Exception as e:
        return 'editing and saving raised ' + exc(e)
    d = diff(s['tree'], tree, 'token')
    return d and 'saved after an edit: %s; text %s' % (d, short(text))


class Bomb:
    def to_sexpr(self, *a, **k):
        raise ValueError('unsaveable item')


@kind
def files(s):
    import codecs
    import os
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vsymfs')
    try:
        name, other = os.path.join(tmp, s['name']), os.path.join(tmp, 'g.x')
        c = find_class(s['cls'])
        obj = make(s['obj'])
        kw = dict(encoding=s['enc']) if s['enc'] else {}
        en = s['enc'] or 'utf-8'
        op = s['op']

        def put(p, t, e='utf-8'):
            with open(p, 'w', encoding=e, newline='') as f:
                f.write(t)

        def get(p, e='utf-8'):
            with open(p, 'rb') as f:
                return f.read().decode(e)
        if op in ('nopath', 'missing', 'bomb', 'wrong', 'encfail', 'decfail'):
            put(other, 'keep')
            if op == 'wrong':
                put(name, '(zz_abc (version 1))')
            try:
                if op == 'nopath':
                    obj.filePath = None
                    obj.to_file(**kw)
                elif op == 'decfail':
                    put(name, obj.to_sexpr(), 'latin-1')
                    c.from_file(name, encoding='utf-8')
                elif op in ('missing', 'wrong'):
                    c.from_file(name, **kw)
                else:
                    put(name, 'precious')
                    f = s.get('bomb')
                    if f:
                        setattr(obj, f, list(getattr(obj, f)) + [Bomb()])
                    obj.to_file(name, **kw)
            except Exception:
                pass
            else:
                return '%s: no exception' % op
            want = {'g.x'} | ({s['name']} if op in ('bomb', 'wrong', 'encfail', 'decfail') else set())
            if set(os.listdir(tmp)) != want:
                return '%s: files are now %s' % (op, sorted(os.listdir(tmp)))
            if get(other) != 'keep':
                return '%s: another file was changed' % op
            if op == 'wrong' and get(name) != '(zz_abc (version 1))':
                return 'loading a file of another kind changed it'
            if op in ('bomb', 'encfail') and get(name) != 'precious':
                return 'failed save destroyed the existing file (now %s)' % short(get(name))
            return None
        text = obj.to_sexpr()
        try:
            if op in ('load', 'resave', 'seq'):
                put(name, text, en)
                put(other, '(x)')
                g = c.from_file(name, **kw)
                if op == 'load':
                    d = diff(s['back'], g, s['cls'])
                    if d:
                        return 'loaded from file: ' + d
                    if g.filePath != name:
                        return 'filePath is %r' % (g.filePath,)
                else:
                    put(name, 'stale')
                    text = c.from_sexpr(parse(text, s['cls'])).to_sexpr()
                    if op == 'seq':
                        g.to_file(other, **kw)
                        if get(other, en) != text:
                            return 'saved under another name: %s' % short(get(other, en))
                        put(other, '(x)')
                    g.to_file(**kw)
                    if get(name, en) != text:
                        return 'saved again: %s' % short(get(name, en))
                if get(name, en) != text or get(other) != '(x)':
                    return 'files changed'
            else:
                put(other, 'keep')
                if op == 'saveover':
                    put(name, 'old and much longer than anything else ' * 9)
                if op in ('save', 'saveover'):
                    obj.to_file(name, **kw)
                elif op == 'savedefault':
                    obj.filePath = name
                    obj.to_file(**kw)
                elif op == 'savepriority':
                    obj.filePath = other
                    obj.to_file(name, **kw)
                    if obj.filePath != other:
                        return 'saving under another name changed the remembered path to %r' % (obj.filePath,)
                if set(os.listdir(tmp)) != {'g.x', s['name']}:
                    return 'files are now %s' % sorted(os.listdir(tmp))
                if get(other) != 'keep':
                    return 'another file was changed'
                if get(name, en) != text:
                    return 'file content %s differs from %s' % (short(get(name, en)), short(text))
        except Exception as e:
            return 'file operation %s raised %s' % (op, exc(e))
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def snapshot(x):
    import dataclasses
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        f = {}
        for a in dataclasses.fields(x):
            if a.name in ('filePath', 'precision'):
                continue
            v = snapshot(getattr(x, a.name))
            f[a.name] = int(v) if a.name == 'version' and type(v) is str and v.isdigit() else v
        return {'$cls': type(x).__name__, 'f': f}
    if isinstance(x, (list, tuple)):
        return [snapshot(y) for y in x]
    if isinstance(x, dict):
        return {'$dict': [[k, snapshot(v)] for k, v in x.items()]}
    return x


@kind
def fresh(s):
    c = find_class(s['cls'])
    try:
        o = make(s['obj'])
        snap = snapshot(o)
        g = c.from_sexpr(parse(o.to_sexpr(), s['obj']['$cls']))
    except Exception as e:
        return 'saving and loading a new object raised ' + exc(e)
    d = diff(snap, g, s['cls'])
    return d and 'new object after saving and loading: ' + d


@kind
def created(s):
    c = find_class(s['cls'])
    try:
        a, b = c.create_new(*s['args']), c.create_new(*s['args'])
        snap = snapshot(a)
        t = a.to_sexpr()
        g = c.from_sexpr(parse(t, s['cls']))
        t2 = g.to_sexpr()
    except Exception as e:
        return 'create_new, saving and loading raised ' + exc(e)
    d = diff(s['expect'], a, s['cls'])
    if d:
        return 'created object: ' + d
    d = diff(snap, g, s['cls'])
    if d:
        return 'created object after saving and loading: ' + d
    d = diff(parse(t, s['cls']), parse(t2, s['cls']), 'token')
    if d:
        return 'tokens saved again: ' + d
    x = twice(a)
    if x:
        return 'two parts of a created object are one ' + x
    x = shared(a, b)
    return x and 'two created objects share ' + x


@kind
def badtype(s):
    try:
        find_class(s['cls']).create_new(*s['args'])
    except Exception:
        return None
    return 'create_new accepted %r' % (s['args'],)


@kind
def importable(s):
    try:
        for m in s['mods']:
            importlib.import_module('kiutils.' + m)
    except ModuleNotFoundError as e:
        return None if 'kiutils' in str(e) else exc(e)
    except Exception as e:
        return 'import raised ' + exc(e)
    return None


def run(s):
    return KINDS[s['kind']](s)
