"""Jobs: one symbolic exploration each; run in worker processes."""
import json
import os
import sys
import time
import traceback
import z3

from . import build, concrete
from .build import Builder, SPECS, MOD, Obj
from .cmp import Mismatch, cmp_val, conc, view
from .core import Engine, PathAbort, Stats, SymNum, Unsupported
from .load import REPO_SRC, SymPackage

sys.setrecursionlimit(60000)
PKG = None
MODULES = ['board', 'footprint', 'symbol', 'schematic', 'libraries', 'dru', 'wks', 'items.common', 'items.brditems',
           'items.gritems', 'items.fpitems', 'items.syitems', 'items.schitems', 'items.zones', 'items.dimensions',
           'utils.sexpr', 'utils.strings']


FUNCS = set()


def watch():
    """record which functions of the code under test are executed symbolically"""
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'vsym')

    def start(code, off, REPO_SRC=REPO_SRC):
        f = code.co_filename
        if f.startswith(REPO_SRC):
            FUNCS.add('%s:%s' % (f[len(REPO_SRC):].lstrip('/'), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


def load():
    global PKG
    if PKG is None:
        watch()
        p = SymPackage()
        for m in MODULES:
            try:
                p.module('kiutils.' + m)
            except ModuleNotFoundError:
                pass
        p.snapshot()
        if REPO_SRC not in sys.path:
            sys.path.insert(0, REPO_SRC)
        PKG = p
    return PKG


_cls = {}


def symclass(name):
    if name not in _cls:
        n, _, m = name.partition('@')
        m = m or ('items.common' if name == 'Position' else MOD.get(name))
        c = None
        if m:
            c = getattr(PKG.module('kiutils.' + m), n, None)
        if c is None:
            for mm in PKG.mods.values():
                c = getattr(mm, name, None)
                if isinstance(c, type):
                    break
        _cls[name] = c
    return _cls[name]


def make(x):
    """materialise an object description in the instrumented package"""
    if isinstance(x, Obj):
        return symclass(x.cls)(**{k: make(v) for k, v in x.f.items()})
    if isinstance(x, list):
        return [make(v) for v in x]
    if isinstance(x, dict):
        return {k: make(v) for k, v in x.items()}
    return x


def assume_ne(self, a, b):
    r = a != b
    if r is True:
        return
    if r is False:
        raise PathAbort()
    self.assume(r.e)


Engine.assume_ne = assume_ne


class Ctx:
    """One path of one job: lets a check emit verification conditions."""

    def __init__(self, e, job):
        self.e, self.job = e, job
        self.bad = []
        self.maybe = []
        self.inconclusive = []
        self.reached = 0
        self.concretevals = []

    def vc(self, parts, scn, what):
        """claim: all parts hold on this path; scn(model) -> concrete scenario"""
        e = self.e
        self.reached += 1
        e.stats.vcs += 1
        neg = z3.Not(z3.And(*parts)) if parts else z3.BoolVal(False)
        r = e._check(neg)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append('solver unknown: ' + what)
            return False
        self.candidate(scn, what, neg)
        return False

    def candidate(self, scn, what, neg=None):
        """a path on which the property seems broken: replay on real code"""
        e = self.e
        m = e.model(neg)
        if m is None:
            if e._check() == z3.unsat:
                return
            self.inconclusive.append('no model: ' + what)
            return
        s = scn(m)
        err = self.replay(s)
        if err:
            self.bad.append((s, '%s | %s' % (what, err)))
            return
        # model imprecision: try a few more models of the same path
        for i in range(2):
            m = None
            try:
                e.solver.push()
                if neg is not None:
                    e.solver.add(neg)
                for d in list(e.doms)[:6 * (i + 1)]:
                    v = z3.Int(d)
                    e.solver.add(v != v + 0 if False else v >= 0)
                e.solver.set('random_seed', i + 1)
                if e.solver.check() == z3.sat:
                    m = e.solver.model()
            finally:
                e.solver.pop()
            if m is not None:
                s = scn(m)
                err = self.replay(s)
                if err:
                    self.bad.append((s, '%s | %s' % (what, err)))
                    return
        self.maybe.append((s, what))       # a fresh process, without what ran before in this one, has the last word

    def replay(self, s):
        try:
            s = json.loads(json.dumps(s))
            self.e.stats.replays += 1
            return concrete.run(s)
        except Exception:
            self.inconclusive.append('replay error: ' + traceback.format_exc()[-300:])
            return None

    def sample(self, scn):
        """the engine cannot follow this path: at least run one model natively"""
        m = self.e.model()
        if m is None:
            return
        s = scn(m)
        err = self.replay(s)
        if err:
            self.bad.append((s, err))


CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def parse(text, cname=None):
    if cname == 'DesignRules':        # a design rule file is a sequence of top-level tokens
        text = '(' + text + ')'
    return PKG.module('kiutils.utils.sexpr').parse_sexp(text)


def guarded(ctx, scn, what, fn):
    """run code under test; exceptions become candidates"""
    try:
        return True, fn()
    except Unsupported as u:
        ctx.inconclusive.append('unsupported: %s (%s)' % (u, what))
        ctx.sample(scn)
        return False, None
    except RecursionError:
        ctx.inconclusive.append('recursion (%s)' % what)
        ctx.sample(scn)
        return False, None
    except Exception as ex:
        ctx.candidate(scn, '%s raised %s: %s' % (what, type(ex).__name__, str(ex)[:200] if type(ex) is not KeyError else ''))
        return False, None


def run_job(job):
    """job: dict(check=..., cls=..., base, k, focus, ...)"""
    load()
    assert CHECKS
    t0 = time.time()
    st = Stats()
    FUNCS.clear()
    sys.monitoring.restart_events()
    e = Engine(st, path_budget=job.get('paths', 10 ** 6), slice_s=job.get('slice', 2))
    out = dict(job=job, bad=[], maybe=[], inconclusive=[], reached=0, leaves=[], samples=[], error=None)
    fn = CHECKS[job['check']]
    leaves = {}

    def body():
        PKG.restore()
        ctx = Ctx(e, job)
        try:
            fn(ctx, e, job, leaves)
        except Unsupported as u:
            ctx.inconclusive.append('unsupported: %s' % u)
        return ctx
    out['left'] = []
    if job.get('prefixes') is not None:
        e.initial = [list(p) for p in job['prefixes']]
    try:
        for ctx in e.explore(body):
            out['bad'] += ctx.bad
            out['maybe'] += ctx.maybe
            out['inconclusive'] += ctx.inconclusive
            out['reached'] += ctx.reached
            if len(out['samples']) < 1 and ctx.concretevals:
                out['samples'] += ctx.concretevals[:1]
            if len(out['bad']) >= 3:
                break
    except Exception:
        out['error'] = traceback.format_exc()
    out['exhausted'] = e.exhausted
    if e.exhausted and not out['bad'] and not out['error']:
        out['left'] = e.work
    out['harvest'] = sorted(e.harvest, key=repr)
    out['stats'] = vars(st)
    out['leaves'] = [(n, k, t) for n, (k, t) in leaves.items()]
    out['funcs'] = sorted(FUNCS)
    out['wall'] = time.time() - t0
    return out


def build_pair(e, job, leaves):
    b = Builder(e, job.get('base', 'max'), job.get('k', 0), job.get('focus'), fixed=job.get('fixed'))
    o, t = SPECS[job['cls']](b)
    for d in b.deps:
        leaves.setdefault('@' + d, ('@', False))
    for l in b.leaves:
        leaves.setdefault(l.name, (l.kind, l.top))
    need = job.get('need')
    if need and not all(any(l.name == n for l in b.leaves) for n in need):
        raise PathAbort()
    return o, t


def witness(ctx, e, *scns):
    """reachability twin: the path context is satisfiable when its assertion is
    reached.  Every 32nd path of a job also runs its model on the real code, which
    validates the encoding (and is itself evidence if the real code disagrees)."""
    n = ctx.e.stats.paths
    if n % 32 == 1:
        m = e.model()
        if m is None:
            return
        e.stats.witness += 1
        for sc in scns:
            s = sc(m)
            if n == 1 and not ctx.concretevals:
                ctx.concretevals.append(s)
            e.stats.validated += 1
            err = ctx.replay(s)
            if err:
                ctx.bad.append((s, 'model replay: ' + err))


@check
def wr(ctx, e, job, leaves):
    """saved tokens are exactly the documented ones; loading them restores the object"""
    o, t = build_pair(e, job, leaves)
    tw, tr, o, orr = view(t, 'w'), view(t, 'r'), view(o, 'w'), view(o, 'r')
    sw = lambda m: dict(kind='write', obj=conc(o, m), tree=conc(tw, m))
    obj = make(o)
    ok, text = guarded(ctx, sw, 'writing', obj.to_sexpr)
    if ok:
        ok, tree = guarded(ctx, sw, 'tokenising the written text', lambda: parse(text, job['cls']))
    if ok:
        parts = []
        try:
            cmp_val(tw, tree, parts, 'token')
            ctx.vc(parts, sw, 'written tokens differ')
        except Mismatch as mm:
            ctx.e.stats.vcs += 1
            ctx.candidate(sw, str(mm))
    sr = read_vc(ctx, job['cls'], tr, orr)
    witness(ctx, e, sw, sr)


def read_vc(ctx, cname, tr, o):
    qn = o.cls if '@' in o.cls else cname
    sr = lambda m: dict(kind='read', cls=qn, tree=conc(tr, m), obj=conc(o, m))
    ok, got = guarded(ctx, sr, 'loading', lambda: symclass(qn).from_sexpr(copy_tree(tr)))
    if ok:
        parts = []
        try:
            cmp_val(o, got, parts, cname)
            ctx.vc(parts, sr, 'loaded object differs')
        except Mismatch as mm:
            ctx.e.stats.vcs += 1
            ctx.candidate(sr, str(mm))
    return sr


def copy_tree(t):
    return [copy_tree(x) for x in t] if isinstance(t, list) else t
