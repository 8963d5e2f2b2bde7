"""Format tables: worksheets, design rules, library tables."""
from vsym.build import spec, Obj

M = 'wks'


def pos0():
    return Obj('WksPosition', dict(X=0, Y=0, corner=None))


def font0():
    return Obj('WksFont', dict(linewidth=None, size=None, bold=False, italic=False))


@spec(M, 'WksFontSize')
def fsize(b):
    c = b.cls('WksFontSize', 'size')
    c.arg('width', 'N')
    c.arg('height', 'N')
    return c.done()


@spec(M, 'WksFont')
def wfont(b):
    c = b.cls('WksFont', 'font')
    # an empty font has no token of its own; see TbText
    how = b.pick('which', [1, 2, 4, 8, 3, 5, 9, 6, 10, 12, 7, 11, 13, 14, 15], 14)
    c.f.update(linewidth=None, size=None, bold=False, italic=False)
    if how & 1:
        v = b.leaf('linewidth', 'N')
        c.const(linewidth=v)
        c.t.append(['linewidth', v])
    if how & 2:
        o, t = b.make('WksFontSize', 'size')
        c.const(size=o)
        c.t.append(t)
    if how & 4:
        c.const(bold=True)
        c.lit('bold')
    if how & 8:
        c.const(italic=True)
        c.lit('italic')
    return c.done()


CORNERS = ['ltcorner', 'lbcorner', 'rbcorner', 'rtcorner']


def wpos(b, c, field, token):
    x, y = b.leaf(field + '.X', 'N'), b.leaf(field + '.Y', 'N')
    t = [token, x, y]
    k = b.pick(field + '.corner', [None] + CORNERS, 1)
    if k is not None:
        t.append(k)
    c.f[field] = Obj('WksPosition', dict(X=x, Y=y, corner=k))
    c.add(t, {field: pos0()})


def option(c):
    c.choice('option', 'option', ['page1only', 'notonpage1'], opt=True)


def repeats(c):
    c.tok('repeat', 'repeat', 'I', opt=True)
    c.tok('incrx', 'incrx', 'N', opt=True)
    c.tok('incry', 'incry', 'N', opt=True)


def linelike(cname, token):
    def f(b):
        c = b.cls(cname, token)
        c.tok('name', 'name', 'T', d='')
        wpos(b, c, 'start', 'start')
        wpos(b, c, 'end', 'end')
        option(c)
        c.tok('lineWidth', 'linewidth', 'N', opt=True)
        repeats(c)
        c.tok('comment', 'comment', 'T', opt=True)
        return c.done()
    spec(M, cname)(f)


linelike('Line', 'line')
linelike('Rect', 'rect')


@spec(M, 'Bitmap')
def bitmap(b):
    c = b.cls('Bitmap', 'bitmap')
    c.tok('name', 'name', 'T', d='')
    wpos(b, c, 'position', 'pos')
    option(c)
    c.tok('scale', 'scale', 'N', d=1)
    repeats(c)
    c.tok('comment', 'comment', 'T', opt=True)
    n = b.count('pngdata#')
    vs = [b.leaf('pngdata[%d]' % i, 'W') for i in range(n)]
    c.const(pngdata=vs)
    c.add(['pngdata'] + [['data', v] for v in vs], dict(pngdata=[]))
    return c.done()


@spec(M, 'TbText')
def tbtext(b):
    c = b.cls('TbText', 'tbtext')
    c.arg('text', 'T')
    c.tok('name', 'name', 'T', d='')
    wpos(b, c, 'position', 'pos')
    option(c)
    c.tok('rotate', 'rotate', 'N', opt=True)
    c.sub('font', 'WksFont', opt=True, d=font0())
    c.sub('justify', 'Justify', opt=True)
    c.tok('maxlen', 'maxlen', 'N', opt=True)
    c.tok('maxheight', 'maxheight', 'N', opt=True)
    repeats(c)
    c.tok('incrlabel', 'incrlabel', 'I', opt=True)
    c.tok('comment', 'comment', 'T', opt=True)
    return c.done()


@spec(M, 'TextSize')
def textsize(b):
    c = b.cls('TextSize', 'textsize')
    c.arg('width', 'N')
    c.arg('height', 'N')
    return c.done()


def wsetup0():
    return Obj('Setup', dict(textSize=Obj('TextSize', dict(width=1.5, height=1.5)), lineWidth=0.15, textLineWidth=0.15,
                             leftMargin=10, rightMargin=10, topMargin=10, bottomMargin=10))


@spec(M, 'Setup')
def wsetup(b):
    c = b.cls('Setup', 'setup')
    c.sub('textSize', 'TextSize', d=Obj('TextSize', dict(width=1.5, height=1.5)))
    c.tok('lineWidth', 'linewidth', 'N', d=0.15)
    c.tok('textLineWidth', 'textlinewidth', 'N', d=0.15)
    c.tok('leftMargin', 'left_margin', 'N', d=10)
    c.tok('rightMargin', 'right_margin', 'N', d=10)
    c.tok('topMargin', 'top_margin', 'N', d=10)
    c.tok('bottomMargin', 'bottom_margin', 'N', d=10)
    return c.done()


@spec(M, 'WorkSheet')
def worksheet(b):
    c = b.cls('WorkSheet', 'kicad_wks')
    c.tok('version', 'version', 'I', d='20211014')
    c.tok('generator', 'generator', 'W', d='kiutils')
    c.sub('setup', 'Setup', d=wsetup0())
    c.polys('drawingObjects', ['Rect', 'Line', 'TbText', 'Bitmap'])
    return c.done()


# ---- design rules ---------------------------------------------------------------
D = 'dru'


@spec(D, 'Constraint')
def constraint(b):
    c = b.cls('Constraint', 'constraint')
    c.arg('type', 'W')
    c.tok('min', 'min', 'T', opt=True)
    c.tok('opt', 'opt', 'T', opt=True)
    c.tok('max', 'max', 'T', opt=True)
    n = b.count('elements#')
    vs = [b.leaf('elements[%d]' % i, 'W') for i in range(n)]
    c.const(elements=vs)
    c.t += vs
    return c.done()


@spec(D, 'Rule')
def rule(b):
    c = b.cls('Rule', 'rule')
    c.arg('name', 'T')
    c.tok('layer', 'layer', 'T', opt=True)
    c.subs('constraints', 'Constraint')
    c.tok('condition', 'condition', 'T', d='')
    c.tok('severity', 'severity', 'W', opt=True)
    return c.done()


@spec(D, 'DesignRules')
def designrules(b):
    c = b.cls('DesignRules')
    v = b.leaf('version', 'I')
    c.const(version=v)
    c.t.append(['version', v])
    c.subs('rules', 'Rule')
    return c.done()


# ---- library tables ---------------------------------------------------------------
L = 'libraries'


@spec(L, 'Library')
def library(b):
    c = b.cls('Library', 'lib')
    c.tok('name', 'name', 'T', d='')
    c.tok('type', 'type', 'T', d='KiCad')
    c.tok('uri', 'uri', 'T', d='')
    c.tok('options', 'options', 'T', d='')
    c.tok('description', 'descr', 'T', d='')
    v = b.opt('disabled')
    c.const(active=not v)
    if v:
        c.add(['disabled'], dict(active=True))
    return c.done()


@spec(L, 'LibTable')
def libtable(b):
    k = b.pick('type=', ['sym_lib_table', 'fp_lib_table'])
    c = b.cls('LibTable', k)
    c.const(type=k)
    c.subs('libs', 'Library')
    return c.done()
