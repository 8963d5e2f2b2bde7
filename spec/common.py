"""Format tables for tokens shared by all file kinds (KiCad 6/7 file formats)."""
from vsym.build import spec, Obj, P0, WR, Ch
from vsym.core import SymNum

M = 'items.common'


def font0():
    return Obj('Font', dict(face=None, height=1, width=1, thickness=None, bold=False, italic=False,
                            lineSpacing=None, color=None))


def justify0():
    return Obj('Justify', dict(horizontally=None, vertically=None, mirror=False))


def effects0():
    return Obj('Effects', dict(font=font0(), justify=justify0(), hide=False, href=None))


@spec(M, 'Coordinate')
def coordinate(b):
    c = b.cls('Coordinate', 'xyz')
    for k in 'XYZ':
        c.arg(k, 'N')
    return c.done()


@spec(M, 'ColorRGBA')
def color(b):
    c = b.cls('ColorRGBA', 'color')
    for k in 'RGB':
        c.arg(k, 'N')
    a = c.arg('A', 'N')
    # digits written after the decimal point of the alpha value: enough of them here, as fewer mean rounding
    n = len(a.fp) if isinstance(a, SymNum) else len(repr(a).partition('.')[2])
    # (and none for an alpha value beyond what a float holds exactly)
    big = len(a.ip) + n > 15 if isinstance(a, SymNum) else len(repr(a)) > 15 or 'e' in repr(a)
    c.const(precision=WR(b.pick('precision', [None] if big else [None, n, n + 3]), None))
    return c.done()


@spec(M, 'Stroke')
def stroke(b):
    c = b.cls('Stroke', 'stroke')
    c.tok('width', 'width', 'N', d=0)
    c.tok('type', 'type', 'W', opt=True)
    c.sub('color', 'ColorRGBA', opt=True)
    return c.done()


@spec(M, 'Font')
def font(b):
    c = b.cls('Font', 'font')
    c.tok('face', 'face', 'T', opt=True)
    h, w = b.leaf('height', 'N'), b.leaf('width', 'N')
    c.const(height=h, width=w)
    c.add(['size', h, w], dict(height=1, width=1))
    c.sub('color', 'ColorRGBA', opt=True)
    c.tok('thickness', 'thickness', 'N', opt=True)
    c.flag('bold', 'bold')
    c.flag('italic', 'italic')
    c.tok('lineSpacing', 'line_spacing', 'N', opt=True)
    return c.done()


@spec(M, 'Justify')
def justify(b):
    c = b.cls('Justify', 'justify')
    # an empty justification has no token of its own; see Effects
    how = b.pick('which', [1, 2, 4, 3, 5, 6, 7], 6)
    h = v = None
    m = False
    if how & 1:
        h = b.pick('horizontally=', ['left', 'right', 'center'])
        c.lit(h)
    if how & 2:
        v = b.pick('vertically=', ['top', 'bottom'])
        c.lit(v)
    if how & 4:
        m = True
        c.lit('mirror')
    c.const(horizontally=h, vertically=v, mirror=m)
    return c.done()


@spec(M, 'Effects')
def effects(b):
    c = b.cls('Effects', 'effects')
    c.sub('font', 'Font', d=font0())
    if b.opt('justify'):
        o, t = b.make('Justify', 'justify')
        c.const(justify=o)
        c.add(t, dict(justify=justify0()))
    else:
        c.const(justify=justify0())
    c.tok('href', 'href', 'T', opt=True)
    c.flag('hide', 'hide')
    return c.done()


@spec(M, 'Net')
def net(b):
    c = b.cls('Net', 'net')
    c.arg('number', 'I')
    c.arg('name', 'T')
    return c.done()


@spec(M, 'Group')
def group(b):
    c = b.cls('Group', 'group')
    c.arg('name', 'T')
    c.flag('locked', 'locked')
    c.tok('id', 'id', 'U', d='')
    c.list('members', 'members', 'U')
    return c.done()


@spec(M, 'PageSettings')
def paper(b):
    c = b.cls('PageSettings', 'paper')
    c.const(width=None, height=None)
    if b.opt('user'):
        c.const(paperSize='User')
        c.lit('User')
        c.arg('width', 'N')
        c.arg('height', 'N')
        c.req = 4
    else:
        c.arg('paperSize', 'T', ban=('User', 'portrait'))
    c.flag('portrait', 'portrait')
    return c.done()


@spec(M, 'TitleBlock')
def title_block(b):
    c = b.cls('TitleBlock', 'title_block')
    c.tok('title', 'title', 'T', opt=True)
    c.tok('date', 'date', 'T', opt=True)
    c.tok('revision', 'rev', 'T', opt=True)
    c.tok('company', 'company', 'T', opt=True)
    n = b.count('comments#')
    d = {}
    for i in range(n):
        k = i + 1 if b.depth else b.leaf('comments[%d].number' % i, 'I')
        v = b.leaf('comments[%d]' % i, 'T')
        for k2 in d:
            b.e.assume_ne(k, k2)
        d[k] = v
        c.add(['comment', k, v], None)
    c.const(comments=d)
    return c.done()


@spec(M, 'Property')
def prop(b):
    c = b.cls('Property', 'property')
    c.arg('key', 'T')
    c.arg('value', 'T')
    c.tok('id', 'id', 'I', opt=True)
    c.pos('position', 'at', angle=True, d=P0(angle=0))
    c.tokflag('showName', 'show_name')
    c.sub('effects', 'Effects', opt=True)
    return c.done()


@spec(M, 'RenderCachePolygon')
def rcpoly(b):
    c = b.cls('RenderCachePolygon', 'polygon')
    n = b.count('pts#', (0, 1, 2, 5), (2, 0, 1, 5))
    ts, os = [], []
    for i in range(n):
        o, t = c.posval('pts[%d]' % i, 'xy')
        os.append(o)
        ts.append(t)
    c.const(pts=os)
    c.add(['pts'] + ts, dict(pts=[]))
    return c.done()


@spec(M, 'RenderCache')
def rcache(b):
    c = b.cls('RenderCache', 'render_cache')
    c.arg('text', 'T')
    c.arg('id', 'I')
    c.subs('polygons', 'RenderCachePolygon')
    return c.done()


@spec(M, 'Fill')
def fill(b):
    c = b.cls('Fill', 'fill')
    c.tok('type', 'type', 'W', d='none')
    c.sub('color', 'ColorRGBA', opt=True)
    return c.done()


@spec(M, 'Image')
def image(b):
    c = b.cls('Image', 'image')
    c.pos('position', 'at')
    c.tok('layer', 'layer', 'T', opt=True)
    c.tok('scale', 'scale', 'N', opt=True)
    c.tok('uuid', 'uuid', 'U', opt=True)
    c.list('data', 'data', 'W')
    return c.done()
