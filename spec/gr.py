"""Format tables: graphic items, dimensions, footprint graphics, zones."""
from vsym.build import spec, Obj, P0, WR
from .common import effects0

G = 'items.gritems'
F = 'items.fpitems'
D = 'items.dimensions'
Z = 'items.zones'


def layer_ko(c, b, opt, d):
    """(layer "NAME" [knockout])"""
    if opt and not b.opt('layer'):
        c.const(layer=None, knockout=False)
        return
    v = b.leaf('layer', 'T')
    ko = b.opt('knockout')
    c.const(layer=v, knockout=ko)
    c.add(['layer', v] + (['knockout'] if ko else []), dict(layer=d, knockout=False))


@spec(G, 'GrText')
def gr_text(b):
    c = b.cls('GrText', 'gr_text')
    c.flag('locked', 'locked')
    c.arg('text', 'T')
    c.pos('position', 'at', angle=True)
    layer_ko(c, b, True, None)
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    c.sub('effects', 'Effects', d=effects0())
    c.sub('renderCache', 'RenderCache', opt=True)
    return c.done()


def box_geometry(c, b):
    how = b.pick('geometry', ['plain', 'cardinal', 'turned', 'turned+', 'plain+'], 3)
    pts = how.endswith('+') or how == 'turned'
    se = how != 'turned'
    ang = None
    if pts:
        objs, ts = [], []
        for i in range(4):
            o, t = c.posval('pts[%d]' % i, 'xy')
            objs.append(o)
            ts.append(t)
        c.const(pts=objs)
        c.add(['pts'] + ts, dict(pts=[]))
    else:
        c.const(pts=[])
    for k in ('start', 'end'):
        if se:
            o, t = c.posval(k, k)
            c.f[k] = o
            c.add(t, {k: None})
        else:
            c.f[k] = None
    if how == 'cardinal':
        ang = b.pick('angle=', [0, 90, 180, 270, 90.0])
    elif how.startswith('turned'):
        ang = b.leaf('angle', 'N')
        for x in (0, 90, 180, 270):
            b.e.assume_ne(ang, x)
    c.const(angle=ang)
    if ang is not None:
        c.add(['angle', ang], dict(angle=None))


def text_box(cname, token):
    def f(b):
        c = b.cls(cname, token)
        c.flag('locked', 'locked')
        c.arg('text', 'T')
        box_geometry(c, b)
        c.tok('layer', 'layer', 'T', d='F.Cu')
        c.tok('tstamp', 'tstamp', 'U', opt=True)
        c.sub('effects', 'Effects', opt=True)
        c.sub('stroke', 'Stroke', opt=True)
        c.sub('renderCache', 'RenderCache', opt=True)
        return c.done()
    return f


spec(G, 'GrTextBox')(text_box('GrTextBox', 'gr_text_box'))
spec(F, 'FpTextBox')(text_box('FpTextBox', 'fp_text_box'))


def gr_width(c, b):
    if b.pick('width?', [True, False]):
        c.tok('width', 'width', 'N', d=0.12)
    else:
        # no width: no token; a missing token is documented to mean 0.12
        c.const(width=WR(None, 0.12))


def gr_item(cname, token, points, fill=False, angle=False, poly=False):
    def f(b):
        c = b.cls(cname, token)
        c.flag('locked', 'locked')
        if poly:
            c.pts('coordinates')
        for p in points:
            c.pos(p, p)
        if angle:
            c.tok('angle', 'angle', 'N', opt=True)
        c.tok('layer', 'layer', 'T', opt=True)
        gr_width(c, b)
        if fill:
            c.tok('fill', 'fill', 'W', opt=True)
        c.tok('tstamp', 'tstamp', 'U', opt=True)
        return c.done()
    spec(G, cname)(f)


gr_item('GrLine', 'gr_line', ['start', 'end'], angle=True)
gr_item('GrRect', 'gr_rect', ['start', 'end'], fill=True)
gr_item('GrCircle', 'gr_circle', ['center', 'end'], fill=True)
gr_item('GrArc', 'gr_arc', ['start', 'mid', 'end'])
gr_item('GrPoly', 'gr_poly', [], fill=True, poly=True)
gr_item('GrCurve', 'gr_curve', [], poly=True)


@spec(D, 'DimensionFormat')
def dim_format(b):
    c = b.cls('DimensionFormat', 'format')
    c.tok('prefix', 'prefix', 'T', opt=True)
    c.tok('suffix', 'suffix', 'T', opt=True)
    c.tok('units', 'units', 'I', d=3)
    c.tok('unitsFormat', 'units_format', 'I', d=1)
    c.tok('precision', 'precision', 'I', d=4)
    c.tok('overrideValue', 'override_value', 'T', opt=True)
    c.flag('suppressZeroes', 'suppress_zeroes')
    return c.done()


def style0():
    return Obj('DimensionStyle', dict(thickness=0, arrowLength=0, textPositionMode=0, extensionHeight=None,
                                      textFrame=None, extensionOffset=None, keepTextAligned=False))


@spec(D, 'DimensionStyle')
def dim_style(b):
    c = b.cls('DimensionStyle', 'style')
    c.tok('thickness', 'thickness', 'N', d=0)
    c.tok('arrowLength', 'arrow_length', 'N', d=0)
    c.tok('textPositionMode', 'text_position_mode', 'I', d=0)
    c.tok('extensionHeight', 'extension_height', 'N', opt=True)
    c.tok('textFrame', 'text_frame', 'I', opt=True)
    c.tok('extensionOffset', 'extension_offset', 'N', opt=True)
    c.flag('keepTextAligned', 'keep_text_aligned')
    return c.done()


@spec(D, 'Dimension')
def dimension(b):
    c = b.cls('Dimension', 'dimension')
    c.flag('locked', 'locked')
    c.tok('type', 'type', 'W', d='aligned')
    c.tok('layer', 'layer', 'T', d='F.Cu')
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    c.pts('pts')
    c.tok('height', 'height', 'N', opt=True)
    c.tok('orientation', 'orientation', 'N', opt=True)
    c.tok('leaderLength', 'leader_length', 'N', opt=True)
    c.sub('grText', 'GrText', opt=True)
    c.sub('format', 'DimensionFormat', opt=True)
    c.sub('style', 'DimensionStyle', d=style0())
    return c.done()


# ---- footprint graphics ----------------------------------------------------
@spec(F, 'FpText')
def fp_text(b):
    c = b.cls('FpText', 'fp_text')
    c.arg('type', 'W')
    c.arg('text', 'T')
    c.pos('position', 'at', angle=True, unlocked=True)
    layer_ko(c, b, False, 'F.Cu')
    c.flag('hide', 'hide')
    c.sub('effects', 'Effects', d=effects0())
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    c.sub('renderCache', 'RenderCache', opt=True)
    return c.done()


def width_or_stroke(c, b):
    if b.opt('stroke?'):
        o, t = b.make('Stroke', 'stroke')
        c.const(stroke=o, width=None)
        c.add(t, dict(stroke=None, width=0.12))
    else:
        c.const(stroke=None)
        c.tok('width', 'width', 'N', d=0.12)


def fp_item(cname, token, points, fill=False, poly=False):
    def f(b):
        c = b.cls(cname, token)
        if poly:
            c.pts('coordinates')
        for p in points:
            c.pos(p, p)
        c.tok('layer', 'layer', 'T', d='F.Cu')
        width_or_stroke(c, b)
        if fill:
            c.tok('fill', 'fill', 'W', opt=True)
        c.flag('locked', 'locked')
        c.tok('tstamp', 'tstamp', 'U', opt=True)
        return c.done()
    spec(F, cname)(f)


fp_item('FpLine', 'fp_line', ['start', 'end'])
fp_item('FpRect', 'fp_rect', ['start', 'end'], fill=True)
fp_item('FpCircle', 'fp_circle', ['center', 'end'], fill=True)
fp_item('FpArc', 'fp_arc', ['start', 'mid', 'end'])
fp_item('FpPoly', 'fp_poly', [], fill=True, poly=True)
fp_item('FpCurve', 'fp_curve', [], poly=True)


# ---- zones -------------------------------------------------------------------
@spec(Z, 'KeepoutSettings')
def keepout(b):
    c = b.cls('KeepoutSettings', 'keepout')
    for n, d in (('tracks', 'allowed'), ('vias', 'allowed'), ('pads', 'allowed'),
                 ('copperpour', 'not-allowed'), ('footprints', 'not-allowed')):
        c.tok(n, n, 'W', d=d)
    return c.done()


@spec(Z, 'FillSettings')
def fillsettings(b):
    c = b.cls('FillSettings', 'fill')
    c.flag('yes', 'yes')
    c.tok('mode', 'mode', 'W', opt=True)
    c.tok('thermalGap', 'thermal_gap', 'N', opt=True)
    c.tok('thermalBridgeWidth', 'thermal_bridge_width', 'N', opt=True)
    c.tok('smoothingStyle', 'smoothing', 'W', opt=True)
    c.tok('smoothingRadius', 'radius', 'N', opt=True)
    c.tok('islandRemovalMode', 'island_removal_mode', 'I', opt=True)
    c.tok('islandAreaMin', 'island_area_min', 'N', opt=True)
    c.tok('hatchThickness', 'hatch_thickness', 'N', opt=True)
    c.tok('hatchGap', 'hatch_gap', 'N', opt=True)
    c.tok('hatchOrientation', 'hatch_orientation', 'N', opt=True)
    c.tok('hatchSmoothingLevel', 'hatch_smoothing_level', 'I', opt=True)
    c.tok('hatchSmoothingValue', 'hatch_smoothing_value', 'N', opt=True)
    c.tok('hatchBorderAlgorithm', 'hatch_border_algorithm', 'I', opt=True)
    c.tok('hatchMinHoleArea', 'hatch_min_hole_area', 'N', opt=True)
    return c.done()


@spec(Z, 'ZonePolygon')
def zpoly(b):
    c = b.cls('ZonePolygon', 'polygon')
    c.pts('coordinates')
    return c.done()


@spec(Z, 'FilledPolygon')
def fpoly(b):
    c = b.cls('FilledPolygon', 'filled_polygon')
    c.tok('layer', 'layer', 'T', d='F.Cu')
    c.tokflag('island', 'island')
    c.pts('coordinates')
    return c.done()


@spec(Z, 'FillSegments')
def fsegs(b):
    c = b.cls('FillSegments', 'fill_segments')
    c.tok('layer', 'layer', 'T', d='F.Cu')
    c.pts('coordinates')
    return c.done()


@spec(Z, 'Zone')
def zone(b):
    c = b.cls('Zone', 'zone')
    c.flag('locked', 'locked')
    c.tok('net', 'net', 'I', d=0)
    c.tok('netName', 'net_name', 'T', d='unknown')
    how = b.fixed['#'] if b.depth == 0 and '#' in b.fixed else b.pick('layers=', [1, 2, 'F&B.Cu', '*.Cu', 3], 1)
    if isinstance(how, int):
        vs = [b.leaf('layers[%d]' % i, 'T', ban=('F&B.Cu', '*.Cu') if how == 1 else ()) for i in range(how)]
        c.const(layers=vs)
        c.add(['layer' if how == 1 else 'layers'] + vs, dict(layers=[]))
    else:
        c.const(layers=[how])
        c.add(['layers', how], dict(layers=[]))
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    c.tok('name', 'name', 'T', opt=True)
    s, p = b.leaf('hatch.style', 'W'), b.leaf('hatch.pitch', 'N')
    c.const(hatch=Obj('Hatch', dict(style=s, pitch=p)))
    c.add(['hatch', s, p], dict(hatch=Obj('Hatch', dict(style='none', pitch=0))))
    c.tok('priority', 'priority', 'I', opt=True)
    cl = b.leaf('clearance', 'N')
    if b.opt('connectPads'):
        w = b.leaf('connectPads', 'W')
        c.const(connectPads=w, clearance=cl)
        c.add(['connect_pads', w, ['clearance', cl]], dict(connectPads=None, clearance=0.254))
    else:
        c.const(connectPads=None, clearance=cl)
        c.add(['connect_pads', ['clearance', cl]], dict(clearance=0.254))
    c.tok('minThickness', 'min_thickness', 'N', d=0.254)
    c.tok('filledAreasThickness', 'filled_areas_thickness', 'W', opt=True)
    c.sub('keepoutSettings', 'KeepoutSettings', opt=True)
    c.sub('fillSettings', 'FillSettings', opt=True)
    c.subs('polygons', 'ZonePolygon')
    c.subs('filledPolygons', 'FilledPolygon')
    c.sub('fillSegments', 'FillSegments', opt=True)
    return c.done()
