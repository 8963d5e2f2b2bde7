"""Format tables: footprints and boards."""
from vsym.build import spec, Obj, P0
from .brd import setup as _setup  # noqa: F401 (load order)

M = 'footprint'


def attr0():
    return Obj('Attributes', dict(type=None, boardOnly=False, excludeFromPosFiles=False, excludeFromBom=False,
                                  allowMissingCourtyard=False))


@spec(M, 'Attributes')
def attributes(b):
    c = b.cls('Attributes', 'attr')
    # an empty attribute set has no token of its own; see Footprint
    c.argchoice('type', ['through_hole', 'smd', None])
    b2 = [c.flag('boardOnly', 'board_only'), c.flag('excludeFromPosFiles', 'exclude_from_pos_files'),
          c.flag('excludeFromBom', 'exclude_from_bom'), c.flag('allowMissingCourtyard', 'allow_missing_courtyard')]
    if c.f['type'] is None and not any(b2):
        from vsym.core import PathAbort
        raise PathAbort()
    return c.done()


def coord(v):
    return Obj('Coordinate', dict(X=v, Y=v, Z=v))


@spec(M, 'Model')
def model(b):
    c = b.cls('Model', 'model')
    c.arg('path', 'T')
    c.flag('hide', 'hide')
    c.tok('opacity', 'opacity', 'N', opt=True)
    for f, t in (('pos', 'offset'), ('scale', 'scale'), ('rotate', 'rotate')):
        o, tr = b.make('Coordinate', f)
        c.f[f] = o
        c.add([t, tr], None)
    return c.done()


@spec(M, 'DrillDefinition')
def drill(b):
    c = b.cls('DrillDefinition', 'drill')
    c.const(width=None)
    oval = c.flag('oval', 'oval')
    c.arg('diameter', 'N')
    if oval and b.opt('width'):
        c.arg('width', 'N')
    c.pos('offset', 'offset', opt=True)
    return c.done()


@spec(M, 'PadOptions')
def padoptions(b):
    c = b.cls('PadOptions', 'options')
    c.tok('clearance', 'clearance', 'W', d='outline')
    c.tok('anchor', 'anchor', 'W', d='rect')
    return c.done()


PRIMS = ['GrText', 'GrTextBox', 'GrLine', 'GrRect', 'GrCircle', 'GrArc', 'GrPoly', 'GrCurve']


@spec(M, 'Pad')
def pad(b):
    c = b.cls('Pad', 'pad')
    c.arg('number', 'T')
    c.arg('type', 'W')
    c.arg('shape', 'W', ban=('locked',))
    c.flag('locked', 'locked')
    c.pos('position', 'at', angle=True)
    c.pos('size', 'size')
    c.sub('drill', 'DrillDefinition', opt=True)
    c.tok('property', 'property', 'W', opt=True)
    how = b.fixed['#'] if b.depth == 0 and '#' in b.fixed else b.pick('layers=', [1, 0, 2, 'F&B.Cu', '*.Cu', 3, 'mix'], 2)
    if isinstance(how, int):
        vs = [b.leaf('layers[%d]' % i, 'Y') for i in range(how)]
    else:
        vs = [how] if how != 'mix' else ['*.Cu', '*.Mask', 'F.SilkS']
    c.const(layers=vs)
    c.add(['layers'] + vs, dict(layers=[]))
    c.tokflag('removeUnusedLayers', 'remove_unused_layers')
    c.tokflag('keepEndLayers', 'keep_end_layers')
    c.tok('roundrectRatio', 'roundrect_rratio', 'N', opt=True)
    c.tok('chamferRatio', 'chamfer_ratio', 'N', opt=True)
    c.list('chamfer', 'chamfer', 'W', write_empty=False)
    c.tok('dieLength', 'die_length', 'N', opt=True)
    c.sub('net', 'Net', opt=True)
    c.tok('pinFunction', 'pinfunction', 'T', opt=True)
    c.tok('pinType', 'pintype', 'T', opt=True)
    c.tok('solderMaskMargin', 'solder_mask_margin', 'N', opt=True)
    c.tok('solderPasteMargin', 'solder_paste_margin', 'N', opt=True)
    c.tok('solderPasteMarginRatio', 'solder_paste_margin_ratio', 'N', opt=True)
    c.tok('clearance', 'clearance', 'N', opt=True)
    c.tok('zoneConnect', 'zone_connect', 'I', opt=True)
    c.tok('thermalWidth', 'thermal_width', 'N', opt=True)
    c.tok('thermalGap', 'thermal_gap', 'N', opt=True)
    c.sub('customPadOptions', 'PadOptions', opt=True)
    t0 = c.t
    c.t = ['primitives']
    c.polys('customPadPrimitives', PRIMS)
    pr, c.t = c.t, t0
    if len(pr) > 1:
        c.add(pr, dict(customPadPrimitives=[]))
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    return c.done()


def libid(b, c, style=False):
    """library identifier string built from nickname, entry name (and unit/style for symbol units)"""
    from vsym.core import SymNum
    kinds = ['entry', 'nick', 'unit'] if style else ['entry', 'nick']
    how = b.pick('libId=', kinds, 1)
    c.const(libraryNickname=None)
    if style:
        c.const(unitId=None, styleId=None)
    e = b.leaf('entryName', 'L')
    c.const(entryName=e)
    if how == 'nick':
        n = b.leaf('libraryNickname', 'L')
        c.const(libraryNickname=n)
        return n + ':' + e
    if how == 'unit':
        u, s = b.leaf('unitId', 'J'), b.leaf('styleId', 'J')
        c.const(unitId=u, styleId=s)
        tx = lambda v: v.text() if isinstance(v, SymNum) else str(v)
        return e + '_' + tx(u) + '_' + tx(s)
    if style:
        no_unit_suffix(b.e, e)
    return e


def no_unit_suffix(eng, s):
    """assume s does not end in _<digits>_<digits>: such a name denotes a unit (known finding)"""
    import z3
    from vsym.core import ch_in, ch_eq_e, category, items_of, iv_expr, SymBool, conj, disj
    it = items_of(s)
    n = len(it)

    def e_in(c):
        r = ch_in(c, category('digit'))
        return z3.BoolVal(r) if isinstance(r, bool) else r.e

    def e_us(c):
        r = ch_eq_e(c, '_')
        return z3.BoolVal(r) if isinstance(r, bool) else r
    if n > 8:
        eng.assume(z3.Not(e_in(it[-1])))
        return
    alts = []
    for a in range(1, n):
        for d in range(1, n):
            p = n - a - d - 2
            if p >= 1:
                alts.append(z3.And(e_us(it[p]), *[e_in(c) for c in it[p + 1:p + 1 + a]], e_us(it[p + 1 + a]),
                                   *[e_in(c) for c in it[p + 2 + a:]]))
    if alts:
        eng.assume(z3.Not(z3.Or(*alts)))


FPG = ['FpText', 'FpTextBox', 'FpLine', 'FpRect', 'FpCircle', 'FpArc', 'FpPoly', 'FpCurve', 'Image']


@spec(M, 'Footprint')
def footprint(b):
    c = b.cls('Footprint', 'footprint')
    c.lit(libid(b, c))
    c.flag('locked', 'locked')
    c.flag('placed', 'placed')
    c.tok('version', 'version', 'I', opt=True)
    c.tok('generator', 'generator', 'W', opt=True)
    c.tok('layer', 'layer', 'T', d='F.Cu')
    v = b.leaf('tedit', 'U')
    c.const(tedit=v)
    c.add(['tedit', v], None)
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    c.pos('position', 'at', angle=True, opt=True)
    c.tok('description', 'descr', 'T', opt=True)
    c.tok('tags', 'tags', 'T', opt=True)
    c.dict('properties', lambda k, v: ['property', k, v])
    c.tok('path', 'path', 'T', opt=True)
    c.tok('autoplaceCost90', 'autoplace_cost90', 'I', opt=True)
    c.tok('autoplaceCost180', 'autoplace_cost180', 'I', opt=True)
    c.tok('solderMaskMargin', 'solder_mask_margin', 'N', opt=True)
    c.tok('solderPasteMargin', 'solder_paste_margin', 'N', opt=True)
    c.tok('solderPasteRatio', 'solder_paste_ratio', 'N', opt=True)
    c.tok('clearance', 'clearance', 'N', opt=True)
    c.tok('zoneConnect', 'zone_connect', 'I', opt=True)
    c.tok('thermalWidth', 'thermal_width', 'N', opt=True)
    c.tok('thermalGap', 'thermal_gap', 'N', opt=True)
    if b.opt('attributes'):
        o, t = b.make('Attributes', 'attributes')
        c.const(attributes=o)
        c.add(t, dict(attributes=attr0()))
    else:
        c.const(attributes=attr0())
    c.list('privateLayers', 'private_layers', 'T', write_empty=False)
    c.list('netTiePadGroups', 'net_tie_pad_groups', 'T', write_empty=False)
    c.polys('graphicItems', FPG)
    c.subs('pads', 'Pad')
    c.subs('zones', 'Zone')
    c.subs('models', 'Model')
    c.subs('groups', 'Group')
    return c.done()


GRI = ['GrText', 'GrTextBox', 'GrLine', 'GrRect', 'GrCircle', 'GrArc', 'GrPoly', 'GrCurve', 'Image']


@spec('board', 'Board')
def board(b):
    c = b.cls('Board', 'kicad_pcb')
    c.tok('version', 'version', 'I', d='')
    c.tok('generator', 'generator', 'W', d='')
    c.sub('general', 'GeneralSettings', d=Obj('GeneralSettings', dict(thickness=1.6)))
    c.sub('paper', 'PageSettings', d=Obj('PageSettings', dict(paperSize='A4', width=None, height=None, portrait=False)))
    c.sub('titleBlock', 'TitleBlock', opt=True)
    c.inside('layers', 'layers', 'LayerToken', True)
    c.sub('setup', 'SetupData', d=Obj('SetupData', dict(stackup=None, packToMaskClearance=0, solderMaskMinWidth=None,
          padToPasteClearance=None, padToPasteClearanceRatio=None, auxAxisOrigin=None, gridOrigin=None, plotSettings=None)))
    c.dict('properties', lambda k, v: ['property', k, v])
    c.subs('nets', 'Net')
    c.subs('footprints', 'Footprint')
    c.polys('graphicItems', GRI)
    c.subs('dimensions', 'Dimension')
    c.subs('targets', 'Target')
    c.polys('traceItems', ['Segment', 'Arc', 'Via'])
    c.subs('zones', 'Zone')
    c.subs('groups', 'Group')
    return c.done()
