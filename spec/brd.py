"""Format tables for board items."""
from vsym.build import spec, Obj, P0

M = 'items.brditems'


@spec(M, 'GeneralSettings')
def general(b):
    c = b.cls('GeneralSettings', 'general')
    c.tok('thickness', 'thickness', 'N', d=1.6)
    return c.done()


@spec(M, 'LayerToken')
def layertoken(b):
    c = b.cls('LayerToken')
    c.arg('ordinal', 'I')
    c.arg('name', 'T')
    c.arg('type', 'W')
    if b.opt('userName'):
        c.arg('userName', 'T', opt=True)
    else:
        c.const(userName=None)
    return c.done()


def _sublayer(b, c, i):
    """addsublayer (thickness ..) ..., inlined in the parent token"""
    s = b.cls('StackupSubLayer')
    p = 'subLayers[%d].' % i
    c.lit('addsublayer')
    f = {}
    v = b.leaf(p + 'thickness', 'N')
    f['thickness'] = v
    c.t.append(['thickness', v])
    for fld, tok, kind in (('material', 'material', 'T'), ('epsilonR', 'epsilon_r', 'N'), ('lossTangent', 'loss_tangent', 'N')):
        if b.opt(p + fld):
            f[fld] = b.leaf(p + fld, kind)
            c.t.append([tok, f[fld]])
        else:
            f[fld] = None
    return Obj('StackupSubLayer', f)


@spec(M, 'StackupLayer')
def stackuplayer(b):
    c = b.cls('StackupLayer', 'layer')
    c.arg('name', 'T')
    c.tok('type', 'type', 'T', d='')
    c.tok('color', 'color', 'T', opt=True)
    c.tok('thickness', 'thickness', 'N', opt=True)
    c.tok('material', 'material', 'T', opt=True)
    c.tok('epsilonR', 'epsilon_r', 'N', opt=True)
    c.tok('lossTangent', 'loss_tangent', 'N', opt=True)
    n = b.count('subLayers#')
    c.const(subLayers=[_sublayer(b, c, i) for i in range(n)])
    return c.done()


@spec(M, 'Stackup')
def stackup(b):
    c = b.cls('Stackup', 'stackup')
    c.subs('layers', 'StackupLayer')
    c.tok('copperFinish', 'copper_finish', 'T', opt=True)
    c.tok('dielectricContraints', 'dielectric_constraints', 'W', opt=True)
    c.tok('edgeConnector', 'edge_connector', 'W', opt=True)
    c.tokflag('castellatedPads', 'castellated_pads', 'yes')
    c.tokflag('edgePlating', 'edge_plating', 'yes')
    return c.done()


@spec(M, 'PlotSettings')
def plot(b):
    c = b.cls('PlotSettings', 'pcbplotparams')

    def tf(field, tok, opt=False, d=False):
        c.yesno(field, tok, 'true', 'false', opt, d)
    c.tok('layerSelection', 'layerselection', 'W', opt=True, d='')
    c.tok('plotOnAllLayersSelection', 'plot_on_all_layers_selection', 'W', opt=True)
    tf('disableApertMacros', 'disableapertmacros')
    tf('useGerberExtensions', 'usegerberextensions')
    tf('useGerberAttributes', 'usegerberattributes')
    tf('useGerberAdvancedAttributes', 'usegerberadvancedattributes')
    tf('createGerberJobFile', 'creategerberjobfile')
    c.tok('dashedLineDashRatio', 'dashed_line_dash_ratio', 'F', opt=True)
    c.tok('dashedLineGapRatio', 'dashed_line_gap_ratio', 'F', opt=True)
    tf('svgUseInch', 'svguseinch', True, None)
    c.tok('svgPrecision', 'svgprecision', 'N', d=0)
    tf('excludeEdgeLayer', 'excludeedgelayer', True, None)
    tf('plotFameRef', 'plotframeref')
    tf('viasOnMask', 'viasonmask')
    c.tok('mode', 'mode', 'I', d=1)
    tf('useAuxOrigin', 'useauxorigin')
    c.tok('hpglPenNumber', 'hpglpennumber', 'I', d=0)
    c.tok('hpglPenSpeed', 'hpglpenspeed', 'I', d=0)
    c.tok('hpglPenDiameter', 'hpglpendiameter', 'F', d=0)
    tf('dxfPolygonMode', 'dxfpolygonmode')
    tf('dxfImperialUnits', 'dxfimperialunits')
    tf('dxfUsePcbnewFont', 'dxfusepcbnewfont')
    tf('psNegative', 'psnegative')
    tf('psA4Output', 'psa4output')
    tf('plotReference', 'plotreference')
    tf('plotValue', 'plotvalue')
    tf('plotInvisibleText', 'plotinvisibletext')
    tf('sketchPadsOnFab', 'sketchpadsonfab')
    tf('subtractMaskFromSilk', 'subtractmaskfromsilk')
    c.tok('outputFormat', 'outputformat', 'I', d=0)
    tf('mirror', 'mirror')
    c.tok('drillShape', 'drillshape', 'I', d=0)
    c.tok('scaleSelection', 'scaleselection', 'I', d=1)
    c.tok('outputDirectory', 'outputdirectory', 'T', d='')
    return c.done()


@spec(M, 'SetupData')
def setup(b):
    c = b.cls('SetupData', 'setup')
    c.sub('stackup', 'Stackup', opt=True)
    c.tok('packToMaskClearance', 'pad_to_mask_clearance', 'N', d=0)
    c.tok('solderMaskMinWidth', 'solder_mask_min_width', 'N', opt=True)
    c.tok('padToPasteClearance', 'pad_to_paste_clearance', 'N', opt=True)
    c.tok('padToPasteClearanceRatio', 'pad_to_paste_clearance_ratio', 'N', opt=True)
    c.pos('auxAxisOrigin', 'aux_axis_origin', opt=True)
    c.pos('gridOrigin', 'grid_origin', opt=True)
    c.sub('plotSettings', 'PlotSettings', opt=True)
    return c.done()


@spec(M, 'Segment')
def segment(b):
    c = b.cls('Segment', 'segment')
    c.flag('locked', 'locked')
    c.pos('start', 'start')
    c.pos('end', 'end')
    c.tok('width', 'width', 'N', d=0.1)
    c.tok('layer', 'layer', 'T', d='F.Cu')
    c.tok('net', 'net', 'I', d=0)
    c.tok('tstamp', 'tstamp', 'U', opt=True, d='')
    return c.done()


@spec(M, 'Via')
def via(b):
    c = b.cls('Via', 'via')
    c.argchoice('type', [None, 'micro', 'blind'])
    c.flag('locked', 'locked')
    c.pos('position', 'at')
    c.tok('size', 'size', 'N', d=0)
    c.tok('drill', 'drill', 'N', d=0)
    c.list('layers', 'layers', 'T')
    c.tokflag('removeUnusedLayers', 'remove_unused_layers')
    c.tokflag('keepEndLayers', 'keep_end_layers')
    c.tokflag('free', 'free')
    c.tok('net', 'net', 'I', d=0)
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    return c.done()


@spec(M, 'Arc')
def arc(b):
    c = b.cls('Arc', 'arc')
    c.flag('locked', 'locked')
    c.pos('start', 'start')
    c.pos('mid', 'mid')
    c.pos('end', 'end')
    c.tok('width', 'width', 'N', d=0.2)
    c.tok('layer', 'layer', 'T', d='F.Cu')
    c.tok('net', 'net', 'I', d=0)
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    return c.done()


@spec(M, 'Target')
def target(b):
    c = b.cls('Target', 'target')
    c.arg('type', 'W')
    c.pos('position', 'at')
    c.tok('size', 'size', 'N', d=0)
    c.tok('width', 'width', 'N', d=0.1)
    c.tok('layer', 'layer', 'T', d='F.Cu')
    c.tok('tstamp', 'tstamp', 'U', opt=True)
    return c.done()
