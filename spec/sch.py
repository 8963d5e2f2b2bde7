"""Format tables: symbol libraries and schematics."""
from vsym.build import spec, Obj, P0
from .common import effects0
from .fp import libid

Y = 'items.syitems'
S = 'items.schitems'
M = 'symbol'


def stroke0():
    return Obj('Stroke', dict(width=0, type=None, color=None))


def fill0():
    return Obj('Fill', dict(type='none', color=None))


def color0():
    return Obj('ColorRGBA', dict(R=0, G=0, B=0, A=0))


def sy_shape(cname, mod, token, points, private, fill, uuid, radius=False, angles=False, pts=False, clsname=None):
    def f(b):
        c = b.cls(clsname or cname, token)
        if private:
            c.flag('private', 'private')
        if pts:
            c.pts('points', lens_min=(0, 1, 2), lens_max=(2, 0, 1, 3))
        for p in points:
            c.pos(p, p, angle=angles)
        if radius:
            c.tok('radius', 'radius', 'N', d=0)
        c.sub('stroke', 'Stroke', d=stroke0())
        if fill:
            c.sub('fill', 'Fill', d=fill0())
        if uuid:
            c.tok('uuid', 'uuid', 'U', opt=True)
        return c.done()
    spec(mod, cname)(f)


sy_shape('SyArc', Y, 'arc', ['start', 'mid', 'end'], True, True, False, angles=True)
sy_shape('SyCircle', Y, 'circle', ['center'], True, True, False, radius=True)
sy_shape('SyCurve', Y, 'curve', [], False, True, False, pts=True)
sy_shape('SyPolyLine', Y, 'polyline', [], False, True, False, pts=True)
sy_shape('SyRect', Y, 'rectangle', ['start', 'end'], True, True, False)


@spec(Y, 'SyText')
def sytext(b):
    c = b.cls('SyText', 'text')
    c.arg('text', 'T')
    c.pos('position', 'at', angle=True)
    c.sub('effects', 'Effects', d=effects0())
    return c.done()


def textbox(cname, mod, private):
    def f(b):
        c = b.cls(cname, 'text_box')
        if private:
            c.flag('private', 'private')
        c.arg('text', 'T')
        c.pos('position', 'at', angle=True)
        c.pos('size', 'size')
        c.sub('stroke', 'Stroke', d=stroke0())
        c.sub('fill', 'Fill', d=fill0())
        c.sub('effects', 'Effects', d=effects0())
        c.tok('uuid', 'uuid', 'U', opt=True)
        return c.done()
    spec(mod, cname)(f)


textbox('SyTextBox', Y, True)
textbox('TextBox', S, False)


@spec(M, 'SymbolAlternativePin')
def altpin(b):
    c = b.cls('SymbolAlternativePin', 'alternate')
    c.arg('pinName', 'T')
    c.arg('electricalType', 'W')
    c.arg('graphicalStyle', 'W')
    return c.done()


@spec(M, 'SymbolPin')
def sympin(b):
    c = b.cls('SymbolPin', 'pin')
    c.arg('electricalType', 'W')
    c.arg('graphicalStyle', 'W')
    c.pos('position', 'at', angle=True)
    c.tok('length', 'length', 'N', d=0.254)
    c.flag('hide', 'hide')
    for f, d in (('name', ''), ('number', '0')):
        v = b.leaf(f, 'T')
        c.f[f] = v
        t = [f, v]
        if b.opt(f + 'Effects'):
            o, te = b.make('Effects', f + 'Effects')
            c.f[f + 'Effects'] = o
            t.append(te)
        else:
            c.f[f + 'Effects'] = None
        c.add(t, {f: d, f + 'Effects': None})
    c.subs('alternatePins', 'SymbolAlternativePin')
    return c.done()


SYG = ['SyArc', 'SyCircle', 'SyCurve', 'SyPolyLine', 'SyRect', 'SyText', 'SyTextBox']


@spec(M, 'Symbol')
def symbol(b):
    c = b.cls('Symbol', 'symbol')
    c.lit(libid(b, c, True))
    c.tok('extends', 'extends', 'T', opt=True)
    c.tokflag('isPower', 'power')
    c.tokflag('hidePinNumbers', 'pin_numbers', 'hide')
    c.const(pinNames=False, pinNamesHide=False, pinNamesOffset=None)
    if b.opt('pinNames'):
        t = ['pin_names']
        c.const(pinNames=True)
        if b.opt('pinNamesOffset'):
            v = b.leaf('pinNamesOffset', 'N')
            c.const(pinNamesOffset=v)
            t.append(['offset', v])
        if b.opt('pinNamesHide'):
            c.const(pinNamesHide=True)
            t.append('hide')
        c.add(t, dict(pinNames=False, pinNamesHide=False, pinNamesOffset=None))
    c.yesno('inBom', 'in_bom', opt=True, d=None)
    c.yesno('onBoard', 'on_board', opt=True, d=None)
    c.subs('properties', 'Property')
    c.polys('graphicItems', SYG)
    c.subs('pins', 'SymbolPin')
    if b.depth < 2:
        c.subs('units', 'Symbol')
    else:
        c.const(units=[])
    return c.done()


@spec(M, 'SymbolLib')
def symlib(b):
    c = b.cls('SymbolLib', 'kicad_symbol_lib')
    c.tok('version', 'version', 'I', d='20211014')
    c.tok('generator', 'generator', 'W', opt=True)
    c.subs('symbols', 'Symbol')
    return c.done()


# ---- schematic -----------------------------------------------------------------
@spec(S, 'Junction')
def junction(b):
    c = b.cls('Junction', 'junction')
    c.pos('position', 'at')
    c.tok('diameter', 'diameter', 'N', d=0)
    c.sub('color', 'ColorRGBA', d=color0())
    c.tok('uuid', 'uuid', 'U', opt=True)
    return c.done()


@spec(S, 'NoConnect')
def noconnect(b):
    c = b.cls('NoConnect', 'no_connect')
    c.pos('position', 'at')
    c.tok('uuid', 'uuid', 'U', opt=True)
    return c.done()


@spec(S, 'BusEntry')
def busentry(b):
    c = b.cls('BusEntry', 'bus_entry')
    c.pos('position', 'at')
    c.pos('size', 'size')
    c.sub('stroke', 'Stroke', d=stroke0())
    c.tok('uuid', 'uuid', 'U', opt=True)
    return c.done()


@spec(S, 'BusAlias')
def busalias(b):
    c = b.cls('BusAlias', 'bus_alias')
    c.arg('name', 'T')
    n = b.count('members#')
    vs = [b.leaf('members[%d]' % i, 'T') for i in range(n)]
    c.const(members=vs)
    c.add(['members'] + vs, None)
    return c.done()


@spec(S, 'Connection')
def connection(b):
    k = b.pick('type=', ['wire', 'bus'])
    c = b.cls('Connection', k)
    c.const(type=k)
    c.pts('points', lens_min=(0, 1, 2), lens_max=(2, 0, 1, 3))
    c.sub('stroke', 'Stroke', d=stroke0())
    c.tok('uuid', 'uuid', 'U', opt=True)
    return c.done()


sy_shape('PolyLine', S, 'polyline', [], False, False, True, pts=True)
sy_shape('Rectangle', S, 'rectangle', ['start', 'end'], False, True, True)
sy_shape('SchArc', S, 'arc', ['start', 'mid', 'end'], False, True, True, clsname='Arc@items.schitems')
sy_shape('Circle', S, 'circle', ['center'], False, True, True, radius=True)


def label(cname, token, shape=False, length=False, fa=True, props=False):
    def f(b):
        c = b.cls(cname, token)
        c.arg('text', 'T')
        if length:
            c.tok('length', 'length', 'N', d=2.54)
        if shape:
            c.tok('shape', 'shape', 'W', d=shape)
        c.pos('position', 'at', angle=True)
        if fa:
            c.tokflag('fieldsAutoplaced', 'fields_autoplaced')
        c.sub('effects', 'Effects', d=effects0())
        c.tok('uuid', 'uuid', 'U', opt=True)
        if props:
            c.subs('properties', 'Property')
        return c.done()
    spec(S, cname)(f)


label('Text', 'text', fa=False)
label('LocalLabel', 'label')
label('GlobalLabel', 'global_label', shape='input', props=True)
label('HierarchicalLabel', 'hierarchical_label', shape='input')
label('NetclassFlag', 'netclass_flag', shape='round', length=True, props=True)


@spec(S, 'SymbolProjectPath')
def sympath(b):
    c = b.cls('SymbolProjectPath', 'path')
    c.arg('sheetInstancePath', 'T')
    c.tok('reference', 'reference', 'T', d='')
    c.tok('unit', 'unit', 'I', d=1)
    return c.done()


@spec(S, 'SymbolProjectInstance')
def symproj(b):
    c = b.cls('SymbolProjectInstance', 'project')
    c.arg('name', 'T')
    c.subs('paths', 'SymbolProjectPath')
    return c.done()


@spec(S, 'SchematicSymbol')
def schsym(b):
    c = b.cls('SchematicSymbol', 'symbol')
    c.tok('libName', 'lib_name', 'T', opt=True)
    c.add(['lib_id', libid(b, c)], dict(libraryNickname=None, entryName=None))
    c.pos('position', 'at', angle=True)
    c.choice('mirror', 'mirror', ['x', 'y'], opt=True)
    c.tok('unit', 'unit', 'I', opt=True)
    c.yesno('inBom', 'in_bom')
    c.yesno('onBoard', 'on_board')
    c.yesno('dnp', 'dnp', opt=True, d=None)
    c.tokflag('fieldsAutoplaced', 'fields_autoplaced')
    c.tok('uuid', 'uuid', 'U', opt=True, d='')
    c.subs('properties', 'Property')
    c.dict('pins', lambda k, v: ['pin', k, ['uuid', v]], 'T', 'U')
    c.inside('instances', 'instances', 'SymbolProjectInstance', False)
    return c.done()


@spec(S, 'HierarchicalPin')
def hpin(b):
    c = b.cls('HierarchicalPin', 'pin')
    c.arg('name', 'T')
    c.arg('connectionType', 'W')
    c.pos('position', 'at', angle=True)
    c.sub('effects', 'Effects', d=effects0())
    c.tok('uuid', 'uuid', 'U', opt=True)
    return c.done()


@spec(S, 'HierarchicalSheetProjectPath')
def hpath(b):
    c = b.cls('HierarchicalSheetProjectPath', 'path')
    c.arg('sheetInstancePath', 'T')
    c.tok('page', 'page', 'T', d='')
    return c.done()


@spec(S, 'HierarchicalSheetProjectInstance')
def hproj(b):
    c = b.cls('HierarchicalSheetProjectInstance', 'project')
    c.arg('name', 'T')
    c.subs('paths', 'HierarchicalSheetProjectPath')
    return c.done()


def prop0(key):
    return Obj('Property', dict(key=key, value='', id=None, effects=None, showName=False))


RESERVED = ('Sheet name', 'Sheetname', 'Sheet file', 'Sheetfile')


@spec(S, 'HierarchicalSheet')
def hsheet(b):
    c = b.cls('HierarchicalSheet', 'sheet')
    c.pos('position', 'at')
    w, h = b.leaf('width', 'N'), b.leaf('height', 'N')
    c.const(width=w, height=h)
    c.add(['size', w, h], dict(width=0, height=0))
    c.tokflag('fieldsAutoplaced', 'fields_autoplaced')
    c.sub('stroke', 'Stroke', d=stroke0())
    o, t = b.make('ColorRGBA', 'fill')
    del o.f['precision']
    c.const(fill=o)
    c.add(['fill', t], dict(fill=color0()))
    c.tok('uuid', 'uuid', 'U', opt=True)
    for f, keys in (('sheetName', ['Sheet name', 'Sheetname']), ('fileName', ['Sheet file', 'Sheetfile'])):
        k = b.pick(f + '.key=', keys)
        o, t = b.make('Property', f)
        o.f['key'] = t[1] = k
        c.f[f] = o
        c.add(t, {f: prop0(keys[0])})
    n = b.count('properties#')
    ps = []
    for i in range(n):
        o, t = b.make('Property', 'properties[%d]' % i, base=None if i == 0 else 'min')
        for r in RESERVED:
            b.e.assume_ne(o.f['key'], r)
        ps.append(o)
        c.add(t, None)
    c.const(properties=ps)
    c.subs('pins', 'HierarchicalPin')
    c.inside('instances', 'instances', 'HierarchicalSheetProjectInstance', False)
    return c.done()


@spec(S, 'HierarchicalSheetInstance')
def hinst(b):
    c = b.cls('HierarchicalSheetInstance', 'path')
    c.arg('instancePath', 'T')
    c.tok('page', 'page', 'T', d='1')
    return c.done()


@spec(S, 'SymbolInstance')
def syminst(b):
    c = b.cls('SymbolInstance', 'path')
    c.arg('path', 'T')
    c.tok('reference', 'reference', 'T', d='')
    c.tok('unit', 'unit', 'I', d=0)
    c.tok('value', 'value', 'T', d='')
    c.tok('footprint', 'footprint', 'T', d='')
    return c.done()


@spec('schematic', 'Schematic')
def schematic(b):
    c = b.cls('Schematic', 'kicad_sch')
    c.tok('version', 'version', 'I', d='20211014')
    c.tok('generator', 'generator', 'W', d='kiutils')
    c.tok('uuid', 'uuid', 'U', opt=True)
    c.sub('paper', 'PageSettings', d=Obj('PageSettings', dict(paperSize='A4', width=None, height=None, portrait=False)))
    c.sub('titleBlock', 'TitleBlock', opt=True)
    c.inside('libSymbols', 'lib_symbols', 'Symbol', True)
    c.subs('junctions', 'Junction')
    c.subs('noConnects', 'NoConnect')
    c.subs('busEntries', 'BusEntry')
    c.subs('busAliases', 'BusAlias')
    c.polys('graphicalItems', ['Connection', 'PolyLine'])
    c.polys('shapes', ['SchArc', 'Circle', 'Rectangle'])
    c.subs('images', 'Image')
    c.subs('textBoxes', 'TextBox')
    c.subs('texts', 'Text')
    c.subs('labels', 'LocalLabel')
    c.subs('globalLabels', 'GlobalLabel')
    c.subs('hierarchicalLabels', 'HierarchicalLabel')
    c.subs('netclassFlags', 'NetclassFlag')
    c.subs('schematicSymbols', 'SchematicSymbol')
    c.subs('sheets', 'HierarchicalSheet')
    c.inside('sheetInstances', 'sheet_instances', 'HierarchicalSheetInstance', False)
    c.inside('symbolInstances', 'symbol_instances', 'SymbolInstance', False)
    return c.done()
