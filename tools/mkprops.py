"""writes properties.jsonl and MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/kiutils/' + f for f in files],
                               mechanism=[dict(name=n, where='src/kiutils/' + w) for n, w in mech], observe_at=observe, hook_needed=None)))


def fam(id, kind, title, files, mech):
    p(id, title,
      "Whatever values the attributes of a %s and of everything inside it have (within what the file format can express), saving it writes exactly the documented tokens with exactly these values, and loading such tokens gives every attribute the value written in the file. "
      "List entries keep their number and order, switches that are off and attributes that are not set write no token, and a token missing from the file leaves its documented default." % kind,
      ['inputs'], 'all attribute values, all combinations of present and absent optional tokens, all list lengths, for every kind of item that can occur in a %s' % kind,
      'The tests load a few dozen sample files and compare the saved text with the sample: they fix one value per attribute and hardly any combination of optional tokens, and never look at the loaded attribute values.',
      files, mech, ['attribute values after loading', 'tokens of the saved text'])


fam('C01', 'board', 'Boards are saved and loaded without losing or altering anything',
    ['board.py', 'items/brditems.py', 'items/gritems.py', 'items/zones.py', 'items/dimensions.py', 'items/common.py', 'footprint.py', 'items/fpitems.py'],
    [('Board.from_sexpr / to_sexpr', 'board.py'), ('item classes from_sexpr / to_sexpr', 'items/brditems.py')])
fam('C02', 'footprint', 'Footprints are saved and loaded without losing or altering anything',
    ['footprint.py', 'items/fpitems.py', 'items/zones.py', 'items/common.py'],
    [('Footprint, Pad, Model, Attributes from_sexpr / to_sexpr', 'footprint.py'), ('footprint graphics', 'items/fpitems.py')])
fam('C03', 'symbol library', 'Symbol libraries are saved and loaded without losing or altering anything',
    ['symbol.py', 'items/syitems.py', 'items/common.py'],
    [('SymbolLib, Symbol, SymbolPin from_sexpr / to_sexpr', 'symbol.py'), ('symbol graphics', 'items/syitems.py')])
fam('C04', 'schematic', 'Schematics are saved and loaded without losing or altering anything',
    ['schematic.py', 'items/schitems.py', 'symbol.py', 'items/syitems.py', 'items/common.py'],
    [('Schematic.from_sexpr / to_sexpr', 'schematic.py'), ('schematic items', 'items/schitems.py')])
fam('C05', 'worksheet', 'Worksheets are saved and loaded without losing or altering anything',
    ['wks.py', 'items/common.py'], [('WorkSheet and its drawing items from_sexpr / to_sexpr', 'wks.py')])
fam('C06', 'design rule file', 'Design rule files are saved and loaded without losing or altering anything',
    ['dru.py'], [('DesignRules, Rule, Constraint from_sexpr / to_sexpr', 'dru.py')])
fam('C07', 'library table', 'Library tables are saved and loaded without losing or altering anything',
    ['libraries.py'], [('LibTable, Library from_sexpr / to_sexpr', 'libraries.py')])

ALL = ['utils/sexpr.py', 'utils/strings.py', 'board.py', 'footprint.py', 'symbol.py', 'schematic.py', 'wks.py', 'dru.py', 'libraries.py',
       'items/common.py', 'items/brditems.py', 'items/gritems.py', 'items/fpitems.py', 'items/syitems.py', 'items/schitems.py', 'items/zones.py',
       'items/dimensions.py']
p('C08', 'Any text survives saving and loading character by character',
  "Every attribute that holds quoted text (names, values, property keys and values, layer names, descriptions, file names, ...) comes back identical after saving and loading, for every text: empty, with quotes, brackets, backslashes, line breaks, blanks or any Unicode character. "
  "Reading a file, a quoted text never swallows or splits neighbouring tokens. The one exception is a text whose last character is a backslash.",
  ['inputs'], 'all texts in every text attribute of every kind of item, and all positions of a quoted text among other tokens',
  'The tests contain a handful of texts with quotes; the property is about all characters, all positions and every text attribute.',
  ALL, [('quoting of texts', 'utils/strings.py'), ('tokenizer', 'utils/sexpr.py')], ['text attributes after saving and loading', 'tokens of a given text'])
p('C09', 'Any number survives saving and loading with its exact value',
  "Every numeric attribute (coordinates, angles, sizes, widths, counts, ratios) comes back with the same numeric value after saving and loading: negative, zero, integral, fractional, very small and large values alike. "
  "A number in a file, in plain or signed-exponent notation, is read as that number, and what is not a number (identifiers, versions, words with digits) is kept as text.",
  ['inputs'], 'all numeric values in every numeric attribute; all decimal and exponent spellings in a file',
  'Sample files contain a few hundred concrete numbers with few spellings.',
  ALL, [('number recognition and conversion', 'utils/sexpr.py'), ('number formatting in to_sexpr', 'items/*.py')], ['numeric attributes after saving and loading'])
p('C10', 'File text is split into exactly the nested tokens it contains',
  "Reading text gives exactly the nested lists of words, numbers and quoted texts that the text contains, in order, at any nesting depth and length, whatever white space (blanks, tabs, line breaks, none where none is needed) separates them. "
  "Text with a missing or surplus bracket, or cut off before its end, is refused with an exception and never read as something else.",
  ['inputs'], 'all token trees up to the bounds, all white space between tokens, every place where a bracket is missing, doubled or the text is cut off',
  'The tests only read well-formed files in the layout KiCad or kiutils produces.',
  ['utils/sexpr.py'], [('token regular expression and stack', 'utils/sexpr.py')], ['result of parsing a text'])
p('C11', 'The order of tokens inside an item does not matter when loading',
  "Loading does not depend on the order in which the named tokens inside an item appear in the file: any rearrangement gives the same attribute values. The same goes for switch words (hide, locked, bold, private, ...) that do not belong to the value next to them. Only entries of one list keep their order among each other.",
  ['inputs'], 'all items, all rearrangements of their named tokens (each token moved to the front or the end, and complete reversal, and each switch word to every place, within the bounds)',
  'Sample files always use the order KiCad writes.', ALL[2:], [('token dispatch loops in from_sexpr', 'items/*.py')], ['attribute values after loading'])
p('C12', 'Loading something of the wrong kind fails with an exception',
  "Every kind of item and file refuses to load from a token of another kind: a token with a different name, a bare word, a number, a text or nothing at all raises an exception instead of producing an object. Tokens with the right name, including the alternative names the format allows, are not refused.",
  ['inputs'], 'all token names different from the expected ones, for every class', 'The tests never load a wrong token.',
  ALL[2:], [('type check at the start of from_sexpr', 'items/*.py')], ['exception or object returned by loading'])
p('C13', 'Saving and loading have no side effects and share no state',
  "Saving an object changes neither it nor anything else and gives the same text every time; loading changes neither its input nor objects that exist already. "
  "Separately created or loaded objects never share a mutable part, so editing one never changes another. What is saved or loaded does not depend on what was saved, loaded or created before.",
  ['inputs', 'histories'], 'all objects of every class, followed by all objects of the same or another class',
  'The tests look at one object at a time and never at what an operation leaves behind.', ALL, [('default factories', 'items/*.py'), ('from_sexpr building fresh objects', 'items/*.py')],
  ['identity of mutable parts', 'text and attributes after a sequence of operations'])
p('C14', 'Indentation and newline arguments only change white space',
  "Whatever indentation and final-newline setting an item is saved with, the tokens and values written are the same. The first line is indented by exactly the number of blanks asked for, and the text ends with a line break exactly if one is asked for (a complete design rule file always ends with one).",
  ['inputs', 'configurations'], 'all indentations 0-99 and both newline settings for every class that takes them and all attribute values within the bounds',
  'The tests save with the default arguments.', ALL[2:], [('indent / newline handling of to_sexpr', 'items/*.py')], ['text returned by to_sexpr'])
p('C15', 'Saving again after loading reproduces what was saved',
  "Once a file has been loaded and saved, loading and saving the result again reproduces it: the same tokens with the same values in the same order, no token appears, disappears or drifts. This also holds for files in which optional tokens are missing.",
  ['inputs', 'histories'], 'all files expressible by the format tables, with all values and combinations of optional tokens within the bounds',
  'The tests save once and compare with one sample.', ALL, [('symmetry of from_sexpr and to_sexpr', 'items/*.py')], ['tokens of the first and the second saved text'])
p('C16', 'Library identifiers are taken apart and put together without loss',
  "Setting the library identifier of a symbol, footprint or placed symbol splits it into nickname and entry name at the first colon (no nickname without one), and reading it gives back the identifier that was set; nothing of an identifier set earlier remains. "
  "A name ending in _<unit>_<style> is split into entry name, unit and style number for symbols (which hold only a name without nickname), and renaming a symbol renames its units accordingly.",
  ['inputs', 'histories'], 'all nicknames and entry names without a colon in the nickname or a line break, all unit and style numbers, set once or after another identifier',
  'The tests use a few identifiers.', ['symbol.py', 'footprint.py', 'items/schitems.py'], [('libId getter and setter', 'symbol.py'), ('libId getter and setter', 'footprint.py'), ('libId getter and setter', 'items/schitems.py')],
  ['identifier and its parts after setting', 'saved token'])
p('C17', 'Files are read and written exactly where and as asked, or not at all',
  "Saving writes exactly the saved text, in the requested encoding, to the given path (or the remembered one if none is given, failing if there is neither), replaces old content completely and touches nothing else; loading from a file gives the same object as loading its content, remembers the path and changes no file. "
  "A save that fails because of the content leaves an existing file as it was, and loading a missing file or one of another kind raises an exception.",
  ['inputs', 'fault_sequences', 'histories'], 'all file kinds, paths, contents and the encodings UTF-8, UTF-16, Latin-1 and ASCII; every list of an object holding an item that cannot be saved',
  'The tests write to one fixed output path and read it back.', ['board.py', 'footprint.py', 'symbol.py', 'schematic.py', 'wks.py', 'dru.py', 'libraries.py'],
  [('from_file / to_file', 'board.py')], ['content of all files', 'remembered path', 'exceptions'])
p('C18', 'New objects are complete, independent and survive saving and loading',
  "The functions that create a new board, schematic, footprint, symbol, worksheet, design rule file or library table give an object with the requested and documented initial content, unaffected by other objects, that can be saved and loads back identical. "
  "A footprint type that is not supported is refused. An object built with only some attributes given, the others at their defaults, also survives saving and loading unchanged.",
  ['inputs', 'histories'], 'all arguments of the creation functions; for every class every single attribute set to any value with the rest at their defaults',
  'The tests create one object of some kinds with fixed arguments.', ALL[2:], [('create_new', 'board.py'), ('dataclass defaults', 'items/*.py')], ['attributes of the new object', 'object after saving and loading'])
p('C19', 'Unknown tokens inside a known item are skipped without harm',
  "A token with a name kiutils does not know, anywhere among the named tokens of an item and with any content, is ignored when loading: no exception, and all other attributes get the values they would have without it.",
  ['inputs'], 'all unknown token names (any word of the length of a known name or up to two characters off, and zz_<word>), contents (number, text, nested token, the content of a known token), positions and numbers of them, for every class', 'No sample file contains an unknown token.',
  ALL[2:], [('token dispatch loops in from_sexpr', 'items/*.py')], ['attribute values after loading'])
p('C20', 'Saving writes the current attribute values, whatever was loaded before',
  "After loading an object and changing any of its attributes - replacing values, editing nested objects or lists in place, switching options on or off - saving writes exactly the current values, as if the object had been built with them directly. Nothing of the loaded state remains.",
  ['inputs', 'histories'], 'all pairs of a loaded state and a new state of every class within the bounds, edited by replacement or in place, before or after a first save',
  'The tests never edit a loaded object and save it, except for one or two attributes.', ALL[2:], [('to_sexpr reading the attributes', 'items/*.py')], ['tokens saved after the edit'])
p('C21', 'What is incomplete or has no form in the file is refused, not made up',
  "Loading a token that lacks a value it needs (the name or text an item starts with, a coordinate, the value of a named token) raises an exception instead of inventing the value. "
  "Saving an object the format has no form for raises an exception instead of writing a wrong token: a free ('User') paper size without width or height, a zone without layers, a dimension without points, a turned text box without exactly four corners, any other text box without start or end. "
  "Content kiutils knows but cannot hold (dimensions in footprints and in pads, polygons in worksheets, bus aliases that are not exactly a name and members) is refused when loading.",
  ['inputs'], 'every required value of every class left out, in the smallest and fullest form of its item, whatever the other values are; all values of the attributes around the missing one',
  'No test loads a truncated token or saves an incomplete object.', ALL[2:], [('from_sexpr positional access', 'items/*.py'), ('checks at the start of to_sexpr', 'items/common.py')], ['exception raised by from_sexpr / to_sexpr'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    note = ("Bounded symbolic execution of the current /repo/src: every path of the functions encoded is explored with symbolic values and z3 decides each assertion; counterexamples are replayed on the unmodified package in a fresh process before being reported. "
            "Holds within the bounds in the evidence file (value shapes, number of optional tokens deviating from the empty and from the full item, list lengths); trusts the format tables in spec/, the symbolic model of str/re/float in vsym/ (validated by replaying path models natively on every run), and CPython.")
    m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=[], not_applicable=[],
             notes='One driver: check.py --property <id> --tier quick|thorough. Known and repaired defects: known_findings.json. Replay a counterexample with replay.py FILE.')
    for x in P:
        m['checks'].append(dict(property=x['id'], quick_cmd='python3-vt check.py --property %s --tier quick' % x['id'],
                                thorough_cmd='python3-vt check.py --property %s --tier thorough' % x['id'],
                                technique='bounded symbolic execution of the real Python code with z3 (AST-instrumented, all paths within bounds), counterexamples replayed natively',
                                level='model_checking', level_note=note))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
