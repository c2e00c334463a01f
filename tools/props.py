"""Writes /verif/properties.jsonl (kept as code so that the texts stay readable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


LIN, PAR, PP, FT, FL, ND = 'vrml/vrml97/linearise.py', 'vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/fieldtypes.py', 'vrml/field.py', 'vrml/node.py'

p('C01', 'String values survive writing a scene and reading it back',
  'A node whose string and string-list fields hold any text (quotes, backslashes, line breaks, commas, "#", non-ASCII characters, empty strings, empty lists) reads back, after being written as VRML97 text, with exactly the same strings in the same order. The written text is accepted completely by the parser.',
  ['inputs'], 'every string up to a length bound and every list of strings up to a length bound, over all Unicode characters that can be encoded',
  'The tests write a handful of fixed strings; escaping goes wrong at particular combinations of quotes and backslashes, at line-length thresholds or with single-element lists.',
  [LIN, FT, PAR, PP], [('string escaping', FT), ('string grammar and unescaping', PAR + ', ' + PP)])
p('C02', 'Numbers, vectors, booleans and arrays survive writing and reading back',
  'Integer, float, time, vector, rotation, colour, boolean, image, matrix and array field values, of any magnitude and sign, including empty and long lists, read back equal after the node was written as VRML97 text, to the precision the field stores. A value differing from the field default is always written, whatever part of it differs.',
  ['inputs'], 'every decimal value within a digit and exponent bound in every position of every field type, lists up to a length bound',
  'The tests write a few round values; formatting errors show at particular digits, exponents, signs, hexadecimal or zero-padded forms, list lengths and partial equality with a default.',
  [LIN, FT, PP, 'vrml/arrays.py'], [('number formatting', FT), ('number parsing', PP), ('comparison with the default', 'vrml/arrays.py')])
p('C03', 'The structure of a scene survives writing and reading back',
  'A scene graph, with its node types, field values, names, order of children, nodes used in several places by name, routes, scripts, prototypes with their interfaces, defaults, bodies and field mappings, and external prototypes, reads back as an equivalent graph after being written as VRML97 text: a named shared node is still one node. Writing that graph again gives the same text.',
  ['programs', 'inputs'], 'every graph up to a node-count bound over the main node kinds, every legal identifier up to a length bound, every combination of the listed constructs',
  'The tests write two small scenes; sharing, naming, routes to unnamed nodes, prototypes and formatting thresholds interact in ways only some graphs show.',
  [LIN, PP, PAR, ND, 'vrml/vrml97/scenegraph.py', 'vrml/route.py'], [('lineariser', LIN), ('parse processor', PP), ('grammar', PAR)])
p('C04', 'Layout, commas and comments never change what a file means',
  'Whitespace, line terminators, commas between values and comments, wherever VRML97 allows them, do not change the scene read from a text. A comment hides everything up to the end of its line, whatever characters it holds, and nothing after it; text inside a quoted string is never taken for layout or a comment.',
  ['inputs'], 'every sequence of layout characters up to a length bound at every token boundary of the sampled constructs, any comment text up to a length bound',
  'The tests parse fixtures in one layout; the grammar repeats the layout rule by hand at each construct, so a missing spot only shows with layout exactly there.',
  [PAR], [('layout production at each token boundary', PAR)])
p('C05', 'A text is read completely and only if it is well formed',
  'A truncated text, a text with unbalanced brackets, braces or quotes, a text with trailing garbage, an unknown node type or field, or a reference to a name not defined is rejected with an error and never yields a silently shortened or altered scene. Keywords are recognised only as whole words, so any legal identifier can be a node type, field or node name, and TRUE, FALSE, NULL and numbers in every VRML97 notation are read with their meaning.',
  ['inputs'], 'every position of truncation and every inserted character in the sampled constructs, every identifier up to a length bound',
  'The tests only parse correct files and one wrong one; rejection must hold at every cut and for every stray character.',
  [PAR, PP], [('grammar with error points', PAR), ('name and prototype lookups', PP)])
p('C06', 'Setting a field stores one canonical value that the field owns',
  'Whatever accepted form a value is given in (scalar, string, tuple, list, nested list, iterator, array of another element type), the stored value has the one type, shape and precision of the field and equals the given numbers; storing a stored value again changes nothing; and values that do not fit (wrong number of components, not convertible) raise an error and leave the old value. Later changes to the caller\'s object, or to another node\'s value, do not reach the stored value.',
  ['inputs', 'histories'], 'every field type, every accepted input form, symbolic numbers in every position, lists up to a length bound',
  'The tests cover a few forms of a few types; each type and form takes its own path through the coercions.',
  [FT, FL], [('coercion per field type', FT)])
p('C07', 'Colours are kept in range, and hex and named colours mean what CSS says',
  'Every colour component a colour field stores lies between 0 and 1: a component inside the range is stored unchanged, one below as 0 and one above as 1. A colour given as "#rrggbb" or "#rgb" hexadecimal digits in either case, or as a CSS colour name, stores the components CSS defines for it.',
  ['inputs'], 'every component value, every six- and three-digit hexadecimal string, every colour name',
  'The tests check single colours; there are 16 million hexadecimal strings.',
  ['vrml/csscolors.py', FT], [('colour string conversion', 'vrml/csscolors.py'), ('clamping', FT)])
p('C08', 'Field access behaves like a variable with exactly one notice per change',
  'After any sequence of sets, gets and deletes on the fields of nodes, reading a field gives the last value set, or the default after creation or deletion, and never another node\'s value; deleting a field without a value is an error. Each set and each deletion sends exactly one notification, from that node and for that field, with the new value, after the value is in place; reads and silent sets send none.',
  ['histories', 'inputs'], 'every history up to a length bound over two nodes and several field types, with the Python and with the compiled field storage',
  'The tests look at single operations with a single implementation; defaults created on demand, silent sets and deletions interact in longer histories.',
  [FL, 'accelerate/src/fieldaccel2.pyx', ND], [('field descriptor', FL), ('compiled descriptor', 'accelerate/src/fieldaccel2.pyx')])
p('C09', 'Child lists behave like lists and report every child added or removed',
  'Any sequence of list operations on a node\'s child list (append, insert, extend, in-place add, pop, remove, item and slice assignment and deletion, assignment of a whole new list) leaves the same contents and raises the same errors as on a plain list. The notices sent account for exactly the children that were added and removed by each operation, and the field itself reports a change.',
  ['histories', 'inputs'], 'every history up to a length bound with every index and slice in a range',
  'The tests run fixed short histories; index, slice and duplicate handling differ per operation.',
  ['vrml/olist.py', ND], [('observable list', 'vrml/olist.py'), ('forwarding of list events to the node', ND)])
p('C10', 'A copied graph is equal, equally shared, and independent',
  'Copying a node or scene yields a graph of new nodes with the same types, names, values, order and sharing (a node used twice is copied once), including routes between the copied nodes, and leaves the original unchanged. Later changes to fields, child lists or arrays of either graph do not show in the other.',
  ['programs', 'histories'], 'every graph up to a node-count bound, with sharing, one mutation at any place of either side',
  'The tests copy nothing; sharing and aliasing only show for particular graph shapes and mutations.',
  [ND, FL, 'vrml/copier.py', 'vrml/vrml97/scenegraph.py', 'vrml/route.py'], [('copy with memory of copied nodes', 'vrml/copier.py')])
p('C11', 'Scenes know their named nodes, and nodes know their scene',
  'In a scene read from text or put together by hand, looking a name up gives the node last registered under it (also when a node of that DEF name joins the scene), a node registered under another name is found under its new name only, and a node that is not registered is not found. Every node that becomes part of a scene, directly or as part of a subtree, refers to that scene, and keeps doing so when attached elsewhere while the scene exists.',
  ['histories', 'programs'], 'every history of registrations, renames and attachments up to a length bound over a few nodes and names',
  'The tests never rename or move nodes.',
  ['vrml/vrml97/scenegraph.py', ND, PP], [('name table', 'vrml/vrml97/scenegraph.py'), ('root propagation', ND)])
p('C12', 'Each instance of a prototype has its own body wired to its own fields',
  'Every instance of a prototype gets its own copy of the prototype\'s body: the body fields mapped to an interface field hold that instance\'s value, initially the declared default, and follow every later change of that instance only. Neither the prototype\'s template nor another instance ever changes with it.',
  ['programs', 'histories'], 'every prototype up to a size bound, one or more mappings per interface field, histories of sets over two instances',
  'The tests only check that prototypes parse; leaks between instances need two instances and a change.',
  [ND, 'vrml/route.py', PP], [('instantiation of the template', ND), ('two-way mapping', 'vrml/route.py')])
p('C13', 'Routes deliver every change once, in order, and always stop',
  'When the source field of a route changes, the destination field receives the new value, and so on along chains, fan-outs and diamonds; no other field changes. Forwarding ends for every route graph, including cycles and self-routes: along each route that leaves the changed field, every other field receives at most one event and the changed field none. The next change is delivered again, in order.',
  ['programs', 'histories'], 'every route graph up to a bound of nodes and routes, every change of a value',
  'The tests contain no routes; termination and exactly-once delivery are statements about all route graphs.',
  ['vrml/route.py', 'vrml/event.py', 'vrml/vrml97/scenegraph.py'], [('forwarding with visited marks', 'vrml/route.py')])
p('C14', 'Cached data is never served after what it depends on changed',
  'Data cached for a node under a key is returned for exactly that node and key until a field it depends on is set, deleted or receives a routed event, or the node goes away; afterwards it is not returned any more, while data under other keys, of other nodes or depending on other fields stays. Data of a node that no longer exists is never returned for a new node.',
  ['histories'], 'every history of storing, depending, changing, reading and dropping up to a length bound over two nodes and two keys',
  'The tests do not exercise the cache directly; staleness needs particular orders of operations.',
  ['vrml/cache.py', FL], [('dependency notifications', 'vrml/cache.py')])
p('C15', 'Transform matrices compose as VRML97 defines, with exact inverses',
  'The matrix built from translation, rotation, scale, scale orientation and center maps a point as VRML97 prescribes (scale along the oriented axes about the center, rotate about the center, translate), combined with a parent matrix in parent order. Each inverse matrix the library returns is the inverse of the matching forward matrix, every rotation matrix preserves lengths and turns counter-clockwise about the normalised axis, and an identity part may be omitted but never changes the result.',
  ['inputs'], 'every real translation, center, non-zero scale, unit or unnormalised axis and angle, symbolically',
  'The tests compare a few fixed matrices; sign and order errors vanish when components are zero, equal or axis-aligned.',
  ['vrml/vrml97/transformmatrix.py', 'vrml/vrml97/_transformmatrix.py'], [('matrix construction', 'vrml/vrml97/_transformmatrix.py'), ('composition', 'vrml/vrml97/transformmatrix.py')])
p('C16', 'The matrix of a node path always reflects the current field values',
  'The matrix of a path is the product of the transforms along it as their fields are at that moment, in path order, and the inverse matrix is its inverse, whatever was asked and changed before. Leaving translations, scales or rotations out gives exactly the matrix without those parts.',
  ['histories', 'inputs'], 'every history of changes and requests up to a length bound on paths up to a depth bound, symbolic field values',
  'The tests check single requests; a missing dependency of the cached matrix shows only after a request, a change of that field, and another request.',
  ['vrml/vrml97/nodepath.py', 'vrml/vrml97/basenodes.py', 'vrml/cache.py'], [('cached path matrix', 'vrml/vrml97/nodepath.py'), ('cached local matrices', 'vrml/vrml97/basenodes.py')])
p('C17', 'Projection matrices map the view volume to the unit cube',
  'The perspective matrix maps the corners of the frustum given by field of view, aspect, near and far distance to the corners of the cube from -1 to 1, and its inverse variant is its exact inverse; the orthographic matrix maps its box to that cube.',
  ['inputs'], 'every valid frustum and box with real parameters',
  'The tests check one frustum.',
  ['vrml/vrml97/_transformmatrix.py', 'accelerate/src/tmatrixaccel.pyx'], [('projection matrices', 'vrml/vrml97/_transformmatrix.py')])
p('C18', 'The compiled accelerator computes what the Python code computes',
  'With the compiled accelerator installed, transformation, rotation, scale, translation and projection matrices, including which are omitted as identity, have the same values as without it, up to single precision. Its culling test reports a plane exactly when all points lie behind that plane, and reports the first such plane.',
  ['inputs', 'configurations'], 'every real argument, every set of planes and points up to a count bound',
  'The tests run with one of the two implementations, on fixed values.',
  ['accelerate/src/tmatrixaccel.pyx', 'accelerate/src/frustcullaccel.pyx', 'vrml/vrml97/_transformmatrix_accel.py', 'vrml/vrml97/_transformmatrix.py'], [('compiled matrices', 'accelerate/src/tmatrixaccel.pyx'), ('compiled culling', 'accelerate/src/frustcullaccel.pyx')])
p('C19', 'Node paths compare, join, share prefixes and break as sequences of nodes',
  'Two paths are equal exactly when they hold the same nodes in the same order; adding a node or path gives a new path of all nodes in order and leaves the operands unchanged; the common part of two paths is their longest common prefix. Invalidating a path marks it and every path derived from it at any depth, and no other.',
  ['programs', 'histories'], 'every pair of paths up to a length bound over a few nodes, every derivation tree up to a size bound',
  'The tests check two-level derivations and single pairs.',
  ['vrml/nodepath.py', 'vrml/vrml97/nodepath.py'], [('path type', 'vrml/nodepath.py'), ('derivation tree', 'vrml/vrml97/nodepath.py')])
p('C20', 'Weak collections hold exactly their living members, in order',
  'A weak list behaves like a list of the objects put into it and loses exactly those that are no longer alive, without keeping any alive; a weak tuple holds its objects in order and reports when one has gone instead of returning something else; a dictionary with weak keys behaves like a dictionary and loses exactly the keys that are no longer alive.',
  ['histories'], 'every history of list operations and object deaths up to a length bound',
  'No test touches these types.',
  ['vrml/weaklist.py', 'vrml/weaktuple.py', 'vrml/weakkeydictfix.py'], [('weak list', 'vrml/weaklist.py'), ('weak tuple', 'vrml/weaktuple.py'), ('weak dictionary', 'vrml/weakkeydictfix.py')])
p('C21', 'A field is found under each of its names and nothing else is',
  'Looking a field or event up on a node or node type by its name, by "set_" plus its name, or by its name plus "_changed" gives that very field or event (an exact name first; the prefix and the suffix may also be repeated and combined), also for inherited and internally stored fields; any other name, such as that of a method or attribute of nodes which is no field, is an error. The list of fields or events holds each declared one exactly once, with overriding declarations replacing inherited ones.',
  ['inputs', 'programs'], 'every name up to a length bound, every placement of declarations in a small class hierarchy',
  'The tests look a few names up.',
  ['vrml/protofunctions.py', ND], [('name lookup', 'vrml/protofunctions.py')])
p('C22', 'Reading and writing leave no traces on other scenes or later texts',
  'Reading a text gives the same scene, or is refused in the same way, whatever texts were read before it, well formed or not, with the same or another parser: the prototypes, names and fields of one text are unknown in every other. Scenes read earlier and the library node types stay as they were, and changing a scene does not change what its text reads as again. Writing a scene or a node does not change it, except that unnamed nodes at the ends of routes are given names, and writing it again after any other writing gives the same text. Formatting chosen for one writing does not apply to the next.',
  ['histories', 'inputs', 'programs'], 'every pair of texts from the listed kinds read one after the other, with symbolic names and values; every listed change to a scene; every listed kind of scene written repeatedly',
  'The tests read and write each text once, mostly in a fresh process; state kept between calls only shows in the second text.',
  [PAR, PP, LIN, 'vrml/vrml97/basenamespaces.py'], [('processor built for each text', PAR), ('per-text stacks and name tables', PP), ('state of one writing', LIN), ('shared base types', 'vrml/vrml97/basenamespaces.py')])
p('C23', 'The library node types have the fields and defaults VRML97 defines',
  'Every node type of ISO/IEC 14772-1 is known under its name and has exactly the fields and events the standard defines for it, each with its type, access (field, exposedField, eventIn or eventOut) and default value (PointSet has four further fields). A node made or read with a value for one field holds that value there and the default everywhere else, and neither setting fields of a node nor changing its default values in place shows in another node made before or after.',
  ['inputs', 'programs'], 'every standard node type and field, every identifier up to a length bound as field name, every value given as attribute, keyword or text',
  'The tests use a handful of node types with most fields given; wrong or shared defaults show only for the type and field concerned.',
  ['vrml/vrml97/basenodes.py', 'vrml/vrml97/basenamespaces.py', FL], [('node types', 'vrml/vrml97/basenodes.py'), ('types known to the parser', 'vrml/vrml97/basenamespaces.py'), ('defaults made per node', FL)])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
