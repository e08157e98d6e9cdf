"""The property catalogue.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = []
NA = []
SC = 'flatland/schema/scalars.py'
CO = 'flatland/schema/containers.py'
BA = 'flatland/schema/base.py'


def P(id, title, statement, over, text, why, files, mech, note='', state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files, mech=mech, note=note))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))


# ---------------------------------------------------------------- scalars
P('S01', 'Scalar set() keeps raw, value, text and return value in step',
  'After set(v) on any scalar element .raw is v; if adaptation succeeded set() returns True, .value is the adapted '
  'value and .u its serialization (empty text for None). If adaptation failed set() returns False, .value is None and '
  '.u is the text of v (v itself if it is text, empty for None), whatever the element held before.',
  'inputs histories', 'every value, every adapt() outcome, every prior state of the element',
  'Tests call set() with a few literals on fresh elements; they cannot cover every value kind crossed with every '
  'adaptation outcome and every stale prior state.',
  [SC], [('Scalar.set', SC)])
P('S02', 'Scalar set() reports bad data by returning False, never by raising',
  'set(v) on every shipped scalar type (String, Integer, Long, Float, Decimal, Boolean, Date, DateTime, Time, Enum, '
  'Constrained; stripping or not, signed or not) returns a bool for any v: text, undecodable bytes, numbers, NaNs, '
  'None, containers or arbitrary objects. No exception escapes, .u is always text, and after False .value is None.',
  'inputs', 'every value of every kind, for every shipped scalar type',
  'Tests sample a handful of malformed inputs per type; undecodable bytes, signalling NaNs and foreign objects are '
  'not among them.',
  [SC], [('Scalar.set', SC), ('String.adapt', SC), ('Number.adapt', SC), ('Temporal.adapt', SC)])
P('S03', 'Constrained, Enum and unsigned numbers never hold a rejected value',
  'By whichever route a value arrives (constructor, set, defaults, flat data) a Constrained element holds None or a '
  'value its child type adapted and valid_value accepted, an Enum holds None or one of its valid values, and a '
  'signed=False number holds None or a non-negative number. Values inside the constraint are stored, and set() '
  'returns True for them.',
  'inputs histories', 'every value and route, every outcome of the child type and of valid_value',
  'Tests try single routes with single literals.',
  [SC], [('Constrained.adapt', SC), ('Enum.valid_value', SC), ('Number.adapt', SC)])
P('S04', 'Temporal elements parse what they serialize, field by field',
  'Date, Time and DateTime store a native value unchanged and serialize every component of it, zero padded; the text '
  'so produced always parses back with each component in its own constructor argument. Non-matching text, components '
  'the constructor refuses and foreign types are refused with value None; surrounding white space is ignored iff '
  'strip is on.',
  'inputs', 'every date, time and datetime (whole seconds) and every text',
  'A swapped or mis-padded component only shows on values the tests do not use.',
  [SC], [('Temporal.adapt', SC), ('Temporal.serialize', SC), ('Date/Time/DateTime tables', SC)])
P('S05', 'Boolean accepts exactly its synonyms and serializes to true/false',
  'A Boolean adapts text to True iff it equals .true or a true synonym, to False iff it equals .false or a false '
  'synonym, and fails otherwise; any non-text value adapts to its truth. The serialized form is the configured '
  '.true/.false text and always adapts back to the same truth value.',
  'inputs configurations', 'every value, every configuration of the four tables',
  'Tests cover the default tables only.',
  [SC], [('Boolean.adapt', SC), ('Boolean.serialize', SC)])
# ------------------------------------------------------------- containers
P('C01', 'Sequence members are always Elements parented to their container',
  'After any list operation on a List, Array, MultiValue or JoinedString (append, extend, +=, insert, item, slice and '
  'extended slice assignment, deletion, pop, remove, sort, reverse, set, defaults, flat data), with plain values or '
  'elements, every member is an Element whose parent chain starts at the sequence. Plain values are wrapped in the '
  'member schema and set; elements are kept by identity, pop() returns the member itself, and a sort key is called with each member.',
  'inputs histories', 'every mutator, position and mix of plain values, fresh and foreign elements',
  'Tests exercise a few mutators with plain values and never look at parents after item or in-place assignment.',
  [CO], [('Sequence mutators', CO), ('List mutators', CO)])
P('C02', 'List members are addressed by their current position',
  'After any mutation of a List (insertion, deletion, slicing, sorting, reversing, popping, flat data, defaults) the '
  'member at position i flattens under i, has i in its path name, and is what el() finds under that name.',
  'inputs histories', 'every mutator and position, two consecutive mutations',
  'Tests check numbering after single mutations at fixed positions.',
  [CO], [('List._renumber', CO), ('List mutators', CO)])
P('C03', 'The keys of a Dict are always exactly its declared fields',
  'Whatever is done to a Dict (item assignment, update, del, pop, clear, setdefault, set, flat data, defaults, '
  'set_by_object), its keys are the declared field names, each holding an instance of that field parented to the '
  'Dict. Setting or getting an undeclared key and every removal raise TypeError or KeyError and change nothing, and update() '
  'never stores an undeclared key; Dict.of refuses duplicate names and instances.',
  'inputs histories', 'every operation with every key',
  'Tests use one or two undeclared keys per operation.',
  [CO], [('Mapping mutators', CO), ('Dict.set', CO), ('Dict.of', CO)])
P('C04', 'A SparseDict holds only declared keys and never loses required ones',
  'Whatever is done to a SparseDict its keys are declared field names, each holding an instance of that field '
  'parented to it (an element of the field class given for a key is kept itself); undeclared keys raise TypeError or KeyError. With minimum_fields="required" no operation removes '
  'a non-optional field; set, clear and set_default discard all earlier children, and setdefault() sets a field only if it was absent or empty.',
  'inputs histories', 'every operation with every key, every initial subset of keys, both minimum_fields modes',
  'Tests sample keys and modes.',
  [CO], [('SparseDict', CO)])
P('C05', 'Dict.set enforces the strict, subset and duck policies',
  'For a Dict or SparseDict, whether the policy comes from the class, the instance or the set() argument: strict raises '
  'TypeError when a field is missing, strict and subset raise KeyError on an unknown key, duck ignores unknown keys. '
  'When set() succeeds every given field holds its value and no other field keeps an earlier one; a plain Mapping '
  'demands exactly its own keys.',
  'inputs configurations', 'every subset of the keys with an arbitrary unknown key, as pairs or mapping, every policy source',
  'Tests try one missing and one extra literal key for some policies.',
  [CO], [('Dict.set', CO), ('Mapping.set', CO)])
P('C06', 'Container set() replaces all members and reports if all adapted',
  'set() on List, Array, MultiValue, JoinedString, Dict and SparseDict drops every earlier child, makes one new child '
  'per given value (a JoinedString may prune None and empty text), in order, and sets each of them even after another failed; it returns True iff all of them adapted, '
  'at any nesting depth. A value that cannot be iterated empties a sequence and gives False.',
  'inputs histories', 'every combination of member outcomes, up to three members, lists, tuples and generators',
  'Tests check all-good and all-bad inputs, not every mix and order of failures.',
  [CO, 'flatland/schema/compound.py'], [('Sequence.set', CO), ('Mapping.set', CO)])
P('C07', 'Flat data never grows a List beyond maximum_set_flat_members',
  'However many pairs and however large the indexes in their keys, set_flat() leaves at most maximum_set_flat_members '
  'members in each List, pruning or not, nested or not. With prune_empty the members are the non-empty given indexes '
  'from the lowest up, in order; without it there is one member for each index up to the highest given, cut at the ceiling.',
  'inputs configurations', 'arbitrary keys and values, ceilings 0 to 3, indexes up to 4e9, both pruning modes',
  'Tests use small indexes and the default ceiling; the resource bound concerns hostile input.',
  [CO], [('List._set_flat', CO)])
P('C08', 'Names and separators are literal in flat keys',
  'Whatever characters a field name or a custom separator contains (including every regular-expression '
  'metacharacter), the key spelled exactly with them reaches the List, Array, MultiValue or Dict field and a key '
  'differing in those characters does not.',
  'inputs configurations', 'every metacharacter in names and in separators, for each container shape',
  'Tests use plain identifiers and one or two separators.',
  [CO, 'flatland/util/base.py'], [('re_uescape', 'flatland/util/base.py'), ('_set_flat', CO)])
P('C09', 'Unrecognized flat keys are ignored and key order does not matter',
  'A pair whose key names no field (foreign, misspelled, too long, with a malformed or negative index, or merely '
  'beginning with a field name) leaves the values as if it were absent, raises nothing and creates no sparse key unless it extends the '
  'name of one. '
  'Pairs with distinct keys give the same element in any order, as pairs or as anything with items(); of several pairs with its name a scalar takes the first, an Array all, in order.',
  'inputs schedules', 'arbitrary text keys on flat dicts, a table of near misses in every position on nested schemas',
  'Tests never mix in near-miss keys or permute the pairs.',
  [CO, SC], [('Mapping._set_flat', CO), ('List._set_flat', CO), ('Array._set_flat', CO)])
P('C10', 'Every set() records the value it was given in raw',
  'After set(v) on any scalar, List, Array, MultiValue, JoinedString, Dict, SparseDict or compound, whether or not the '
  'value adapted, .raw is exactly v. A value given to the constructor is set and recorded the same way; '
  'set_flat() forgets the earlier raw value (Unset), and a scalar that a pair names then holds the value of that pair.',
  'inputs', 'every value, adaptable or not, on every element type',
  'Tests check raw on a few scalar types after successful sets.',
  [BA, SC, CO, 'flatland/schema/compound.py'], [('Element.set', BA), ('container and compound set()', CO)])
P('C11', 'Defaults are computed once per element and applied recursively',
  'set_default() on a scalar leaves it exactly as set() of its default would (a callable default is called once with '
  'the element; no default leaves it alone). An integer default gives a List that many members each at its own default, '
  'a sequence default replaces the members, and a mapping is set to its own default or, without one, gives every field (a SparseDict: '
  'only with minimum_fields="required", every required field) its own; whether the container is optional, named or filled before has no influence.',
  'inputs configurations', 'every default: absent, None, value, callable, for every element type',
  'Tests cover a few literal defaults.',
  [SC, CO, 'flatland/schema/compound.py'], [('set_default', CO), ('default_value', BA)])
P('C12', 'A JoinedString is the joined text of its members',
  'The value and text of a JoinedString are always its members\' texts joined by separator, whatever is done to the members. Text given to it is '
  'split by separator_regex, if there is one, else by separator into one member per part, in order, and any other iterable gives one member per value; '
  'with prune_empty, None and empty text (nothing else) are left out. In flat data it is one pair under its own name.',
  'inputs configurations', 'every text, separator, separator regex, member type and value, zero and false included',
  'Tests split a few texts; falsy members and regular expressions combined with pruning are not tried.',
  ['flatland/schema/compound.py'], [('JoinedString', 'flatland/schema/compound.py')])
P('C13', 'Sequences are searched by value, and all searches agree',
  'For List, Array, MultiValue and JoinedString, "in", index(), count() and remove() look for a member equal to the given element, or to a member-schema element set to the '
  'given plain value: they agree with comparing each member, find the first one, and raise ValueError when there is none. Only remove() changes anything. '
  'Iteration, len(), items and slices give the same members in the same order, never list slots, and raise IndexError out of range.',
  'inputs histories', 'every member type, content, probe value or element, position and slice',
  'Tests search one list of integers.',
  [CO], [('Sequence', CO), ('List', CO)])
P('C14', 'Values of containers are plain copies of what their members hold',
  'The value of a List or Array is a new list of its members\' values in order, of a Dict or SparseDict a new dict of its fields\' values, at any depth. A MultiValue reads as its '
  'first member (None and blank text without any), and assigning its value or text changes that member alone, making it if need be. A scalar is empty iff it has no value and blank text, a sequence or '
  'SparseDict iff it has no members, a Dict never, a compound iff all its parts are; a scalar is true iff both value and text are.',
  'inputs', 'every element type, content and nesting',
  'Tests look at a few literal values.',
  [CO, SC, BA, 'flatland/schema/compound.py'], [('MultiValue', CO), ('Sequence', CO), ('Mapping', CO), ('is_empty', BA)])
P('C15', 'What flatten() lists, set_flat() on a new element restores',
  'For an element of any schema, nested as deep as one likes, with names that cannot be confused and no blank texts, setting a new element of that schema '
  'flat from its flatten() gives the same texts and values in every place and order, typed and unadaptable ones included, with any separator, with the pairs '
  'in another order or among foreign ones. Pruning leaves out blank list and array members only; flatten(value=f) pairs each name with what f returns for '
  'its element.',
  'inputs', 'every schema shape of a list covering each nesting of container types, with arbitrary texts, several separators and orders',
  'Tests restore a few literal trees.',
  [BA, CO, SC, 'flatland/schema/compound.py'], [('Element.flatten', BA), ('Element.set_flat', BA), ('_set_flat', CO)])
# -------------------------------------------------------------- validation
VB = 'flatland/validation/base.py'
P('V01', 'A round of validation runs validators in order and short-cuts correctly',
  'Validators run in declared order, each with the element and the state, until one gives a falsy result, skip or '
  'skip-all; the element is valid iff that result, or every result, was truthy. An empty optional element is valid '
  'without running any; with no validators an element must not be empty. Every decision is announced once through '
  'the validator_validated signal.',
  'inputs configurations', 'every sequence of up to three validators with every result each may return',
  'Tests try a few result combinations.',
  [BA, VB], [('validate_element', BA)])
P('V02', 'validate() visits the whole tree in order and fails if any part fails',
  'validate() goes down the tree breadth first running descent validators, then up running ascent validators, each '
  'element once per pass; a skip in descent excludes the children, skip-all accepts and unevaluated elements stay '
  'unevaluated. It returns True iff no element failed in either pass, and recurse=False runs both passes on this '
  'element only.',
  'inputs configurations', 'every combination of per-element results on trees of several shapes',
  'Tests fix one tree and one or two outcomes.',
  [BA], [('Element.validate', BA)])
P('V05', 'Comparison validators decide exactly their documented condition',
  'Present, IsTrue, IsFalse, ValueIn, Converted, the length and the ordering validators, and the field comparison '
  'validators (ValuesEqual, UnisEqual, MapEqual), accept iff the condition on value, text or bounds they document '
  'holds, for every element state; bounds are inclusive exactly where documented. A refusal records their one '
  'message, acceptance none.',
  'inputs configurations', 'every element value, text and bound',
  'Tests sample values on either side of a bound, rarely on it, and never with every element state.',
  ['flatland/validation/scalars.py'], [('scalar validators', 'flatland/validation/scalars.py')])
P('V06', 'Container validators count members and spot every repetition',
  'HasAtLeast, HasAtMost and HasBetween accept a List, Array, MultiValue or JoinedString iff its number of members '
  '(blank ones included) is within the inclusive bounds; nonsensical bounds are refused at construction. '
  'NotDuplicated refuses a member iff its comparator holds for an earlier sibling, reporting positions from 1.',
  'inputs configurations', 'every member count around every bound, every outcome of the comparator',
  'Tests use Lists of a few literals; string-valued sequences and repeated comparisons are not covered.',
  ['flatland/validation/containers.py'], [('container validators', 'flatland/validation/containers.py')])
VA = 'flatland/validation/'
P('V07', 'Every shipped validation message expands and names its element',
  'Whenever a shipped validator refuses an element it records exactly one non-blank message, on the element itself '
  'unless errors_to says otherwise, with no placeholder left in it and the label of the element in place. Every '
  'placeholder of every message is something the call site, the validator or every element provides.',
  'inputs configurations', 'every rejecting path of every shipped validator, every message declared by one',
  'Tests read a handful of messages for one value each.',
  [VA + f for f in ('base.py', 'scalars.py', 'containers.py', 'network.py', 'number.py', 'string.py')], [('Validator.note_error', VB), ('message templates', VA + '*.py')])
P('V08', 'Messages are translated first, then filled from extras, state and element',
  'A message is translated once by the nearest translator (state, then the element and its parents, then schemas, '
  'then builtins) before its placeholders are filled from the extra arguments, the state, the validator and the '
  'element, in that order, whatever kind of object the state is. A message with plural forms uses the singular iff '
  'its count is 1; a blanked message records nothing and still fails.',
  'inputs configurations', 'every state, every place a translator can live, every count',
  'Tests use dict states and one translator at a time.',
  [VB], [('Validator.expand_message', VB), ('Validator.find_transformer', VB)])
P('V09', 'Overrides replace existing attributes and refuse unknown names',
  'Keyword arguments of a validator or element set attributes that already exist, on the new instance alone; using() '
  'does so on a new class and leaves the original alone; any unknown name is a TypeError. validated_by() (and its '
  'descent form) refuses validator classes, and including_validators() puts the new ones at the given position of '
  'the existing ones.',
  'inputs configurations', 'every attribute and value, every position, every shipped validator',
  'Tests override one or two attributes on a few classes.',
  [BA, VB, VA + 'number.py'], [('Element.using', BA), ('Validator.__init__', VB)])
P('V10', 'URL and email validators apply their rules to every input',
  'URLValidator, HTTPURLValidator and URLCanonicalizer accept, refuse and rebuild a URL by the presence and value of '
  'each of its parts exactly as configured, and report text that does not parse instead of raising. IsEmail accepts '
  'iff there is one @, a local part, and a domain of well-formed labels within the length limits after IDN '
  'conversion, with a dot unless local domains are allowed.',
  'inputs configurations', 'every combination of present, absent and listed parts; every label and domain length',
  'Tests sample about twenty URLs and addresses with the default configuration.',
  [VA + 'network.py'], [('URL validators', VA + 'network.py'), ('IsEmail', VA + 'network.py')])
P('V11', 'Checksum, card and telephone validators decide digit by digit',
  'Luhn10 accepts a number iff its Luhn sum is a multiple of ten; the card brand follows from prefix and length alone '
  'and is accepted iff listed, and formatting loses no digit. North American phone numbers are accepted and '
  'formatted from their digits alone, with extensions refused, stripped or kept as configured, and exchanges iff in '
  'range and not reserved.',
  'inputs configurations', 'all digits at once for every number of digits up to 16; every configuration',
  'Tests try a few published numbers.',
  [VA + 'number.py', 'flatland/ext/creditcard.py'], [('Luhn10', VA + 'number.py'), ('CreditCardNumber', 'flatland/ext/creditcard.py')])
# -------------------------------------------------------------- paths
PA = 'flatland/schema/paths.py'
P('P01', 'Compiled path expressions are reusable and independent of the cache',
  'find() with a given path text means the same however many paths were used before, with the expression cache empty, '
  'full or disabled; the cache never outgrows its limit. Evaluating an expression changes neither it nor the tree, '
  'and results on one tree never mention another.',
  'histories', 'every sequence of up to three paths against a cache with room for 0, 1, 2 or many',
  'Tests never fill the cache.', [PA], [('pathexpr', PA)])
P('P02', 'find() selects exactly the elements its steps name, in order',
  'Each step of a path leads from every element selected so far: a name to the child of that name or position, .. to '
  'the parent (the root stays put, false parents count), / to the root, . nowhere, a slice to those children. '
  'Results come once per way of reaching them in order; a branch whose step is missing is dropped, or a LookupError '
  'when strict, even for unnamed elements and odd names.',
  'inputs', 'every path of up to three steps from a vocabulary covering each kind of step, absolute or not, from elements at every depth',
  'Tests list about forty paths.', [PA, BA], [('PathExpression.__call__', PA), ('tokenize', PA)])
P('P03', 'Any name can be spelled in a path; malformed brackets are names',
  'With / [ ] . escaped by a backslash any child name can be used at any place in a path (one that ends with a '
  'backslash only at its end). Brackets holding neither '
  'an index nor a slice belong to the name they stand in, and no text whatsoever makes find() raise anything but '
  'LookupError, or raise at all when not strict.',
  'inputs', 'every name made of the special characters, every path text of up to three (thorough: four) of them',
  'Tests escape a dozen names.', [PA], [('tokenize', PA)])
P('P04', 'A slice in a path selects what the same Python slice selects',
  '[start:stop:stride], with any part absent, negative, zero (stride apart) or beyond the end, selects '
  'list(children)[start:stop:stride] in that order for every container; [n] selects one child or none. Steps after a '
  'slice apply to each selected element in order.',
  'inputs', 'every combination of bounds and strides around the number of children, for every container type',
  'Tests try fifteen slices of one Array.', [PA], [('_parse_slice', PA)])
P('P05', 'el() leads to the named element or raises KeyError, and changes nothing',
  'el() with a separated text or an iterable of parts gives the element they name, starting at the root when the '
  'text begins with the separator, and raises KeyError (never anything else) when there is none, whatever the parts '
  'are and whatever the element type. Looking up never changes the tree.',
  'inputs', 'every path of one or two parts (three thoroughly) from a vocabulary of names, indexes and misses, from every kind of element',
  'Tests look up a few existing elements.', [BA, CO, SC], [('Element.el', BA), ('_index', CO)])
P('P06', 'Parents, children, names and flattened pairs all describe the same tree',
  'parent, parents, root, path, children and all_children agree with what containers hold, each descendant once, '
  'shallower first; fq_name() is what el() takes to reach the element from anywhere; all_valid reads and assigns '
  'the whole subtree. The flattened name joins names and list positions from the root, and flatten() lists each '
  'scalar at or below the element once, its own first, except what a joined string already covers.',
  'inputs configurations', 'every element of trees nesting every container type, with dict, form, sparse and list roots, named or not',
  'Tests check each property on one small tree.', [BA, CO], [('Element traversal properties', BA), ('Element.flatten', BA)])
P('P07', 'find() gives a list, one element, None or LookupError as its flags say',
  'Without single, find() returns the list of every match; with it, the match, None when there is none, and '
  'LookupError when there are several and strict is true. A step that names nothing is a LookupError exactly '
  'when strict is true; the flags count by truth.',
  'inputs configurations', 'every combination of single and strict for paths with none, one and several matches',
  'Tests cover three of the combinations.', [BA], [('Element.find', BA)])
# ------------------------------------------------- schema classes, properties
PR = 'flatland/schema/properties.py'
FO = 'flatland/schema/forms.py'
CM = 'flatland/schema/compound.py'
P('M01', 'Configuring a schema type derives a new one and leaves the original alone',
  'using(), named(), of(), with_properties(), validated_by(), including_validators() and the like each return a new '
  'direct subclass of the class they are called on, having what was configured and everything else as before. '
  'Neither the original class nor any list, dict or properties it holds ever changes, and elements (instances) do '
  'not offer these methods.',
  'configurations histories', 'every deriving method of every schema class, over every prior configuration',
  'Tests look at the derived class and rarely at what the original holds afterwards.',
  [BA, CO, FO, CM], [('deriving methods', BA), ('of()', CO)])
P('M02', 'Working with one element never changes another element or its class',
  'Setting, filling, mutating, validating or annotating an element, or creating another of the same class, changes '
  'nothing about any element outside its own tree, nothing about its class, and nothing in the mutable defaults, '
  'lists and dicts the class or its caller supplied.',
  'histories', 'every operation of every element type, between any two elements of one class',
  'Tests use one element of each class at a time.', [BA, SC, CO], [('Element.__init__', BA), ('containers', CO)])
P('M03', 'A Form has exactly one field per name, by a fixed precedence',
  'The fields of a Form are its class attributes that are Element classes, then its own field_schema, then those of '
  'its bases, the first to define a name winning, each under its attribute name. Other attributes are not fields; '
  'deriving keeps the fields and of() replaces them; the classes named originally are not renamed or changed.',
  'configurations', 'every combination of attribute, own schema and inherited schema for a name, over one or two bases',
  'Tests declare about ten forms.', [FO], [('_MetaForm', FO)])
P('M04', 'A compound type is initialized exactly once, as itself, before its first use',
  'Every Compound class, each derived class included, runs its initialization exactly once, with that very class, '
  'before the first element of it is created; a failing initialization reaches the caller, holds no lock '
  'and is retried at the next use. Constructor overrides make an element of a derived, initialized class, and '
  'unknown ones raise TypeError.',
  'histories configurations', 'every order of deriving, creating and failing, over chains of derived classes',
  'Tests create one element of a few classes.', [CM], [('_MetaCompound', CM)])
P('M05', 'A compound date and its parts always tell the same date',
  'However a DateYYYYMMDD is filled (a date, text, None, unusable values, its parts, defaults) its value and text are '
  'those of its year, month and day fields and the reverse; set() returns whether it could adapt the value and never '
  'raises. The generated fields come in order and follow optional.',
  'inputs histories', 'every kind of value and every prior state, for every choice of fields and optional',
  'Tests set three values on fresh elements.', [CM], [('DateYYYYMMDD', CM)])
P('M06', 'properties are layered: a change is seen at and below its own layer only',
  'Element.properties reads like one dict whose nearest layer wins: instance, class, base classes. Setting, updating, '
  'deleting, popping or clearing at one layer is visible there and in layers below that do not override it, never '
  'above or beside it; all reading methods agree. Properties objects given to several classes do not leak changes '
  'between them.',
  'histories', 'every sequence of up to two operations at any layer of a chain of classes and an instance',
  'Tests run one operation at a time against one base class.', [PR], [('Properties', PR)])
# ----------------------------------------------------------------- markup
GE = 'flatland/out/generic.py'
MK = 'flatland/out/markup.py'
GS = 'flatland/out/genshi.py'
P('G01', 'Text never breaks out of the generated markup',
  'Whatever text is in an element, its name, an attribute given to the generator, or textarea contents filled from '
  'an element, the markup produced contains it escaped, once: no attribute value ends early and no tag appears that '
  'was not asked for. Objects having __html__ and contents given explicitly are inserted as they are. Every piece of '
  'markup is an object of the configured markup wrapper, and an element\'s .x and .xa are its text escaped for contents '
  'and for attributes.',
  'inputs configurations', 'every text, in every position of every tag, in html and xhtml',
  'Tests escape a few literals in two positions.',
  [MK, GE, BA], [('_attribute_escape', MK), ('_markup_escape', GE), ('Element.x', BA)])
P('G02', 'Markup filters see every tag they are meant for, finished, in order',
  'With filters turned on for a tag, each filter that has no tag list or names the tag is called once, in the order '
  'given, after all other transformations, with the tag\'s final attributes, its contents, the settings and the '
  'element; what it returns becomes the contents and what it changes in the attributes is rendered. Other tags, and '
  'tags with filters turned off, pass it by.',
  'inputs configurations', 'every list of filters, every tag and toggle',
  'Tests use one or two filters on one tag.', [GE], [('transform_filters', GE)])
P('G03', 'Generation settings live in nested blocks and never outlive them',
  'A setting made in begin(), set() or at construction counts from there to the end of the block it was made in; '
  'end() brings back exactly what was in effect before the matching begin(). Unknown setting names raise (KeyError, '
  'TypeError) and open no block, ending the outermost block raises RuntimeError, and two generators never influence '
  'each other.',
  'histories', 'every sequence of begin, set, end and rendering',
  'Tests run five or six fixed sequences.', [GE, MK], [('Context', GE), ('Generator.begin/end/set', MK)])
P('G04', 'A toggle on a tag beats the current settings, which beat the defaults',
  'For each automatic attribute (name, value, id, for, tabindex, filters) auto_X on the tag decides if it is given as '
  'true or false in any accepted spelling, else the setting in effect, else the default; it never appears in the '
  'output. Given as true on the tag itself it also replaces what the tag already has and reaches tags not normally '
  'filled in.',
  'inputs configurations', 'every toggle, spelling, setting, tag and existing attribute',
  'Tests combine about thirty of some thousand cases.', [GE, 'flatland/out/util.py'], [('_pop_toggle', GE), ('parse_trool', 'flatland/out/util.py')])
P('G05', 'Tags bound to an element are filled with its text, kept if they have it',
  'An input or button bound to an element gets its text as value, a textarea as contents, unless already given (an '
  'automatic value forced on the tag replaces it); password, file and image inputs are filled only when forced on '
  'the tag itself. Tags without an element, or with automatic values off, keep value and contents as given.',
  'inputs configurations', 'every tag, input type, element and existing value',
  'Tests fix one element and a few tags.', [GE], [('transform_value', GE)])
P('G06', 'Radios, checkboxes and options are chosen iff their value is the element\'s',
  'A bound radio, checkbox or option having a value is checked or selected exactly if that value is the text of its '
  'element, or, for an Array, if the array contains it; otherwise a checked or selected attribute it had is removed. '
  'An option without a value uses its stripped text, and a checkbox of a Boolean without a value gets the true text.',
  'inputs configurations', 'every value, element kind and stale attribute',
  'Tests try a handful of values.', [GE], [('transform_value', GE)])
P('G07', 'Automatic tab indexes are consecutive, and only where wanted',
  'Tags given an automatic tabindex receive the current number, and the next such tag the following one, within and '
  'across tags of all kinds. A tag that already has a tabindex keeps it unless forced and uses up no number; with the '
  'setting 0 nothing is added, and a negative setting is given to each tag unchanged.',
  'histories', 'every sequence of tags and setting changes up to length 3 (5 thorough)',
  'Tests number two or three inputs.', [GE], [('transform_tabindex', GE)])
P('G08', 'Generated ids are predictable, and every label points at its tag\'s id',
  'An automatic id is the id format applied to the flattened name of the element (the name attribute for an unbound '
  'tag), followed, on radios and checkboxes having a value, by an underscore and the characters of the value allowed in '
  'ids. An automatic for of a label is the same format applied to the flattened name of its element, which is the id of '
  'every other tag bound to it; given ids and fors are kept unless forced.',
  'inputs configurations', 'every element, name, value, format and existing attribute',
  'Tests check three ids.', [GE], [('transform_domid', GE), ('transform_for', GE), ('_generate_raw_domid', GE)])
P('G09', 'Generated tags have the asked-for shape and nothing else',
  'Each tag method renders one well formed tag: given attributes once each, in order (type, name, value, others '
  'sorted, if ordering is on), contents as given, closed as html or xhtml wants it; control attributes and the contents '
  'argument do not show. tag(name) renders as the method of that name, open() '
  'and close() give the halves of the same tag, and tags can be used again without remembering earlier use.',
  'inputs configurations', 'every tag, attribute set, contents and markup flavour',
  'Tests render each tag a few times.', [MK], [('Tag', MK), ('Generator.tag', MK)])
P('G10', 'Genshi templates get the same tags as the generator',
  'A template tag with form:bind or form:auto-* attributes ends up with the attributes and contents the generator would '
  'give it, its own attributes in place, expressions evaluated once and before, foreign attributes and markup in '
  'contents untouched; in a bound select all options without a binding of their own follow it. form:with settings '
  'count inside the block only, form:set to the end of its block; other directives on the same tag run first; misplaced '
  'directives are template errors.',
  'inputs programs', 'every tag, directive combination and nesting of the listed shapes',
  'Tests render a fixed set of small templates.', [GS, GE], [('_rewrite_stream', GS), ('_bind_unbound_tags', GS), ('With/Set', GS)])
# -------------------------------------------------------------- utilities
UB = 'flatland/util/base.py'
P('S06', 'A Ref is a window onto the element it names',
  'The value and text of a Ref are at all times those of the element currently at its path from the root of the tree, '
  'also after that element was replaced. Writing it is ignored by default, changes value and text of the target as '
  'set() on it would if writable, and raises TypeError, changing nothing, if writable is false. Refs never appear in '
  'flattened data.',
  'inputs histories', 'every position of reference and target, every write, every change of the target',
  'Tests use one flat form and never replace the target.', [SC], [('Ref', SC)])
P('S07', 'Strings and numbers are converted by the rule of their type and format',
  'A String holds the text of what it is set to, without white space at the ends iff strip counts as true. A number holds what its type_ makes of the value (text without white '
  'space at the ends), refusing what that refuses, and is written with format if its value is exactly of that type, else as the text of the value. type_, format and strip count as set on the class, a derived class or the element.',
  'inputs configurations', 'every conversion by an arbitrary type_, a table of texts (all Unicode white space), numbers and other values for the shipped types and several formats',
  'Tests convert a dozen literals with the default settings.', [SC], [('String', SC), ('Number', SC), ('Integer', SC), ('Float', SC), ('Decimal', SC)])
P('V15', 'The bundled translations are of the very messages the validators use',
  'Every message a shipped validator notes under a fixed key is, letter by letter and with its plural form, an entry of the message template and of each bundled catalog, and an entry '
  'said to belong to an attribute is what that attribute holds. A translation has only placeholders its message has, no stray percent sign, and all plural forms or none.',
  'configurations', 'every message of every validator class, every entry of every catalog', 'No test reads the catalogs.',
  ['flatland/validation/base.py', 'flatland/validation/scalars.py', 'flatland/validation/containers.py', 'flatland/i18n/flatland.pot'], [('Validator messages', 'flatland/validation/base.py'), ('catalogs', 'flatland/i18n/flatland.pot')])
N('N01', 'Reading flat data takes time in proportion to the data',
  'The time set_flat(), find() and the shipped validators take grows no faster than a low polynomial of the size of the submitted pairs, texts and paths, so that hostile input cannot stall a server.',
  'inputs', 'every input size', 'Tests use tiny inputs and measure nothing.', [CO, 'flatland/schema/paths.py'], [('List._set_flat', CO)],
  'A bound on running time depends on the backtracking of the host regular-expression engine, on hash collisions and on the data itself; no sound static argument over this dynamically typed code yields such bounds, and an abstract path count is not one. The number of members that can be created, the part that is structural, is C07.')
N('N02', 'Elements and classes that are no longer used are freed',
  'Deriving, using and dropping classes and elements in any number leaves nothing of them behind: neither the property tables, the path cache, nor the symbol table keeps a dropped class or element alive.',
  'histories', 'every sequence of creations and drops', 'Tests never drop a class.', ['flatland/schema/properties.py', 'flatland/schema/paths.py'], [('Properties.map', 'flatland/schema/properties.py')],
  'What is freed is decided by the garbage collector (Jython: that of the JVM) and by references held outside the repository, at run time; reachability of a heap after an unbounded history is not decidable from the source. What can be decided is: the size of the path cache (P01) and that results hold no foreign trees.')
N('N03', 'Floating point and decimal texts denote the nearest representable number',
  'Float and Decimal elements hold exactly the IEEE or decimal number nearest to the given text, and formatting then parsing gives the same number back within the digits written.',
  'inputs', 'every numeric text', 'Tests convert a few literals.', [SC], [('Float', SC), ('Decimal', SC)],
  'The conversion is done by the float and decimal types of the interpreter, whose code is not in the repository; the analysis treats it as an uninterpreted function. That the element calls it with the right argument and format is S07.')
P('V14', 'Errors and warnings are kept once each, in order, where they were added',
  'Adding an error or a warning to an element appends it unless an equal one is there already; nothing is removed or '
  'reordered, errors and warnings do not mix, and no other element, child, parent or class is affected. Reading, '
  'setting and validating leave messages in place.',
  'histories', 'every sequence of up to 3 (4 thorough) additions of any texts',
  'Tests add one or two messages.', [BA], [('Element.add_error/add_warning', BA)])
P('U01', 'A symbol is the one object of its name',
  'Asking for a symbol by name gives the same object every time, a different one for every other name, also after '
  'copying or unpickling; it shows as its name. Names are entered in the table under a lock, after looking under the '
  'same lock, and the lock is free again afterwards, failures included. The published constants are distinct symbols.',
  'histories schedules', 'every sequence of requests; lock discipline of every path',
  'Tests ask for one symbol twice in one thread.', [UB], [('symbol', UB)])
P('U02', 'Pairs are filtered and renamed by one rule',
  'Slicing pairs keeps their order and repetitions: a pair whose (transformed) key is to be renamed always comes out '
  'under the new name, otherwise it comes out if included, or if not omitted; include and omit together raise '
  'TypeError. Dicts, objects with keys(), named tuples and sequences of pairs are all read as their own pairs.',
  'inputs', 'every combination of include, omit, rename and key over pairs with repeated keys',
  'Tests check about twenty combinations.', [UB], [('keyslice_pairs', UB), ('to_pairs', UB)])
P('U03', 'Every published name resolves, and to one object',
  'Each name the packages publish (their export tables, every __all__, what dir() lists) is defined, resolves to the '
  'very object of the module that defines it, and does so every time. Unpublished names raise AttributeError.',
  'programs', 'every package, every published name', 'Tests import about half the names.',
  ['flatland/__init__.py', 'flatland/util/__init__.py', 'flatland/util/deferred.py'], [('deferred_module', 'flatland/util/deferred.py')])
P('U04', 'Elements are equal iff their values and texts are',
  'Two elements of whatever types are equal exactly if their values are equal and their texts are equal; != is always '
  'the opposite, both are symmetric, and nothing is changed by comparing. Objects without a value or text are never '
  'equal to an element and comparing with them does not raise; elements are unhashable (TypeError).',
  'inputs', 'every pair of element types, any texts', 'Tests compare a handful of elements.', [BA], [('Element.__eq__', BA)])
P('U05', 'Object attributes and mapping fields are exchanged by one set of rules',
  'set_by_object() and from_object() fill a Dict from the attributes that are renamed to a field, else are fields and '
  'are included, or not omitted; missing attributes and other names are passed over, and the object is not changed. '
  'slice() and update_object() hand out the native values of the fields by the same rules, under their new names, and '
  'change neither the element nor other attributes of the object.',
  'inputs configurations', 'every combination of attributes, include, omit, rename and key, for Dict, SparseDict and Form, every policy',
  'Tests check single options against single objects.', [CO, UB], [('Dict.set_by_object', CO), ('Dict.slice', CO), ('Dict.update_object', CO)])

P('U06', 'Computed attributes are computed until assigned, and again once deleted',
  'A label, or any attribute made by assignable_property or assignable_class_property, reads as last assigned to that '
  'object, falsy values included, else as computed at that moment; deleting an assignment brings the computed one back '
  'and deleting without one is an AttributeError. Assigning to one object shows on no other and not on the class; a lazy '
  'property is computed once per object; deriving methods exist on classes only, until assigned to an element.',
  'histories', 'every sequence of up to 3 (4 thorough) reads, assignments and deletions on two objects of a class',
  'Tests assign and delete once, on one object.', [UB, BA], [('assignable_property', UB), ('class_cloner', UB), ('Element.label', BA)])
P('U07', 'Ternary values, flags and views behave like what they stand for',
  'And, or and not of True, False and Maybe follow three-valued logic from either side, other operands are refused, and '
  'Maybe is never a condition. Skip, SkipAll, SkipAllFalse and Unevaluated are four distinct objects shown by their '
  'names, all true but SkipAllFalse. The attributes of an adict are its keys, and a mapping view has as items exactly '
  'what its objects have as items or attributes, the first that has it winning.',
  'inputs', 'every pair of ternary values, every constant, every kind of attribute',
  'Tests check part of the tables.', [UB, VB], [('Maybe', UB), ('as_mapping', UB), ('as_format_mapping', VB)])
P('U08', 'Showing an element neither fails nor changes it',
  'repr() of any scalar or compound is plain ASCII text telling class, name and value, whatever text is in it, and a '
  'compound whose value cannot be composed is shown too, saying why; str() and unicode() are the element\'s text. A List '
  'shows as the plain list of its members, hiding its slots. Nothing about the element changes.',
  'inputs', 'every element type, name and content', 'Tests show one or two elements.',
  [SC, CO, CM], [('Scalar.__repr__', SC), ('List.__repr__', CO), ('Compound.__repr__', CM)])
