V = 'codecs_derive/src/aper/'
props += [
P('D01', 'Derived primitive types apply exactly their declared constraint',
  'For a type with #[derive(AperCodec)] of kind BOOLEAN, NULL, INTEGER, ENUMERATED, BIT STRING, OCTET STRING or character string, encode appends exactly the aligned PER encoding of its value under the constraint its attributes declare (bounds, size bounds, extensibility), and decode reads exactly that: what was encoded comes back and decoding stops right behind it. A decoded number that does not fit the Rust field, or an enumeration value outside the root, is an error, never truncated or wrapped.',
  ['inputs', 'configurations'], 'all declarations of these kinds in lib/samples.py (each kind with and without each attribute), all their values, all byte sequences and bit positions',
  'The tests derive a few types and round-trip a value or two; the effect of an attribute shows only at its own boundaries, and truncation only on decoded values wider than the field.',
  [V + 'integer.rs', V + 'enumerated.rs', V + 'bitstring.rs', V + 'octetstring.rs', V + 'charstring.rs', V + 'boolean.rs', V + 'null.rs', 'codecs_derive/src/attrs.rs', 'codecs_derive/src/utils.rs'],
  [('generated decode and encode of primitive types', V + 'integer.rs'), ('attribute parsing', 'codecs_derive/src/attrs.rs')], ['AperCodec::encode', 'AperCodec::decode']),
P('D02', 'Derived SEQUENCE and SEQUENCE OF follow declared order, presence and size',
  'For a derived SEQUENCE, encode appends the extension bit (if extensible), one presence bit for each optional field in declaration order, then the fields present in order; decode reads the same, gives absent optional fields as None and skips extension additions it does not know. For a derived SEQUENCE OF, encode and decode use the declared size bounds for the count, for every count from none up, followed by the items in order; out-of-bounds counts are errors. What was encoded comes back and decoding stops right behind it.',
  ['inputs', 'configurations'], 'all SEQUENCE and SEQUENCE OF declarations in lib/samples.py, all values and presence combinations, all byte sequences and bit positions; the round trip for every declaration expressible in contracts/derive/typespec.rs',
  'Presence combinations grow exponentially and interact with nesting, position and extension additions; tests sample a couple.',
  [V + 'seq.rs', V + 'seqof.rs', 'codecs/src/aper/decode/mod.rs'],
  [('generated SEQUENCE codec', V + 'seq.rs'), ('generated SEQUENCE OF codec', V + 'seqof.rs'), ('decode_sequence_additions', 'codecs/src/aper/decode/mod.rs')], ['AperCodec::encode', 'AperCodec::decode']),
P('D03', 'Derived CHOICE and open types select the alternative their index or key says',
  'A derived CHOICE encodes the declared index of the alternative it holds and then its value, and decodes to the alternative whose index was read; an unknown index is an error. An open type is the octets of the complete encoding of its value with their length; it decodes, from those octets only and consuming all of them, to the alternative declared for the key field most recently decoded in the SEQUENCE it belongs to, and without a matching key it is an error. What was encoded comes back and decoding stops right behind it.',
  ['inputs', 'configurations', 'histories'], 'all CHOICE and open type declarations in lib/samples.py (nested, several keys, keys passed down, no key), all values, keys, byte sequences and positions',
  'The key is state carried from field to field: whether the right one is used depends on what was decoded before, including nested SEQUENCEs with keys of their own.',
  [V + 'choice.rs', V + 'open.rs', V + 'seq.rs', 'codecs/src/aper/mod.rs'],
  [('generated CHOICE codec', V + 'choice.rs'), ('generated open type codec', V + 'open.rs'), ('key handling of SEQUENCE', V + 'seq.rs')], ['AperCodec::encode', 'AperCodec::decode'],
  [('key', 'the key the next open type is decoded by', 'codecs/src/aper/mod.rs')]),
P('D04', 'Derived decoders are total on arbitrary bytes',
  'The decode of any derived type returns on every byte sequence, at every position and with any key set: it does not panic, overflow or loop, it changes neither data nor bits read before, moves the position only forward and never beyond the end, and it accepts only what is an encoding of the type.',
  ['inputs', 'configurations'], 'all declarations in lib/samples.py, all byte sequences, positions and keys',
  'Hostile lengths, indices, counts and truncation points at every nesting level; tests decode valid messages.',
  [V + 'integer.rs', V + 'enumerated.rs', V + 'seq.rs', V + 'seqof.rs', V + 'choice.rs', V + 'open.rs', V + 'charstring.rs'],
  [('generated decode functions', V + 'seq.rs')], ['AperCodec::decode']),
P('D05', 'Derived encoders refuse values that violate their constraint and only append',
  'The encode of any derived type returns an error, and never panics or writes something else, for a value (at any nesting level) that its declared constraint does not allow or that the implementation cannot represent; and it never touches what was encoded before, nor the key.',
  ['inputs', 'configurations'], 'all declarations in lib/samples.py, all values of their Rust types, all prior buffer contents',
  'Tests encode valid values only.',
  [V + 'integer.rs', V + 'seq.rs', V + 'seqof.rs', V + 'choice.rs', V + 'open.rs', V + 'charstring.rs'],
  [('generated encode functions', V + 'seq.rs')], ['AperCodec::encode']),
]
claims.update({p: 'derive' for p in ('D01', 'D02', 'D03', 'D04', 'D05')})
NOTE['derive'] = ('The macro of /repo/codecs_derive runs on the declarations of lib/samples.py and every decode and encode it emits is proved, unbounded in values, bytes, '
  'positions and keys, against contracts/derive/typespec.rs; the codec functions called are proved in the same check. The round trip is a theorem over all declarations '
  'expressible there. Not for all declarations: the macro itself is not under contract, only what it emits for these 70. OBJECT IDENTIFIER is always an error; integers wider than 64 bits are left out.')
TECHS = {'derive': 'contracts on the functions the derive macro emits and on the codec functions they call, discharged by Verus (Z3) on the macro\'s output of every run'}
THEOREMS = {}
W = 'asn-compiler/src/tokenizer/'
props += [
P('P01', 'Tokenizing a module is total and exact',
  'tokenize returns Ok exactly for the inputs that can be read, are UTF-8 and are a sequence of lexical items (white space, comments to `--` or the end of the line, names, keywords, numbers, quoted bit, hex and character strings, brackets and other marks, each as long as it can be); the tokens are then exactly those items in order: kind (a name is a keyword only if it is one of the reserved words), text and the line they start on; comments are tokens, white space is not. A quoted bit or hex string loses its white space, the lines of a character string are trimmed and joined. Every other input is an error; no input makes it panic, overflow or loop.',
  ['inputs'], 'all readers (any byte sequence, failing ones too), unbounded',
  'The tests tokenize a few dozen well-formed strings; truncated, malformed, non-ASCII and multi-line input at every position is unbounded.',
  [W + 'mod.rs', W + 'types.rs'],
  [('tokenize and its token functions', W + 'mod.rs')], ['tokenizer::tokenize']),
]
claims['P01'] = 'tokenizer'
NOTE['tokenizer'] = ('Every function of the tokenizer is proved, for all inputs, against the lexical rules of contracts/parser/lex.rs (a character-by-character definition independent of the code). '
  'Assumed: std functions as listed in the evidence, what Unicode white space is, str::lines and str::trim; the column of a token and its end are not part of the property.')
TECHS['tokenizer'] = 'contracts on every function of the tokenizer, discharged by Verus (Z3) from the sources extracted on every run'
Q = 'asn-compiler/src/parser/'
props += [
P('P02', 'Parsing a module is total',
  'For every sequence of tokens the tokenizer yields (fewer than 2^31 of them), parse returns Ok or Err in finitely many steps: whatever is missing, superfluous, nested or in the wrong place, no parsing function panics, indexes or slices beyond its tokens, overflows a counter, unwraps what is absent, or goes round without taking a token.',
  ['inputs'], 'all token sequences, of any length below 2^31 and any nesting the stack allows',
  'A parser has a bounds check or a progress argument at every token; each can fail only on texts that end or go wrong at that very place, in combinations the tests (complete modules) do not contain.',
  [Q + 'int.rs', Q + 'utils.rs', Q + 'asn/module.rs', Q + 'asn/defs.rs', Q + 'asn/oid.rs', Q + 'asn/values.rs', Q + 'asn/types/int.rs', Q + 'asn/types/constraints.rs', Q + 'asn/types/ioc.rs', Q + 'asn/types/constructed/seq.rs', Q + 'asn/types/constructed/choice.rs', Q + 'asn/types/base/enumerated.rs'],
  [('bounds checks of expect_*', Q + 'utils.rs'), ('list loops', Q + 'asn/types/constructed/seq.rs')], ['parser::parse']),
]
claims['P02'] = 'parser'
NOTE['parser'] = ('Every function parse can reach is proved, for all token sequences, to return without panic, overflow or endless loop; recursion by a measure on the tokens left. '
  'Assumed: that tokens are as the tokenizer yields them (proved in P01), the std functions listed in the evidence, that format! of a token does not panic, that the stack suffices. Time is finite, not polynomial.')
TECHS['parser'] = 'contracts on every function of the parser, discharged by Verus (Z3) from the sources extracted on every run'
R = 'asn-compiler/src/resolver/asn/'
props += [
P('R01', 'Constraints mean the values they allow',
  'A resolved INTEGER has exactly the values, and a resolved OCTET STRING, BIT STRING, character string or SEQUENCE OF exactly the sizes, that its constraints allow: a range runs from its lower to its upper end, either with or without it as written, a reference stands for the INTEGER value it names, `|` is union, `^` intersection, what follows `, ...` are additional values (never part of the root), of several constraints all apply and the last decides whether the type is extensible. A constraint that refers to nothing, to something other than an INTEGER, or that leaves no value is an error, never ignored or replaced by another.',
  ['inputs', 'configurations'], 'all constraints (any nesting, any number of elements and constraints, all values) and all values defined before',
  'Tests compare a dozen constraints; unions, intersections, exclusive ends, references, extensions and serial constraints combine without bound, and each combination has its own edge values.',
  [R + 'types/constraints.rs', R + 'structs/types/constraints.rs', R + 'types/base/integer.rs', R + 'types/int.rs'],
  [('value sets of constraints', R + 'types/constraints.rs'), ('operations on value sets', R + 'structs/types/constraints.rs')], ['Asn1Compiler::resolve_modules'],
  [('resolved_defs', 'what has been resolved before', 'asn-compiler/src/resolver/int.rs')]),
P('R02', 'The Rust type of an INTEGER or ENUMERATED holds every value it may have',
  'The width and sign chosen for a resolved INTEGER hold every value its constraints allow, in the root or as an addition; without a constraint they are those of i64, and an INTEGER that neither i64 nor u64 can hold is an error. The width chosen for an ENUMERATED holds the index of each of its items.',
  ['inputs', 'configurations'], 'all constraints, all values, any number of items',
  'Wrong only at the boundaries of the eight integer types, separately for ranges, single values, negative lower bounds and extension additions.',
  [R + 'types/base/integer.rs', R + 'types/base/enumerated.rs', R + 'structs/types/constraints.rs'],
  [('choice of the width', R + 'types/base/integer.rs'), ('least and greatest value', R + 'structs/types/constraints.rs')], ['Asn1Compiler::resolve_modules']),
P('R03', 'Resolving keeps the structure of every type',
  'A resolved type is what its definition says: the same kind, the same components, alternatives, items and named bits with the same names in the same order, each of them resolved in the same way, OPTIONAL or DEFAULT as optional, extensible as marked, alternatives of additions apart from those of the root; an item of an ENUMERATED has the rank of its number as its index, and items without a number get the smallest left; a reference refers to a type that was resolved, and a parameterized reference is what its definition stands for. A type with a part that has no meaning is an error: no part is dropped or replaced, and nothing that has one is refused.',
  ['inputs', 'configurations'], 'all types of any nesting, all definitions resolved before',
  'The structure is recursive: a part lost, doubled or misplaced shows only for certain nestings, counts and combinations of parts.',
  [R + 'types/constructed.rs', R + 'types/int.rs', R + 'types/base/mod.rs', R + 'types/base/enumerated.rs', R + 'types/base/bitstring.rs', R + 'types/base/charstring.rs', R + 'defs.rs'],
  [('resolve_type', R + 'types/int.rs'), ('constructed types', R + 'types/constructed.rs')], ['Asn1Compiler::resolve_modules']),
]
props += [
P('R05', 'Information objects, sets of them and values resolve to what they say',
  'A value resolves to its number under its type, through any references to types, or to the value it names. A resolved object has exactly the fields written, each a type resolved as any other or a value of the type the field is declared with. A resolved set has exactly the objects it lists, those of the sets it refers to among them, and its lookup table has, by value and name, exactly those whose unique field has a named value. A SEQUENCE of fields of a class, constrained by such a set, has those components in order, extensible as marked: a field with a fixed type has that type and is the key unless it depends on another component; any other field has, by name and value, exactly the type references that the objects of the lookup table give for it. What names something unknown or of another kind, lacks the unique field, or mixes such components with others is an error, and nothing else is refused.',
  ['inputs', 'configurations'], 'all values, classes, objects, sets (nested and inline) and SEQUENCEs of class fields, all definitions resolved before',
  'Which type a message part is decoded as hangs on tables built over objects, sets in sets, unique fields and named values in all combinations; the tests resolve no set of objects.',
  [R + 'types/ioc.rs', R + 'types/constructed.rs', R + 'types/constraints.rs', R + 'values.rs', R + 'structs/values.rs', R + 'defs.rs'],
  [('resolve_object_set', R + 'types/ioc.rs'), ('class fields', R + 'types/constructed.rs'), ('resolve_value', R + 'values.rs')], ['Asn1Compiler::resolve_modules'],
  [('resolved_defs', 'what has been resolved before', 'asn-compiler/src/resolver/int.rs'), ('classes', 'the classes of all modules', 'asn-compiler/src/resolver/int.rs')]),
]
props += [
P('R04', 'What a definition needs is resolved before it, in whatever order definitions are written',
  'Resolving does not depend on the order in which definitions are written or met: every name that resolving a definition looks up - types, values in constraints, sizes, ranges and enumerations, parameters, classes, objects and sets of them, at any depth, in root and additions - is among the references by which definitions are ordered, and definitions are sorted so that each comes after all of its references that the module itself defines. So the order decides neither whether a module resolves nor, as long as no class has several UNIQUE fields, what its definitions become. Every definition of a module that is accepted is in the result; one that depends on itself is refused, never dropped.',
  ['inputs', 'schedules'], 'all definitions of any nesting, all modules, all orders of the definitions in them and of the maps they are kept in',
  'A reference left out shows only when a hash map happens to yield the two definitions the wrong way round: the same input compiles in one run and fails in the next.',
  ['asn-compiler/src/parser/asn/structs/module.rs', 'asn-compiler/src/parser/asn/structs/types/mod.rs', 'asn-compiler/src/parser/asn/structs/types/constructed.rs', 'asn-compiler/src/parser/asn/structs/types/base.rs',
   'asn-compiler/src/parser/asn/structs/types/ioc.rs', 'asn-compiler/src/parser/asn/structs/defs.rs', R + 'types/constraints.rs', 'asn-compiler/src/resolver/int.rs'],
  [('definitions_sorted', 'asn-compiler/src/parser/asn/structs/module.rs'), ('resolve_definitions', 'asn-compiler/src/resolver/int.rs'), ('dependent_references of each part of a definition', 'asn-compiler/src/parser/asn/structs/')], ['Asn1Compiler::resolve_modules']),
]
claims.update({p: 'resolver' for p in ('R01', 'R02', 'R03', 'R04', 'R05')})
NOTE['resolver'] = ('Every function that resolves a type, its constraints, a value, an object or a set of them is proved for all of these and all definitions resolved before against contracts/resolver/spec.rs (what a constraint allows, what each has to resolve to). '
  'Assumed: the std functions listed in the evidence (with the order and clones of maps), what the parser substitutes for parameters; left open: the number of an ENUMERATED item as a value.')
TECHS['resolver'] = 'contracts on every function that resolves types, constraints, values and information objects, discharged by Verus (Z3) from the sources extracted on every run'
