#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GENS = [f'generator/target/{x}' for x in ('c/c.go', 'cpp/cpp.go', 'csharp/csharp.go', 'commonjs/commonjs.go', 'esm/esm.go', 'golang/golang.go', 'java/java.go', 'python/python.go', 'kotlin/kotlin.go')]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note='', level='model_checking', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, na=na, state=state or []))


ORACLE = 'Oracle: an independent reference model of the wire format (mc/model.py). Trusted: the model, the per-language drivers, the installed compilers and runtimes. Kotlin has no toolchain here.'
WHY_MATRIX = 'The tests fix a handful of schemas, offsets and values per target; the guarantee is over all placements, widths, orders and values, in every target.'

prop('C01', 'Encode puts every scalar field at its declared bits, in every target',
     'For every scalar field (unsigned, signed, bool, float, enum) of any declared width, at any bit offset and in either byte order, the bytes produced by the generated encoder of every target carry exactly the value\'s bits at the declared bit position (least significant bit first, bytes reversed for order = "big") and change no bit of a neighbouring field. All targets produce the same bytes for the same values.',
     ['programs', 'inputs'], 'every scalar type x every width x every bit offset 0..7 x both orders x every value pattern (all values up to 8 bits; every single-bit, single-zero, bound and mixed pattern above), in every target',
     WHY_MATRIX, GENS + ['definition/type.go', 'generator/gen/gen_option.go'],
     [{'name': 'per-byte encode statements', 'where': 'generator/target/*: generateEncodeImpl'}],
     ['bytes returned by encode'],
     'explicit-state enumeration of all field placements/values against a wire-format reference model, replayed on generated code', ORACLE)
prop('C02', 'Decode returns exactly the encoded value, in every target',
     'For every scalar field of any width, offset and byte order, the generated decoder of every target returns the value the bytes denote: the field\'s own bits only, sign-extended for signed integers, zero-extended for the others, bit-exact for floats. Decoding consumes and reports exactly the size of the message, at any start offset.',
     ['programs', 'inputs'], 'every scalar type x width x offset x order x frames with a bit walking through the whole message, all-ones, alternating, at several start offsets and with trailing bytes',
     WHY_MATRIX, GENS, [{'name': 'per-byte decode statements and sign extension', 'where': 'generator/target/*: generateDecodeImpl, generateDecodeSignedInt'}],
     ['object fields after decode', 'return value of decode', 'decode_size'],
     'explicit-state enumeration of all field placements/frames against a wire-format reference model, replayed on generated code', ORACLE)
prop('C03', 'Any composition of field kinds round-trips, and size functions agree',
     'For a struct built from any sequence of field kinds (scalars, arrays, nested and embedded structs, strings, bytes, constants, void padding), encode followed by decode returns the original values in every target, the length written equals encode_size, decode_size of the encoding equals that length, and decode_size of a proper prefix asks for more bytes. Variable-length fields take their documented length-prefixed form and move everything behind them by their size.',
     ['programs', 'inputs'], 'all ordered pairs (quick) / triples (thorough) of field kinds x several value vectors x every prefix of every encoding',
     WHY_MATRIX, GENS + ['compiler/proto_visitor.go'], [{'name': 'fixed and dynamic layout', 'where': 'generator/target/*: encoder/decoder templates, encode_size/decode_size'}],
     ['bytes of encode', 'fields after decode', 'encode_size', 'decode_size of every prefix'],
     'explicit-state enumeration of all field-kind sequences against a reference model, replayed on generated code', ORACLE)
prop('C04', 'Hostile or truncated input is refused, never crashes the decoder',
     'For every byte string, complete or not, well-formed or not, generated decode_size returns normally in bounded time, reads only inside the given buffer and tells a complete message (its size) from an incomplete one (needs more) and a malformed one (-1). decode of a buffer that decode_size accepted reads only inside it, and every target whose decode takes a length or buffer object refuses incomplete data and mismatching constants in the documented way instead of throwing; when decode reports success it consumed exactly the bytes that it reports.',
     ['inputs', 'programs'], 'all byte strings over a small hostile alphabet up to a length bound, plus every truncation and every single-byte corruption of valid messages, for each schema of a catalogue, in every target (C/C++ under AddressSanitizer/UBSan)',
     'The tests decode well-formed messages and a few truncations.', GENS, [{'name': 'size guards in decode', 'where': 'generator/target/*: decode_size / decode guards'}],
     ['return value of decode', 'sanitizer reports', 'exceptions'],
     'exhaustive enumeration of all inputs over a small alphabet up to a bounded length, on the real generated decoders', ORACLE)
prop('C05', 'Constant fields are always written and always checked',
     'A constant field of any type, width, offset and byte order is written with its exact declared value whatever the buffer held before, and decode of a message succeeds if and only if every constant field carries that value. This holds for integer, bool and float constants, named or unnamed, whether the value is written as a literal or as the name of an enum value.',
     ['programs', 'inputs'], 'every constant type x width x offset x order x value pattern, each decoded with every single bit of the constant flipped',
     WHY_MATRIX, GENS + ['generator/gen/gen_util.go'], [{'name': 'constant field encode/check', 'where': 'generator/target/*: generateEncodeConstantField, generateDecodeConstantField'}],
     ['bytes of encode', 'return value of decode'],
     'explicit-state enumeration of constants, orders, offsets and single-bit corruptions against the reference model, replayed on generated code', ORACLE)
prop('C06', 'Arrays are element-wise identical whether rolled or unrolled',
     'For every element type, width, array length, bit offset and byte order, each array element is encoded and decoded at its declared position, and the bytes and decoded values do not depend on the -unroll threshold in any target.',
     ['programs', 'inputs', 'configurations'], 'every element type x width x offset x order x lengths 1..n x -unroll values around and away from the length',
     WHY_MATRIX, GENS, [{'name': 'rolled loops and bit helpers', 'where': 'generator/target/*: shouldUseLoop, bb_write_field_bits/bb_read_field_bits'}],
     ['bytes of encode', 'fields after decode'],
     'explicit-state enumeration of array placements x unroll thresholds against the reference model, replayed on generated code', ORACLE)
prop('C21', 'Encode owns every bit of its message, whatever the buffer held',
     'When encode writes into a caller-supplied buffer, at any start offset and whatever bytes the buffer already holds, every bit of every field has its declared value afterwards and no byte before or behind the message changes. Bits that belong to no field (void padding) are the only ones with unspecified content, and they never leak into a field.',
     ['programs', 'inputs', 'histories'], 'all field-kind pairs, all scalar placements and void placements x buffer fills 0x00, 0xFF, 0xA5 x start offsets x guard bytes, in every target',
     'The tests encode into fresh zeroed buffers at offset zero.', GENS, [{'name': 'first write of a byte assigns, later writes OR', 'where': 'generator/target/*: generateEncodeImpl'}],
     ['buffer content around and inside the message'],
     'explicit-state enumeration of placements x dirty-buffer histories against the reference model, replayed on generated code', ORACLE)
prop('C07', 'Generation options never change what the generated code does',
     'Minimal code, decimal literals, memory copy, compatible mode, single file, relative imports, the sign extension method, the loop unrolling limit and options a target does not have may change how generated code looks, never what it does: for every combination of them every schema that generates without options generates and compiles, and encode, decode, encode_size and decode_size answer exactly as without options.',
     ['configurations', 'programs'], 'every option value alone, every pair (quick) / the full product of all options (thorough) x a schema with every kind of field, narrow signed fields at every offset, and arrays around every unroll limit x every target; outputs that differ only in their leading comment are driven once',
     'Tests cover single options on a few fields; defects sit in template branches taken only for one option (or one pair) and one kind of field.', GENS + ['generator/gen/gen_option.go', 'main.go'],
     [{'name': 'GenOptions branches', 'where': 'generator/target/*: GenCtx.GenOptions'}],
     ['bytes of encode', 'fields after decode', 'sizes', 'compiler verdict'],
     'explicit-state enumeration of the option product against an option-blind reference model, replayed on generated code', ORACLE)
prop('C08', 'Decoded data is owned or aliased exactly as documented',
     'In every target where -memcpy is given or documented as force enabled, a decoded object is independent of the buffer it was decoded from and of every other object: changing, reusing or freeing the buffer never changes the object, changing the object never changes the buffer, and encode never retains the output buffer. Without -memcpy the fields documented as referencing the original buffer (C string and bytes; C++, Go and C# bytes) alias exactly their own bytes of it and everything else is still a copy.',
     ['histories', 'programs', 'configurations'], 'all histories up to a depth over {poke a byte of the decode buffer at each interesting position, poke a byte of a bytes field in place, decode a second object from the same buffer, set all/one field, encode into another buffer, poke that buffer, encode, free the buffer} x a catalogue of structs with strings, bytes and arrays of them x {-memcpy, zero-copy}, in every target (C/C++ under AddressSanitizer)',
     'Ownership shows only in histories that change one side after the other was produced; tests decode and compare at once.', GENS, [{'name': 'MemoryCopy branches of string/bytes decoding', 'where': 'generator/target/*: decodeNormalFieldBytes, decodeNormalFieldString'}],
     ['fields of all live objects', 'content of all live buffers', 'sanitizer reports'],
     'bounded exhaustive exploration of operation histories of objects and buffers against a reference model with aliasing, replayed step by step on generated code', ORACLE)
prop('C22', 'What an object holds depends only on the last thing done to each field',
     'A message object can be reused freely: after any history of setting fields, encoding, successful decodes, failed decodes (truncated or mismatching constants) and operations on other objects of the type, a successful decode leaves exactly the values of the decoded message, encode writes exactly the current values and changes none of them, and no state leaks from earlier operations, other objects or the generated module.',
     ['histories', 'programs'], 'all operation histories up to depth 3 (quick) / 4 (thorough) over {set all fields to one of two vectors, set one field, decode a full message at offset 0 or 1, decode a truncated message, decode one with a wrong constant, encode, decode into another object} for every field kind and several composites, in every target',
     'Leaks between successive operations (temporaries, reused arrays, accumulating helpers) need a specific sequence; tests use a fresh object per case.', GENS, [{'name': 'decode into an existing object', 'where': 'generator/target/*: generateDecodeImpl'}],
     ['object fields after each history', 'bytes of encode'],
     'bounded exhaustive exploration of operation histories against a reference model, replayed step by step on generated code', ORACLE)

COMP = ['compiler/compiler.go', 'compiler/proto_visitor.go', 'definition/type.go', 'definition/struct.go', 'definition/field.go', 'definition/enum.go']
FRONT = 'Oracle: an independent model of the documented rules (mc/front.py). Cases run through an in-process build of the real main; every reported violation and a spread of the others are re-run through the real command-line tool.'
prop('C12', 'Size, alignment and name rules of structs are enforced exactly',
     'A struct definition is accepted if and only if it obeys the documented rules: sizes fit their types, arrays divide evenly, variable-size and struct-typed fields start on a byte boundary and take no bit size, the struct is a whole number of bytes and equals its declared size, void and constant sizes are in range, no name occurs twice (embedded fields included), referenced types exist and are of the right kind, and accessors belong to basic fields. A refused definition is reported at the place of the fault, exits 1 and generates nothing; sizes never wrap around.',
     ['programs', 'inputs'], 'all field sequences up to length 3 (quick) / 4 (thorough) over 22 kinds x declared sizes right and wrong; every type x array length x size spelling x offset; every constant type x size x literal; all name combinations up to 3 declarations; accessor pairs; sizes around the 63-bit limit',
     'The tests check a dozen faulty schemas; acceptance must be exact for every combination of sizes, offsets and kinds.', COMP + ['compiler/error_listener.go', 'bubbler.g4'],
     [{'name': 'size and alignment checks', 'where': 'compiler/proto_visitor.go: VisitStructDef and the field visitors'}],
     ['exit code', 'diagnostics', 'output directory'],
     'exhaustive enumeration of bounded schemas through the real compiler against an independent model of the static rules', FRONT)

prop('C09', 'Nesting, embedding and in-place definition never move a field',
     'A struct used as a field, embedded, defined in place or repeated in an array occupies exactly the bits its own fields occupy when written out flat, at every depth and in every combination of these forms: the fields are reachable under the documented names, encode to and decode from the same bytes in every target, and a struct defined inside another one is usable like any other.',
     ['programs', 'inputs'], 'every kind of field as content (thorough: pairs) x 19 forms of nesting, embedding, in-place definition and arrays of them up to depth two x value vectors x start offsets, in every target',
     'Each form takes its own path through the front end and each template; tests use a few of the combinations.', GENS + ['compiler/proto_visitor.go', 'definition/struct.go'],
     [{'name': 'struct fields, embedded structs and in-place structs', 'where': 'compiler/proto_visitor.go; generator/target/*: struct field templates'}],
     ['bytes of encode', 'fields after decode', 'encode_size', 'decode_size', 'compiler verdict'],
     'explicit-state enumeration of content x form against a reference model that knows only the flat layout, replayed on generated code', ORACLE)
prop('C10', 'Accessors: raw ones are faithful, custom ones compute what is declared',
     'The generated getters and setters of every field kind (whole value, whole array, single items, length) return and store exactly the value that is encoded and was decoded. A custom getter or setter yields the value its expression denotes under the grammar (precedence, associativity, casts, conditional, logical operators), converted to the declared type, and compiles and agrees in every target wherever operands and intermediate results fit their types (unsigned ones: their lower half), divisions are exact and remainders are of non-negative numbers.',
     ['programs', 'inputs'], 'raw: every field kind x 19 forms of nesting and arrays x value vectors in C, C++, Go, Java, C#; custom: all expression trees of depth 2 (thorough: 3) over all operators and operand shapes, printed with minimal parentheses, x nine element types plus bool x input values (all values of 8-bit types), as getter and as setter, plus conversions between all pairs of types, in eight targets',
     'Operator pairs, shapes and types multiply to thousands of expressions per target; tests have a handful in two targets, and precedence slips show only for particular operator pairs and values.', GENS + ['compiler/proto_visitor.go', 'generator/gen/gen_util.go', 'bubbler.g4'],
     [{'name': 'expression trees', 'where': 'compiler/proto_visitor.go (expr), definition/expr.go'}, {'name': 'expression and accessor generators', 'where': 'generator/target/*: GenerateExpr, customGetter/customSetter, raw getter/setter templates'}],
     ['getter results', 'stored field after setter', 'bytes of encode', 'compiler verdict'],
     'exhaustive enumeration of expression trees x types x inputs against an evaluator of the grammar\'s semantics, replayed on generated code of every target', ORACLE)
prop('C11', 'Imports: acyclic, unique, visible and independent of how a path is spelled',
     'A project compiles if and only if every imported file exists and is itself correct, no import chain leads back to a file of the chain, package names and all global names (structs, enums, enum values, inline definitions) are unique over all files reached, and every used type is defined in the file itself before its use or in a file reached by imports. Import paths are resolved relative to the importing file; however a path is spelled (./, .., doubled slashes, absolute, quotes), one file is one file, read once. A fault in any reached file fails the whole run and generates nothing.',
     ['programs', 'inputs', 'configurations'], 'all import graphs over 4 files (every edge set), all visibility/definition-order combinations, all placements of clashing packages and names in a 3/4-file project, every spelling of each edge, every spelling of the main file from several working directories, a fault in each file',
     'The tests import one file in one way; graph shapes, spellings and visibility rules are combinatorial.', ['compiler/import_visitor.go', 'compiler/compiler.go', 'compiler/compilation_runtime.go', 'definition/package.go', 'main.go'],
     [{'name': 'import resolution and cycle detection', 'where': 'compiler/import_visitor.go, compiler/compilation_runtime.go'}],
     ['exit code', 'diagnostics', 'set of generated packages'],
     'exhaustive enumeration of import graphs and path spellings through the real compiler against a graph model', FRONT)
prop('C13', 'Enum numbers are the declared ones in every target and in constants',
     'Enum values take their written number, or the previous number plus one (0 for the first); every number must fit the non-negative range the language documents, names are unique, and every target declares exactly these names with these numbers, in generated code that compiles. A constant field or another use of an enum value means that number.',
     ['programs', 'inputs'], 'all value-list shapes up to length 4 over {implicit, 0, 1, 7, large, boundary, duplicate, negative, malformed} x enum widths, the accepted ones generated, compiled and printed in every target',
     'The tests look at one or two enums; numbering with gaps, repeats and boundaries is enumerable only.', ['compiler/proto_visitor.go', 'definition/enum.go'] + GENS,
     [{'name': 'implicit numbering', 'where': 'compiler/proto_visitor.go: VisitEnumDef, VisitEnumValue'}],
     ['exit code', 'diagnostics', 'constants as printed by compiled generated code'],
     'exhaustive enumeration of enum declarations through the real compiler and generated code against an independent numbering model', FRONT + ' Kotlin enums are not compiled here.')
prop('C16', 'Success means every file is written completely, whatever fails',
     'If bubbler exits 0, every output file (or standard output) holds exactly the generated code, whatever was there before, and nothing else was created or changed. If any operation on the output fails (creating a directory, opening, writing, closing, a full device, an obstacle in the way), the exit code is not 0 and a diagnostic says so. After a failure or a crash at any point the next run puts everything right.',
     ['crash_points', 'fault_sequences', 'configurations'], 'every call that changes the output (mkdir, open, write, close; each write to standard output) x {error, short write, short write then error, crash before it, crash in the middle of it} followed by a clean run, and every obstacle at every output path (directory, full device, dangling link, file in place of a directory, stale contents) x two projects x every target and -single',
     'Tests write to fresh directories where nothing fails.', ['generator/gen/gen_ctx.go', 'fileio/writer.go', 'main.go'] + GENS, [{'name': 'output writing and error propagation', 'where': 'generator/gen/gen_ctx.go, fileio/writer.go, each Generate'}],
     ['exit code', 'content of the output directory', 'diagnostics'],
     'exhaustive fault and crash-point injection: the sequence of output system calls of a run is the state space, every prefix of it is cut by every fault, on the real compiler over an instrumented standard library', 'Trusted: the system-call hook in package syscall (mc/instr.py).')
prop('C17', 'What is generated depends on the schema and the options alone',
     'Generating the same schema with the same options writes the same files byte by byte and reports the same diagnostics in every run: independent of the iteration order of Go maps, the time, the environment, the working directory, how input and output paths are spelled, where the project lies, and what is already in the output directory.',
     ['schedules', 'configurations', 'histories'], 'every starting slot of map iterations x three progressions between successive iterations (all iteration orders a map of up to 8 entries can show; thorough: 512 schedules), times years apart, 21 ways of running one command, two-run histories into one output directory x five projects (single, import graph, every kind of field, refused ones with several errors, warnings) x every target and -single',
     'A test compares one run with one expectation; nondeterminism of map order shows in some of the runs only.', ['generator/gen/gen_ctx.go', 'util/ordered_map.go', 'compiler/proto_visitor.go'] + GENS, [{'name': 'ordered collections and output', 'where': 'util/ordered_map.go, generator/target/*'}],
     ['content of the output directory', 'diagnostics'],
     'stateless exploration of the runtime\'s nondeterministic choices (map iteration order) under a controlled scheduler: an instrumented standard library takes them from the enumerated schedule, on the real compiler', 'Trusted: the map-order hook (mc/instr.py). Maps of more than 8 entries are explored under 24 (thorough 512) orders.')
prop('C18', 'Names are judged by the documented rule and recommendations are stable',
     'Struct, enum and enum value names must start with an upper-case letter, field, constant and accessor names with a lower-case one (leading underscores ignored); a name that breaks this is refused at its line and nothing is generated. Names in the recommended style draw no warning, others draw one that recommends another spelling of the same name, and the recommended name, when used, is accepted without a warning. Warnings never fail a run.',
     ['inputs'], 'all names up to length 6 (quick) / 7 (thorough) over {A, b, 1, _} in each of ten naming positions, and every recommendation fed back',
     'The tests contain a handful of names; the style rules are string functions with many corner cases.', ['compiler/proto_visitor.go', 'util/name_style.go', 'compiler/error_listener.go'],
     [{'name': 'name style checks', 'where': 'compiler/proto_visitor.go, util: name style helpers'}],
     ['exit code', 'warnings', 'diagnostics'],
     'exhaustive enumeration of all names over a small alphabet up to a bounded length through the real compiler', FRONT)

prop('C14', 'Every input gets an answer: accepted or diagnosed, never a crash or hang',
     'For every text given as a schema, however malformed, the compiler ends normally in bounded time: with exit code 0 and generated output if the text is a correct schema, otherwise with exit code 1, at least one diagnostic and no output. Text outside the documented grammar is never accepted, and every accepted schema can be generated for every target without an internal error.',
     ['inputs'], 'all token sequences up to length 2 (quick) / 3 (thorough) in eleven syntactic contexts; every deletion, insertion, replacement, swap and cut of tokens in base schemas that cover the grammar; every byte inserted or replaced at every position of a small schema; all layouts; nesting and length series; accepted ones run through all nine targets',
     'The tests feed well-formed schemas and a few faults.', ['main.go', 'compiler/compiler.go', 'compiler/error_listener.go', 'compiler/proto_visitor.go', 'bubbler.g4', 'generator/generator.go'],
     [{'name': 'parsing and error recovery', 'where': 'compiler/compiler.go, parser/'}, {'name': 'internal errors', 'where': 'generator/target/*'}],
     ['exit code', 'diagnostics', 'output directory', 'crash reports', 'time'],
     'exhaustive enumeration of bounded token sequences and of all single-edit neighbours of base schemas through the real compiler, against an independent recogniser of the grammar', FRONT)
prop('C15', 'A generated project is where documented and compiles as a whole, in every target',
     'For every project of several files, whatever its packages, import graph, package options and placement options (-rmpath, -relpath, -single), every target writes exactly the documented files at the documented places, and together they compile and work: types of directly and indirectly imported files can be used in every way, names in different packages never collide, and the wire format does not depend on how definitions are spread over files.',
     ['programs', 'configurations'], 'all placements of one and two packages from a pool x package options x -rmpath prefixes (whole and partial elements, lists) x -relpath/-single for nine targets; compiled and driven: 14 layouts, every single kind of use of an imported type, hubs without types, package/namespace options on every file (thorough: all 4-file graphs and all pairs of packages up to depth 3) x eight targets x modes',
     'The tests generate one or two layouts; collisions and missing imports depend on the combination of packages, graph shape and options.', ['generator/gen/gen_ctx.go', 'definition/package.go', 'definition/compilation_unit.go', 'main.go'] + GENS,
     [{'name': 'output paths and imports', 'where': 'generator/gen/gen_ctx.go, definition/package.go, generator/target/*: import templates'}],
     ['set of generated files', 'compilers\' verdicts', 'bytes of encode, fields after decode'],
     'exhaustive enumeration of project layouts x options through the real tool against a placement model, and of layouts x targets compiled and replayed against the wire-format model', ORACLE)
prop('C19', 'Options and command lines mean what is documented, or are refused',
     'Every documented file option, field option and command-line flag is accepted with values of its type in every spelling and place, and does what is documented; wrong types, duplicates and malformed options are refused with a diagnostic at their line, unknown ones draw a warning and nothing else; flags not available in a target are ignored, aliases are the same as the full names, and a faulty command line ends with a message, a failure code and no output.',
     ['inputs', 'configurations'], 'every option name x every literal kind x place; all pairs of options; field options on every field kind; every flag x value x spelling x position; target aliases; ignored flags against the output without them; omit_empty on every file of import graphs',
     'The tests use a few options in their usual spelling.', ['main.go', 'compiler/option_validator.go', 'compiler/proto_visitor.go', 'generator/gen/gen_option.go', 'generator/generator.go'],
     [{'name': 'option validation', 'where': 'compiler/option_validator.go'}, {'name': 'flag parsing', 'where': 'main.go'}],
     ['exit code', 'warnings', 'diagnostics', 'generated files'],
     'exhaustive enumeration of options, flags and their combinations through the real command-line tool against a model of the documented rules', FRONT)

if __name__ == '__main__':
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'state': p['state'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    M = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
         'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick', 'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                     'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'All checks are python3 check.py <ID> quick|thorough; they build bubbler from /repo\'s working tree, generate code for enumerated schemas, compile it and compare every answer with a reference model. Replay a violation with python3 check.py --replay FILE. No hooks in /repo are needed. Fixed and known findings: known-findings.txt.'}
    with open(os.path.join(D, 'MANIFEST.json'), 'w') as f:
        json.dump(M, f, indent=1)
        f.write('\n')
