#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 catalog.py)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
X = 'src/vm/vm_exec.c'; H = 'src/vm/vm_internal.h'; V = 'src/vm/vm_verify.c'; PUB = 'include/concordia.h'
TV = 'abstract interpretation of the dispatch loop on LLVM IR, '
P = []


def prop(id, title, statement, over, q, why, files, mech, technique=None, level='proof', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


ALLP = 'every byte string taken as program, every message buffer, both modes, every host behaviour'
prop('C01', 'Runtime memory containment',
     'Executing any program on any message never reads or writes outside the program image, the message buffer, the context and values the host handed over. Arbitrary (including corrupt or hostile) programs, messages and callback results are covered.',
     'inputs programs histories', ALLP + '; any number of instructions executed before',
     'Tests execute a few hundred well-formed programs; an out-of-bounds access needs a particular combination of operand bytes, cursor position, bit offset and loop depth.',
     [X, H], [('instruction dispatch and operand fetch', X), ('byte, bit and integer accessors', H)],
     TV + 'memory-safety obligations with an inductive context invariant', note='all 256 opcode bytes, unbounded message/program sizes; trusts clang, the engine and the libc models')
prop('C02', 'No success on short data, exact position advance',
     'An instruction that transfers a data item succeeds only when the whole item fits into the remaining message (absent optional items excepted), and then advances the position by exactly the size of the item. "Out of bounds" is reported only when something really does not fit.',
     'inputs programs', ALLP, 'Tests try a few truncation points; the guarantee is for every item type, position, bit offset and remaining length.',
     [X, H], [('per-item bounds checks and cursor updates', X), ('bit reader and writer', H)], TV + 'reference semantics of the position and error code per path', note='symbolic cursor and sizes')
prop('C03', 'Encoding and decoding use the same width and byte order, decoding is read-only',
     'For every item type the bytes written when encoding and the value delivered when decoding are related by the same width and the byte order currently in force, and nothing outside the item is modified. Decoding never modifies the message.',
     'inputs programs', ALLP, 'Round-trip tests use sample values and would accept the same mistake in both directions; neighbours of the item are not inspected.',
     [X, H], [('primitive, string and array-count transfer', X), ('endian accessors', H)], TV + 'symbolic byte terms of message and host value compared with the reference', note='bit-field contents inside a byte are covered for position and containment, not for value')
prop('C04', 'A failing host callback stops the run',
     'When the host callback reports failure the run ends with the callback error and the message is not modified any more (an encoder may leave out an optional string). A callback error is never reported when the callback succeeded.',
     'inputs programs fault_sequences', ALLP + '; failure of any single callback', 'Tests make a callback fail for a couple of instructions; every call site must check.',
     [X], [('every invocation of the io callback', X)], TV + 'typestate of callback results on all paths')
prop('C05', 'Validation gates cannot be passed by invalid data',
     'Constant, range, enumeration, boolean, checksum, string-termination, bit-alignment and computed-value checks let an instruction continue only if the checked relation holds (NaN never satisfies a range), and report a validation error only if it does not.',
     'inputs programs', 'every operand type, both byte orders, every message value and every operand value including NaN and sign boundaries', 'Tests sample one accepting and one rejecting value per check; wrong signedness, width or boundary conditions survive.',
     [X, H], [('check instructions', X)], TV + 'entailment of the checked relation on accepting and rejecting paths', note='checksum arithmetic itself is not decided (only that mismatch decides)')
prop('C06', 'Transforms and optional markers apply to exactly one item',
     'A transform or optional marker set by an instruction affects the next data item only: every instruction that consumes an item clears it on every success path (including the absent-optional path), and no other instruction changes it.',
     'programs histories', 'all instruction sequences', 'Leaks show only for particular sequences (marker, error or absent path, unrelated later item).',
     [X, H], [('marker bookkeeping in every item instruction', X)], TV + 'effect analysis of the marker fields on every path')
prop('C07', 'Runtime is freestanding and reentrant',
     'The runtime keeps no mutable state outside the context it is given, allocates no memory, performs no I/O and is not recursive, so contexts can be used concurrently and on bare-metal targets.',
     'schedules programs', 'all interleavings of runs on distinct contexts', 'Hidden static state or allocation does not change single-threaded test results.',
     ['src/vm/vm_exec.c', 'src/vm/vm_loader.c', V], [('all functions reachable from the runtime API', 'src/vm')],
     'call-graph and effect analysis of the runtime modules on LLVM IR')
prop('C08', 'No undefined or trapping arithmetic in the runtime',
     'No program, message or host value makes the runtime divide by zero, overflow a division, shift by an invalid amount, overflow signed arithmetic or convert an out-of-range float to an integer.',
     'inputs programs', ALLP, 'Trapping operand combinations (INT64_MIN / -1, NaN to integer, shift by 64) are single points of a huge space.',
     [X, H], [('expression instructions and transforms', X)], TV + 'range obligations on every division, shift, conversion and signed operation')
prop('C09', 'Expression stack discipline',
     'An expression instruction that needs more operands than the stack holds reports underflow, one that would exceed the documented stack limit reports overflow, and otherwise the stack depth changes by exactly the documented amount.',
     'programs histories', 'every expression instruction at every stack depth', 'Tests use shallow, well-formed expressions.',
     [X], [('expression instructions', X)], TV + 'enumeration of all stack depths with symbolic contents')
prop('C10', 'Array loop discipline',
     'An array body runs exactly as many times as its (fixed, prefixed, host-given or end-of-message) count says, zero times for an empty array, nesting beyond the documented limit is rejected, and an array end without an open array is rejected.',
     'inputs programs histories', 'all counts (including 0 and 2^32-1), all nesting depths', 'Tests use small counts and shallow nesting.',
     [X], [('loop stack and array instructions', X)], TV + 'reference semantics of loop frames and counts')
prop('C11', 'Truncated instructions and unknown opcodes have no effect',
     'An instruction whose operands run past the end of the program is rejected before it has any effect, an unassigned opcode has no effect, and execution continues right after the operands of the instruction.',
     'programs', 'every opcode byte, every truncation point', 'Tests end programs at instruction boundaries.',
     [X, H], [('operand fetch', X), ('instruction length table', H)], TV + 'instruction extent per path against the documented operand layout')
prop('C12', 'Branches and switches land where the program says',
     'A taken jump continues at the encoded relative target, a switch continues at the target of the case equal to the discriminator or at the default when there is none, and every target lies inside the program or the run is rejected.',
     'inputs programs', 'every relative offset (both signs), every case table and discriminator', 'Tests use short forward jumps and small tables.',
     [X, H], [('jump and switch instructions', X), ('switch table layout', H)], TV + 'reference terms for the next position; loop summaries for the case scan')
prop('C13', 'Expression instructions compute the documented function',
     'Every arithmetic, logical, comparison, shift, floating-point and conversion instruction combines its operands in the documented order with two\'s-complement 64-bit or IEEE double semantics, and division by zero is reported as an arithmetic error.',
     'inputs programs', 'all 64-bit operand values', 'Tests evaluate a handful of operand pairs per instruction.',
     [X, H], [('expression instructions', X)], TV + 'symbolic result term compared with the reference term', note='transcendental functions are decided up to which libm function is called')
prop('C14', 'A fresh context is fully initialised, degenerate calls are rejected',
     'Initialising a context gives every field the runtime later reads a defined value whatever the memory contained before, and every runtime entry point rejects a missing context, program, code or message buffer instead of crashing.',
     'histories inputs', 'all previous contents of the context memory', 'Tests zero their contexts or initialise them once.',
     [X], [('context initialisation and run entry', X)], TV + 'definite-initialisation analysis')
prop('C15', 'A loaded image is a view inside the image',
     'Loading an image succeeds only if signature, version, offsets and the terminator of every string lie inside the given bytes, and then code, string table and counts are exactly the ones the header names; a rejected image leaves the program untouched. No image content or length makes the loader touch memory outside it.',
     'inputs', 'all images of all lengths', 'Tests load images the compiler wrote, plus a few truncated ones.',
     [X], [('image loader', X)], TV + 'symbolic comparison of the loaded program with the header')
prop('C16', 'Integer and linear transforms apply the documented formulas in both directions',
     'With an add, subtract, multiply, divide or linear-scale transform in force, decoding delivers the transformed message value and encoding stores the inverse-transformed host value, for every integer width, signedness and byte order.',
     'inputs programs', 'all transform constants and values', 'Tests check a few constants; sign extension, width and byte-order mistakes need particular combinations.',
     [X, H], [('transform application in numeric items', X)], TV + 'symbolic value terms compared with the reference formulas', note='polynomial and spline: plumbing only')
prop('C18', 'The verifier accepts only programs the VM can walk',
     'The verifier is memory safe on every byte string; it accepts a program only if the walk with the instruction lengths of the VM, stepping over inline switch tables, reaches the end of the program, all opcodes and operand types are known, and every jump and switch target, default included, lies inside the program.',
     'programs', 'all byte strings', 'Tests verify compiler output and a handful of broken programs; lengths and targets of each opcode matter in combination.',
     ['src/vm/vm_verify.c', V], [('bytecode verifier', 'src/vm/vm_verify.c')], TV + 'instruction-by-instruction comparison of the walk with the VM instruction lengths')
prop('C17', 'Host callback protocol',
     'Every instruction calls the host exactly as often as documented, with the key and type named by the program, and hands over storage of exactly the size of that type (or a position inside the message for raw data). No instruction changes unrelated parts of the context.',
     'inputs programs', ALLP, 'Tests check the values of the sample schema, not storage sizes, call counts on error paths or unrelated context fields.',
     [X], [('io callback invocations', X)], TV + 'callback event sequence and context effects per path')

Y = 'src/compiler/cnd_parser.c'; YI = 'src/compiler/cnd_internal.h'; YC = 'src/compiler/cnd_compiler.c'
PS = 'property simulation (path-sensitive dataflow) of the parser functions on LLVM IR, '
DECL = 'every field declaration: all types, array forms, decorators and their combinations, in any surrounding schema'
prop('C19', 'Nested structs get their own, consistent keys',
     'When the code of a struct is copied into another struct or packet, every key operand of the copied instructions - also inside switch cases and behind inline switch tables - is replaced by the key of the prefixed name, and no other byte changes. No key is lost or cut when there are more names than a key can number.',
     'programs', 'all compiled struct bodies, all instruction sequences, all switch layouts', 'Tests nest a few small structs; a mistake shows only for an instruction kind that is rare inside a nested struct.',
     [Y, YC], [('key mapping of copied struct code', Y)], TV.replace('the dispatch loop', 'the key mapping') + 'walk compared with the instruction layout of the VM')
prop('C20', 'The compiler emits well-formed instructions only',
     'Every instruction the parser emits - for fields, structs, packets, enums, branches, switches and expressions - consists of an opcode of the VM followed by exactly the operands, in number, order and width, that the VM reads for it; a count operand equals the number of values that follow, and a type operand is one the VM accepts.',
     'programs inputs', 'every path through the parser', 'Tests compile a few dozen schemas; one wrong operand width shifts everything behind it, and only for the schema that uses it.',
     [Y, YI], [('emission of instructions', Y)], PS + 'emitted byte sequence compared with the instruction layout of the VM',
     note='paths that report a parser error are dropped, no image is written then; numbers that do not fit an operand are covered by C22 and C23')
prop('C21', 'A field compiles to the value instruction of its declaration',
     'A field declaration compiles to exactly one value instruction, of the declared type and signedness, with the key of the field name and, where declared, the bit width and the @const value in the width of its type; @const compiles to a check that reads, compares and does not call the host. Struct fields are wrapped by enter and exit, enum fields carry the declared underlying type and all entries.',
     'programs', DECL, 'Tests use the common types with few decorators; each combination of type and decorator takes its own path.',
     [Y], [('field declarations', Y)], PS + 'value instruction and operands compared with the declaration', note='no struct or enum is named like a built-in type')
prop('C22', 'Arrays and strings compile to their declared form',
     'An array field compiles to the array instruction of its declaration (fixed count in brackets or by @count, count from another field, prefix of the declared width, until the end of the message) with that count or key, in front of the element, and one array end behind it; a string compiles to the string instruction of its prefix or terminator and maximum. A field that is not an array has no array instruction.',
     'programs', DECL, 'Tests declare each array form once, on a plain integer; the form can be lost in combination with another decorator or type.',
     [Y], [('array headers and strings', Y)], PS + 'array and string instructions compared with the declaration', note='no struct or enum is named like a built-in type')
prop('C23', 'Decorators compile to their instruction, operands and place',
     'Every byte order, optional, padding, fill, transform, range, checksum and computed-value decorator of a field compiles to its instruction with exactly the declared arguments in the width of the field type, placed so that it acts on this field only; nothing is emitted for a decorator that is not there, and none is silently dropped.',
     'programs', DECL, 'Tests use decorators mostly alone; dropped, doubled or misplaced instructions need a combination, order or type no test declares.',
     [Y], [('decorators', Y)], PS + 'decorator instructions, operands and order compared with the declaration', note='precedence of @eof and @count is not specified; numeric accuracy of parsed literals is not decided')
prop('C24', 'Expressions compile to what they say',
     'An expression compiles to code that computes exactly it: operators with C-like precedence, from left to right, with their operands in order; integer, float, true and false literals, field names (the whole dotted name) and self as their values. An arithmetic or comparison operator with a float operand compiles to the float instruction and an integer operand of it, as that of a function, is converted, and nothing else is; float() and int() convert what does not have that type.',
     'programs', 'all expressions, of any depth and size', 'Tests compile single operators; precedence, associativity and conversions depend on combinations of operators and operand types.',
     [Y], [('expression parser', Y)], PS + 'emitted code executed on a symbolic operand stack, precedence by comparing what each binding strength takes in',
     note='a field is of unknown type and is not converted; negation of it is that of an integer; %, &, |, ^, << and >> of floats are not specified; what a number token is worth is decided by the C library')
prop('C25', 'Branches and switches compile to their structure',
     'An if compiles to its condition and jumps so that exactly the block the condition selects is executed, with any chain of else ifs, and execution goes on behind it. A switch compiles to one instruction on its field whose table leads each case value (number or enum value, in 64 bits) to the code of its case and every other value to the default or behind the switch, sparse or dense, and each case ends with a jump behind the table. A second default, two equal cases and a case without value or code are rejected.',
     'programs', 'all conditions, blocks of any length, any number and values of cases', 'Tests compile small ifs and switches in the usual order; targets depend on lengths, order and values of what lies between.',
     [Y], [('parse_if, parse_switch', Y)], PS + 'places in the code as symbols, jump operands and tables compared with the places they lead to as linear terms',
     note='a difference counts where it follows from the terms; values the terms do not determine are not judged; more than 65535 cases are rejected by the compiler')
prop('C26', 'Declarations define, emit and leave behind what they declare',
     'A struct, enum or packet is defined under its own name, which no other has, with exactly the code of its block or of the struct it names: an unaligned struct in bit mode and only up to a byte boundary, enum values as written or one more than the value in front, each only if it fits the declared type. Version and byte order decorators and imports act where they stand; an import is read relative to the file it is in and afterwards the importing file goes on unchanged. A schema has exactly one packet.',
     'programs', 'all sequences of declarations, imports to any depth', 'Tests declare small schemas; state that leaks from one declaration into the next shows only with the right follower.',
     [Y], [('parse_struct, parse_enum, parse_packet, parse_import, parse_top_level', Y)], PS + 'parser state and code compared with the declaration read',
     note='duplicate names and values within an enum and the comparison with files already imported are not decided; @be on top level is not specified')


NA = [
 ('C90', 'Round-trip equality of whole messages', 'Encoding a message and decoding it again yields the same values for every schema and value.', 'inputs programs',
  'quantifies over whole programs and message values at once; the per-instruction halves are decided by C02, C03 and C16, composition over unbounded loops and floating-point inverse formulas is a runtime quantity no sound static argument in reach bounds'),
 ('C91', 'Checksum values are numerically correct', 'The checksum instructions compute the CRC defined by their polynomial, initial value and reflection parameters.', 'inputs',
  'needs functional correctness of a bit-serial loop over an unbounded message; the static analysis only decides bounds, placement and that a mismatch is rejected'),
 ('C92', 'Polynomial and spline calibration accuracy', 'Calibrated values equal the mathematical polynomial or spline within rounding error, and encoding inverts decoding.', 'inputs',
  'floating-point accuracy of iterative evaluation and inversion is a numerical-analysis question, not decidable from source structure'),
 ('C93', 'Runs terminate', 'Every run over every program terminates.', 'programs',
  'false in general: programs may contain backward jumps by design, so termination is a property of the program, not of the code base'),
 ('C94', 'The formatter preserves meaning', 'Formatting a schema never changes the program it compiles to.', 'programs',
  'semantic equivalence of two texts under the compiler; needs execution of the compiler on both, which is not a static analysis of the code base'),
]


def main():
    with open(os.path.join(D, 'properties.jsonl'), 'w') as o:
        for p in P:
            o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
        for id, t, s, over, why in NA:
            o.write(json.dumps({'id': id, 'title': t, 'statement': s, 'quantifier': {'over': over.split(), 'text': 'all of them'},
                                'why_tests_cant': 'Tests sample a few points of an unbounded space.',
                                'anchors': {'files': [X], 'mechanism': [{'name': 'see DESIGN.md', 'where': X}]}}) + '\n')
    import sys
    sys.path.insert(0, D)
    from sa import props
    checks = []; na = []
    for p in P:
        if p['id'] not in props.PROPS:
            na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'}); continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or 'holds for all inputs; trusts clang, the analysis engine and its libc models'})
    for id, t, s, over, why in NA: na.append({'property': id, 'reason': why})
    m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(D, 'MANIFEST.json'), 'w') as o: json.dump(m, o, indent=1); o.write('\n')


if __name__ == '__main__': main()
