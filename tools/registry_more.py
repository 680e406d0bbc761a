# Executed by registry.py.
prop('B06', "Malformed input gives an error naming the field, never a wrong object",
     "Unpacking any byte string ends: it either fills the object with the values the bits denote or fails with the "
     "library's buffer error that names the class and a field that cannot be read from this input. Input too short for a "
     "number, text or JSON field is always rejected, as is text that cannot be decoded. After a failure the class and "
     "the same object unpack good input as usual.",
     ['inputs', 'programs', 'histories'],
     "every class and every byte string, in particular each truncation of a valid record and corrupted length and count "
     "fields",
     "tests feed one or two short inputs to fixed classes; the guarantee is about every truncation point and every "
     "hostile length",
     [BUF, IO, SER, FRB],
     [('length checks of decoders', SER), ('errors wrapped with class and field', BUF), ('open ranges and list loops', FRB)],
     ['Buffer.unpack', 'exceptions'],
     'runtime monitoring: fault injection (truncation, corruption) with the reference decoder as oracle', MODEL + TRUST)

prop('B07', "Values that do not fit are rejected by name; long values stay in their range",
     "Packing an object in which some value cannot be encoded at its field's position (a number outside the range of "
     "its width and sign, a value of the wrong type, text outside the encoding, content shorter than a fixed range of "
     "bytes) fails with the library's buffer error naming the class and a field concerned, and changes no other field. "
     "Content longer than its range is cut to the range and never spills into other bits. Once the value is corrected, "
     "the same object packs as if nothing had happened.",
     ['inputs', 'programs', 'histories'],
     "every class, every unrepresentable value in any of its fields, nested objects and list elements, for every width",
     "tests try one or two invalid values; the boundary is different for each of the hundreds of width, sign and "
     "position combinations",
     [BUF, IO, SER, FRB],
     [('range checks in encoders', SER), ('assignment limited to the ranges of the field', IO), ('error wrapping', BUF)],
     ['Buffer.pack', 'exceptions', 'instance attributes'],
     'runtime monitoring: invalid-value injection with the reference encoder as oracle, enumerated integer limits',
     MODEL + TRUST)

prop('B08', "Objects and operations are independent of one another",
     "What an object packs to and what unpacking gives depends only on its class, its own fields and the input: not on "
     "other objects of the same or another class, on earlier or failed operations, on operations started from within a "
     "callback, or on other threads using their own objects. Defaults and constants are not shared between objects, "
     "input buffers are never modified or kept, and results do not change later.",
     ['inputs', 'histories', 'schedules'],
     "every history of packs, unpacks, modifications and failures over several objects and classes, nested callback "
     "use, every thread schedule with separate objects",
     "tests use each object once; leftovers of a previous or concurrent operation only show over histories",
     [BUF, CTX, REF, IO, SER, FRB],
     [('per-operation contexts', CTX), ('evaluation state held in the context', REF), ('defaults and constants', BUF)],
     ['Buffer.pack', 'Buffer.unpack', 'instance attributes', 'input buffers'],
     'runtime monitoring: history workloads, re-entrant callbacks and threads, compared with fresh single-use runs and '
     'the reference model', MODEL + TRUST)

prop('B09', "A class hierarchy behaves as one class with the winning definitions",
     "A buffer class that inherits fields from one or several bases packs, unpacks, sizes, constructs and prints "
     "exactly as a single class declaring the same fields would, where a definition in the subclass wins over the "
     "inherited one of that name by the language's resolution order. Base classes and siblings are unaffected by "
     "subclasses being defined or used.",
     ['inputs', 'programs'],
     "every hierarchy (chains, several bases, diamonds, overriding) over every field kind, and every value",
     "tests inherit once from one base; resolution order, overrides and caches per class interact",
     [BUF],
     [('collection of fields over the bases', BUF), ('per-class size and type caches', BUF)],
     ['Buffer.pack', 'Buffer.unpack', 'Buffer.byte_size', 'repr', 'constructor'],
     'runtime monitoring: metamorphic oracle (hierarchy against flattened class) plus reference model', MODEL + TRUST)

prop('B10', "Conditional fields exist exactly when their condition holds",
     "A field with a packing or unpacking condition is written or read exactly when the condition (any comparison or "
     "expression over fields, forward or backward) holds for this object or input. A field that does not apply leaves "
     "no trace: no bytes, no contribution to sizes or to the position of what follows, no validation of its value, no "
     "input needed, and no value set on unpacking.",
     ['inputs', 'programs'],
     "every condition form over every field kind, both outcomes, including nested and positional dependants",
     "tests have one conditional field tested both ways; conditions combine with moving positions and sizes",
     [BUF, FRB, FC, AFT, TOT, REF],
     [('conditions evaluated per operation', BUF), ('positions relative to absent fields', AFT), ('sizes', TOT)],
     ['Buffer.pack', 'Buffer.unpack', 'Buffer.calc_byte_size', 'instance attributes'],
     'runtime monitoring: enumerated condition forms and generated classes against the reference evaluator',
     MODEL + TRUST)

prop('B11', "Lists, nested buffers and selected types hold exactly what was sent",
     "A list field holds exactly the elements its count or range admits, in order, for every element type, and what "
     "follows starts right after; nested buffers behave inside their range as on their own; a type selector is asked "
     "once per element with that element's index, count and input, in order, and its answer decides how the element "
     "is read. A count or range that the input cannot satisfy is an error or ends the list, never wrong elements.",
     ['inputs', 'programs'],
     "every element type, count and range form, nesting depth and selector, with counts that agree or disagree with "
     "the data",
     "tests unpack a few fixed lists; the remainder, boundary and selector cases multiply",
     [FRB, SER, BUF, TOT],
     [('element loops', SER), ('selectors', FRB), ('nested pack/unpack', SER)],
     ['Buffer.pack', 'Buffer.unpack', 'selector calls'],
     'runtime monitoring: generated list layouts with recorded selector calls against a sequential reference decoder',
     MODEL + TRUST)

prop('B12', "Circular definitions are reported, every other definition is resolved",
     "When a field's value or position depends on itself through any chain of references, packing or unpacking fails "
     "with the library's error caused by its circular-reference error, in bounded time; when no such dependency "
     "exists, however long, dense or forward the references, the operation succeeds with the right values. After a "
     "report the class and object still work for whatever does not involve the cycle.",
     ['programs'],
     "every dependency graph over the fields (all graphs of up to three fields enumerated, larger ones generated), "
     "packing and unpacking",
     "tests have one cycle of two fields; false reports and missed cycles depend on graph shape and evaluation order",
     [REF, FRB, CTX, TOT, AFT],
     [('in-progress marks of reference evaluation', REF), ('total size and offsets as dependencies', TOT)],
     ['Buffer.pack', 'Buffer.unpack', 'exception chain'],
     'runtime monitoring: enumerated and generated dependency graphs, cycle oracle by graph search', MODEL + TRUST)

prop('B13', "Bit views and bit-addressed byte arrays are sequences of bits",
     "A bit view or bit-addressed array behaves as the sequence of bits it covers (first bit: least significant of its "
     "first byte): slices by fractions of a byte, in any way of writing them, hold exactly those bits; inserting, "
     "deleting, replacing, extending and zero filling at any bit move the bits behind and change no other; every way of "
     "reading agrees; slices, sums and conversions are copies, operands stay as they are, and items past the end do not exist. "
     "Input and output buffers gather and scatter lists of ranges in their order.",
     ['inputs', 'histories'],
     "every history of operations at every bit offset and length, over views that start and end anywhere",
     "tests check a dozen fixed operations; alignment of source, target and tail give hundreds of distinct shift paths "
     "and errors only corrupt neighbouring bits",
     [IO],
     [('moving the tail of the bits', IO), ('bit copies across byte boundaries', IO), ('slices', IO)],
     ['BitView', 'BitAwareByteArray', 'InputBuffer.get', 'OutputBuffer.set'],
     'runtime monitoring: operation histories and enumerated edits checked after every step against a list of bits',
     MODEL + TRUST)

prop('B14', "Range declarations select exactly the bits they describe, in order",
     "A field placed by a range expression (bytes, slices, lists and sums of them, and bits or bit slices counted "
     "through the concatenation of all those, with numbers written down or given by other fields) occupies exactly the "
     "selected bits in the written order, packing and unpacking alike, and sizes agree with it. A selection in which a "
     "bit occurs twice, or that its parent range does not have, is rejected.",
     ['inputs', 'programs'],
     "every range expression, every number in it and every single bit of the field",
     "tests select from one or two ranges; the mapping of bits through split ranges has off-by-one cases at every "
     "boundary",
     [RREF, RNG, FRB, IO],
     [('bit selection through lists of ranges', RREF), ('overlap detection', RNG), ('open ranges', RREF)],
     ['Buffer.pack', 'Buffer.unpack', 'Buffer.byte_size', 'Buffer.calc_byte_size'],
     'runtime monitoring: enumerated and generated range expressions observed bit by bit against a list-of-bits oracle',
     MODEL + TRUST)

prop('B15', "Codecs are exact over their whole domain",
     "Integer, float, text, JSON and raw byte fields and list elements encode every value of their domain to the one "
     "right encoding (width, sign, byte order, text encoding, padding and justification) and decode every byte string "
     "to the value it denotes, or reject it; values outside the domain are rejected, never wrapped, rounded into "
     "range or truncated silently.",
     ['inputs'],
     "every value and every byte string for every predefined type, field function, width and option",
     "tests encode a few small positive numbers; limits, signs, orders and special values multiply to thousands of cases",
     [SER, MAC],
     [('struct and bit codecs', SER), ('type tables', MAC), ('text justification and stripping', SER)],
     ['Buffer.pack', 'Buffer.unpack', 'exceptions'],
     "runtime monitoring: enumerated boundary values and random values against the language's own conversions",
     MODEL + TRUST)

prop('S01', "A struct is written as its declared sequence of fields and reads back the same",
     "For every Struct class, built from any combination of fields and nested to any depth, writing an object produces "
     "exactly the concatenation of its fields' encodings in declaration order (to a string or appended to a stream), "
     "and reading those bytes gives equal values. Any other byte string either denotes the values that the declaration "
     "assigns to it and is read as those, consuming exactly its own bytes, or is rejected with an exception; reading "
     "always ends.",
     ['inputs', 'programs'],
     "every class declaration, every assignment of values and every byte string given to it",
     "tests write and read a few structs of two or three fields; combinations of field kinds, nesting and lengths are "
     "endless",
     [ST, BASE, ARR, NUM, STR, MAP, PAD, BIT, CONST, LAZY, OPT, SEL, PTR],
     [('containers write and read in order', ST), ('arrays', ARR), ('strings', STR), ('bit fields', BIT)],
     ['write_to_string', 'write_to_stream', 'create_from_string', 'create_from_stream', 'stream position', 'exceptions'],
     'runtime monitoring: random classes, values and hostile bytes against an independent encoder and decoder',
     MODEL + TRUST)

prop('S02', "Numbers of all types are coded exactly, wherever they are used",
     "Each of the 30 predefined number types writes every number of its range as the one encoding of its width, sign and "
     "byte order (two's complement or IEEE 754) and reads every byte pattern as the number it denotes. Numbers outside the "
     "range, values that are not numbers and input that is too short are rejected with nothing written. This holds "
     "equally for fields, defaults, array elements, lengths, mapped values, constants, optional and lazy fields and "
     "selector keys.",
     ['inputs'],
     "every number and byte pattern for every type and every way of using it",
     "tests encode one or two values per type, mostly positive, so wrong limits, signs or orders of one type or one use "
     "go unseen",
     [NUM, ARR, STR, MAP, CONST, LAZY, OPT, SEL, ST],
     [('type table', NUM), ('lengths of arrays', ARR), ('lengths of strings', STR), ('mapping', MAP)],
     ['write_to_string', 'write_to_stream', 'create_from_string', 'create_from_stream', 'exceptions'],
     'runtime monitoring: exhaustive 8 and 16 bit values, enumerated limits and random values against int/struct codecs',
     MODEL + TRUST)

prop('S03', "Bit fields occupy exactly their declared bits, and nothing else",
     "In a group of bit fields, each field's value is made of exactly the bits declared for it (consecutive from the least "
     "significant bit of the first byte, or given by positional slices, first slice lowest), reading and writing alike. "
     "Assigning one field, even a value that is too wide for it, changes no bit of another; padding and gaps are "
     "written as zero and ignored when read, constant bits are checked, and groups that do not fill whole bytes are "
     "rejected; all this in nested structs, arrays and lazy groups as well.",
     ['inputs', 'programs'],
     "every division of a group into fields, every value of every field and every bit of the input",
     "tests use a handful of layouts; offset, width and byte-boundary combinations each take different paths through the "
     "bit stream",
     [BIT, BSIO, SMAC, LAZY, CONST],
     [('bit stream', BSIO), ('bit field containers', BIT), ('declaration macros', SMAC)],
     ['write_to_string', 'create_from_string', 'sizeof', 'min_max_sizeof', 'exceptions'],
     'runtime monitoring: enumerated layouts observed bit by bit (flip and assign) against a bit-position oracle',
     MODEL + TRUST)

prop('S04', "Announced sizes are true",
     "sizeof(obj) is exactly the number of bytes that writing obj produces, for every struct object (built, read, modified, "
     "or of a derived class held where the base class is declared) and every marshal. The size of every object lies within "
     "min_max_sizeof() of its class; the lower bound is the least size and the upper bound the greatest one, or not less "
     "where lengths are signed. is_fixed_size() holds exactly when all sizes are equal, and declarations that need fixed-size "
     "parts refuse others.",
     ['inputs', 'programs'],
     "every class and every object of it",
     "tests assert the sizes of a few classes; the guarantee is a relation between sizeof, bounds and written bytes for "
     "every combination of fields and values",
     [BASE, ST, ARR, STR, OPT, SEL, LAZY, BIT],
     [('MinMax arithmetic', BASE), ('array sizes', ARR), ('string sizes', STR), ('selector bounds', SEL)],
     ['sizeof', 'min_max_sizeof', 'is_fixed_size', 'write_to_string'],
     'runtime monitoring: sizes observed on random, minimal and maximal objects against the written bytes and computed bounds',
     MODEL + TRUST)

prop('S05', "A struct takes exactly its own bytes from a stream and reports stream problems",
     "Reading from a stream consumes exactly the record's bytes, never asks for more, and needs nothing but read(), so "
     "records can follow one another on pipes and sockets, and using the object later reads nothing. Input that ends "
     "inside of a record is rejected wherever it is cut, a read or write that fails is reported, not swallowed, and reads that "
     "return less than asked for never give a wrong object. Records written one after the other are just concatenated, and "
     "after any failure the class and other objects work as before.",
     ['inputs', 'programs', 'fault_sequences'],
     "every class, every sequence of records, every cut and every point of failure of the stream",
     "tests read from complete in-memory strings; the position after each record and failures in the middle of it are "
     "never observed",
     [ST, RAS, ARR, NUM, STR, PAD, SEL, LAZY, BIT],
     [('struct reading', ST), ('read ahead', RAS), ('arrays by byte total', ARR), ('short reads', NUM)],
     ['create_from_stream', 'write_to_stream', 'calls on the stream', 'exceptions'],
     'runtime monitoring: monitored and failing streams, every call recorded and judged against record boundaries',
     MODEL + TRUST)

prop('S06', "Selected structs: the key decides the type, the type gets all the bytes",
     "A field whose struct type is selected by a key read ahead, or by a function, is read as exactly the type that its "
     "table, default or function gives for the key, from the first byte of the key on, consuming what that type consumes; "
     "functions run once, with the object that is being read and its earlier fields set. A key without a type, and a type that "
     "leaves key bytes unread, is rejected with the library's error. Objects of any struct class, derived ones included, are "
     "written and sized as what they are, and the caller's table is neither changed nor depended on later.",
     ['inputs', 'programs'],
     "every table and function, every key in it or not, every nesting of selectors in arrays, structs and selectors",
     "tests select between two structs with one byte keys; longer keys, overlaid keys, nesting and leftovers are not covered",
     [SEL, RAS, SMAC, ST],
     [('selection by key and function', SEL), ('read ahead and replay', RAS)],
     ['create_from_stream', 'types of the objects read', 'calls into user functions', 'write_to_string', 'exceptions'],
     'runtime monitoring: reference decoder and call-trace monitor over every key of random tables and hostile input',
     MODEL + TRUST)

prop('S07', "Lazy fields behave like plain ones, except for when they are decoded",
     "A class with fields in lazy groups is indistinguishable from the same class without them in every history of "
     "constructing, reading, getting, setting, copying, sizing and writing its objects: same values, bytes, sizes and refusals. "
     "A lazy group is decoded when one of its fields is first used and not before, at most once, and prints as lazy until then; "
     "truncated input is rejected when it is read, and malformed content every time it is used, while the rest of the object and "
     "other objects stay usable.",
     ['inputs', 'programs', 'histories'],
     "every class, every choice of lazy groups and every history of operations on several objects, with good and bad input",
     "the tests have hardly any lazy field; the equivalence depends on which operation comes first after reading",
     [LAZY, ST, CONST, BIT],
     [('lazy container and field descriptor', LAZY), ('constants as descriptors', CONST)],
     ['attributes', 'create_from_string', 'write_to_string', 'sizeof', 'repr', 'exceptions', 'calls of decoders'],
     'runtime monitoring: the same operation histories on plain and lazy declarations compared step by step',
     MODEL + TRUST)

prop('S08', "What a declaration does not allow is rejected and does no harm",
     "Writing an object in which any value, at any depth, cannot be represented (numbers out of range, wrong types, missing "
     "values, strings or arrays of a wrong length, keys without a mapping, totals that do not fit their length) fails. "
     "Reading input that contradicts the declaration (other constants, unmapped values or keys, negative lengths, totals that "
     "elements do not add up to) fails and always ends; constants cannot be changed. "
     "After a failure the object is otherwise unchanged, works once it is put right, and class and other objects are unaffected.",
     ['inputs', 'programs', 'histories'],
     "every class, every position of a bad value and every contradiction in the input",
     "tests provoke one or two errors on flat structs; silent acceptance of one kind of bad value in one position goes "
     "unnoticed",
     [NUM, STR, ARR, MAP, CONST, SEL, BIT, ST],
     [('number ranges', NUM), ('lengths and padding', STR), ('counts and totals', ARR), ('constants', CONST), ('mappings', MAP)],
     ['write_to_string', 'create_from_string', 'attribute assignment', 'exceptions'],
     'runtime monitoring: invalid values injected at every position and contradictory inputs, with recovery checks',
     MODEL + TRUST)

prop('S09', "An object starts with what was asked for, and shares nothing",
     "A new object has each field set to the keyword given for it (an explicit None included) or to a copy of its default, before the "
     "closest __init__ written by the user runs; that __init__, own or inherited, is called as in an ordinary class, with the positional "
     "arguments, the keywords that are not fields and those it names. A subclass uses the closest list of fields in resolution order "
     "(having none is an error), unknown keywords are ignored if no __init__ takes them, and reading constructs the object in the same "
     "way before the values read take over. Objects share no mutable state with each other, with their deep copies or with defaults, and "
     "the same field objects can serve several classes.",
     ['inputs', 'programs', 'histories'],
     "every class hierarchy, every __init__ signature and super call at every level, every combination of arguments",
     "tests construct a few classes with one __init__ signature each; binding of arguments depends on the combination of levels, "
     "kinds of parameters and fields",
     [ST, BASE, CONST, LAZY, BIT],
     [('construction', ST), ('constants are not constructed', CONST), ('lazy fields', LAZY)],
     ['constructor', 'calls of user __init__', 'attributes', 'create_from_string', 'write_to_string', 'deepcopy'],
     'runtime monitoring: random hierarchies with traced __init__ calls, compared with plain Python classes running the same texts',
     MODEL + TRUST)

prop('S10', "Conditions, pointers and context see the object being processed",
     "An optional field is read exactly when its predicate holds, which is called once per object read, with the object, its "
     "earlier fields set, the stream positioned at the field and the context in force; it is written and counted exactly when "
     "its value is not None. A pointer gives the value that the field of the innermost enclosing object has at that moment. "
     "The context that user code sees holds the class's own entries, overridden by those of the enclosing object and the caller, "
     "plus the innermost object as 'struct', in reading, writing and printing alike; what user code puts there reaches only later "
     "fields of the same object and objects inside it, and neither the caller's context nor a class's is ever modified.",
     ['inputs', 'programs', 'histories'],
     "every tree of nested structs, arrays, selectors and optional fields with user code in any place, every input and context",
     "tests use one optional field and one pointer in a flat struct; which object and context are seen depends on the nesting",
     [OPT, PTR, BASE, ST, SEL, LAZY],
     [('optional fields', OPT), ('pointers', PTR), ('contexts of classes and objects', BASE), ('the current object', ST)],
     ['calls of predicates, selecting functions and user marshals', 'create_from_stream', 'write_to_string', 'sizeof', 'repr'],
     'runtime monitoring: traced user code, compared call by call with a trace predicted from the declaration', MODEL + TRUST)

prop('B16', "Expressions over fields are ordinary arithmetic",
     "An expression built from fields, lengths, sums, method calls, numbers and the operators + - * / // < <= > >= == != "
     "with operands in any order has, wherever it is used (as a position, size, count, condition or value), the value that "
     "the same Python expression has on the objects' current attributes, when packing and when unpacking alike. Methods "
     "called in it get the values of their arguments and results are never taken from another object or operation. Where the "
     "Python expression raises an error, the operation fails; an expression that is not needed is not evaluated.",
     ['inputs', 'programs'],
     "every expression tree with shared subexpressions, in every role, and all values of the fields",
     "tests use one or two operators on small numbers; the value depends on operand order, precedence, division and caching of "
     "shared subexpressions",
     [REF, CTX, RREF, BUF, MAC, FC],
     [('operators and function calls', REF), ('lengths and totals', RREF), ('evaluation per operation', CTX)],
     ['Buffer.pack', 'Buffer.unpack', 'calls of user methods', 'instance attributes'],
     'runtime monitoring: random expression trees, compared with Python evaluating the same expression', MODEL + TRUST)

prop('S12', "Strings, arrays, mappings and padding keep their content at every length",
     "A padded string is written as the value plus padding up to its size on the chosen side and read back without padding from "
     "that side only; counted strings, buffers and arrays are written as their count, in the length field's format, and exactly "
     "that many elements, and reading takes exactly those bytes. A mapping writes the number of the given key and reads the key "
     "of the given number, every way round. Values too long for the size or the length field, unknown keys and numbers, wrong "
     "element counts and short input are rejected; padding bytes are written as zeros and ignored when read.",
     ['inputs', 'configurations'],
     "every content and length up to and beyond the limits, every padding character, direction, length format and element kind, "
     "used alone, as a field and as an array element",
     "tests use one length per kind; ends of padding, limits of length fields and content equal to the padding only show at "
     "particular contents",
     [STR, ARR, MAP, PAD],
     [('padding and lengths of strings', STR), ('counts of arrays', ARR), ('mappings', MAP), ('padding', PAD)],
     ['write_to_string', 'create_from_string', 'sizeof', 'min_max_sizeof', 'exceptions'],
     'runtime monitoring: enumerated contents around every limit and random ones, compared with independent formulas', MODEL + TRUST)

prop('S11', "Printing shows the values an object has and changes nothing",
     "The text of a struct names its class and every field in order with the value it has at this moment, at any depth: unset "
     "fields as not set, constants and padding as such, lazy groups as lazy until they are used, objects of derived classes as what "
     "they are, and numbers in the formats of the context in force. The text of a buffer names its class and every field with the "
     "repr of its value. Printing works in every state of an object, and neither decodes, calls user functions, nor changes "
     "objects or contexts.",
     ['inputs', 'programs', 'histories'],
     "every class and every history of building, reading, changing, copying and writing before the print; every format",
     "tests print one or two complete objects; stale, missing or decoded values only show after histories on nested objects",
     [ST, BASE, CONST, LAZY, BIT, SEL, BUF, SAFE],
     [('text of structs', ST), ('text of constants', CONST), ('text of lazy fields', LAZY), ('text of buffers', BUF), ('safe_repr', SAFE)],
     ['repr', 'Struct.to_repr', 'Buffer.__repr__', 'instance attributes', 'contexts'],
     'runtime monitoring: histories of changes and prints, compared with a text predicted from the changes', MODEL + TRUST)

prop('S13', "Operations on separate structs are independent, threads included",
     "What constructing, reading, writing, sizing, copying or printing a struct gives depends only on its class, that object, the "
     "input and the context passed: not on operations that other objects of the same or other classes went through before, failed "
     "ones included, on operations started in the middle of it by a stream, predicate or selector, or on those that other threads "
     "perform on their own objects at the same time.",
     ['histories', 'schedules'],
     "every order of operations of several users of the same classes, nested at every point where user code runs, and every "
     "schedule of threads at the granularity of lines",
     "tests use one object at a time and no threads; state left in classes, fields or marshals shows only when operations overlap",
     [ST, BASE, BIT, LAZY, SEL, ARR, RAS],
     [('state of an operation is in its context and streams', BASE), ('shared field objects', ST), ('bit streams', BIT), ('lazy groups', LAZY)],
     ['create_from_stream', 'write_to_stream', 'sizeof', 'repr', 'attributes', 'thread switches'],
     'runtime monitoring: overlapping histories, re-entrant streams and callbacks, and threads under a controlled scheduler that '
     'switches at chosen library lines, compared with the reference for each user alone', MODEL + TRUST)

prop('X01', "A buffer class put through the adapter behaves as a struct of its bytes",
     "With buffer_to_struct_adapter a buffer class can be used where a struct is: writing gives the bytes of pack(), alone, after what "
     "a stream already holds, and as field, optional field or array element of structs; sizeof() is their number; reading from a "
     "string or a stream gives an object of the class with the values unpack() gives, and takes exactly the size of the class from the "
     "stream, fractions of a byte rounded up. Classes without a fixed size are refused when reading from a stream, before anything is "
     "read, and input that is too short, values that cannot be packed and failing streams are reported as they are elsewhere.",
     ['inputs', 'programs', 'configurations'],
     "every buffer class, of whole or fractional, computed or declared size, every value and every place in a struct",
     "tests read one two-byte class from a string; sizes, positions in streams and nesting are what varies",
     [COMPAT, BUF, ST, ARR, OPT],
     [('the adapter', COMPAT), ('size of a class', BUF)],
     ['StructTypeAdapter methods', 'write_to_string', 'create_from_stream', 'sizeof', 'streams'],
     'runtime monitoring: random buffer classes inside structs, compared with the buffer reference', MODEL + TRUST)
