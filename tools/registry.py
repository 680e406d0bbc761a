#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (developer tool; no check runs it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/infi/instruct/'
BUF, IO, SER, FRB, MAC = S + 'buffer/buffer.py', S + 'buffer/io_buffer.py', S + 'buffer/serialize.py', \
    S + 'buffer/field_reference_builder.py', S + 'buffer/macros.py'
RNG, REF, RREF, TOT, AFT, CTX, FC = (S + 'buffer/range.py', S + 'buffer/reference/reference.py',
                                     S + 'buffer/reference/range.py', S + 'buffer/reference/total_size.py',
                                     S + 'buffer/reference/after_field.py', S + 'buffer/reference/contexts.py',
                                     S + 'buffer/reference/func_call.py')
FOA, FLD = S + 'buffer/reference/field_or_attr.py', S + 'buffer/reference/field.py'
ST, BIT, CONST, LAZY, OPT, SEL, PTR = [S + 'struct/%s.py' % n for n in
                                       ('__init__', 'bit', 'const', 'lazy', 'optional', 'selector', 'pointer')]
BASE, ARR, NUM, STR, MAP, PAD = [S + '%s.py' % n for n in ('base', 'array', 'numeric', 'string', 'mapping', 'padding')]
BSIO, RAS, SAFE = [S + 'utils/%s.py' % n for n in ('bitstringio', 'read_ahead_stream', 'safe_repr')]
COMPAT = S + 'buffer/compat.py'
SMAC = S + 'struct_macros.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, technique=technique, note=note,
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None))))


MODEL = ("Runtime monitor: the real classes are built and run under generated workloads, and an independent bit-level "
         "reference evaluator judges every observed result.")
TRUST = " Trusts the reference model in vmon/ and the interpreter; says nothing about inputs that were not executed."

prop('B01', "Buffer round trip: unpacking packed bytes gives back every value",
     "For every buffer class whose fields do not share bits and every assignment of values its fields can represent, "
     "unpacking the packed bytes into a fresh object gives every field that is read the value that was packed (derived "
     "fields: the derived value). Packing what was unpacked gives the same bytes again.",
     ['inputs', 'programs'],
     "every buffer class that can be declared (any mix of field kinds, bit/byte/multi ranges, computed positions, "
     "conditional, derived, nested and list fields) and every representable assignment of values",
     "the tests pack and unpack a few dozen fixed classes with one value each; the guarantee is over all declarations "
     "and all values",
     [BUF, SER, IO, FRB, RREF],
     [('one position expression drives both directions', FRB), ('pack and unpack codecs are inverse', SER),
      ('bit scatter/gather', IO)],
     ['Buffer.pack', 'Buffer.unpack', 'instance attributes'],
     'runtime monitoring: generated classes, round-trip oracle with reference evaluator', MODEL + TRUST)

prop('B02', "Packed bytes are exactly the declared wire layout",
     "Packing places every field's encoding at exactly the bits its declaration selects, in the declared order of "
     "ranges, with the declared byte order and signedness, and every bit that no field covers is zero. The result "
     "depends only on the declaration and the field values, not on how the object was built or what it packed before.",
     ['inputs', 'programs'],
     "every declaration of non-overlapping fields and every representable value, including all bit offsets and widths",
     "tests compare a few fixed images; alignment, width, byte-order and range-order combinations are unbounded",
     [BUF, IO, SER, RNG, RREF],
     [('bit range assignment', IO), ('bit selection inside byte ranges', RREF), ('integer/float/text encoders', SER)],
     ['Buffer.pack'],
     'runtime monitoring: byte-for-byte comparison with an independent bit-level encoder', MODEL + TRUST)

prop('B03', "Decoding reads exactly the declared bits, for any input",
     "For every input, each field that unpacking reads is determined by the bits at its declared position alone: equal "
     "to an independent decoding of these bits, unaffected by bits outside its class's fields and by trailing bytes. "
     "Inputs that are bytes, byte arrays or bit views are treated the same and are never modified.",
     ['inputs', 'programs'],
     "every declaration and every input byte string, valid or not, including inputs longer than the record",
     "tests unpack one well-formed sample per class; the guarantee covers arbitrary peer-controlled bytes",
     [BUF, IO, SER, FRB, RREF],
     [('range gather from the input', IO), ('decoders', SER), ('open ranges end with the input', FRB)],
     ['Buffer.unpack', 'instance attributes'],
     'runtime monitoring: independent bit-level decoder on mutated and random input, metamorphic non-interference',
     MODEL + TRUST)

prop('B04', "Sizes agree: class size, computed size, packed length, bytes consumed",
     "A class whose layout is fixed reports its size, the packed form of every object is exactly that long (rounded up "
     "to whole bytes), and a declared size pads shorter content with zeros and refuses longer content. For every "
     "object the computed size equals the end of its last packed field, before and after packing, and unpacking "
     "reports the size of the record it read, so that records packed back to back can be read one by one.",
     ['inputs', 'programs', 'histories'],
     "every class (fixed, declared or variable size) and every value; every sequence of records",
     "tests check the size of a handful of classes; consistency between four independent computations holds or breaks "
     "per layout and per value",
     [BUF, TOT, AFT, RNG, SER],
     [('static size computation', BUF), ('total size of packed and unpacked objects', TOT),
      ('nested consumption in whole bytes', SER)],
     ['Buffer.byte_size', 'Buffer.calc_byte_size', 'len(Buffer.pack())', 'Buffer.unpack return value'],
     'runtime monitoring: cross-checked size observations against the reference layout', MODEL + TRUST)

prop('B05', "Derived fields and references compute from the right values, once",
     "A field whose packed value, position, length or element count is given by a reference or a function gets exactly "
     "the value that expression has for this object (a function sees every field that the field is declared to be "
     "unpacked after), whatever the declaration order and whether the reference points "
     "forward or backward; the derived value is stored on the object and each user function runs once per operation. "
     "Packing changes no field that is not derived.",
     ['inputs', 'programs'],
     "every reference expression (fields, lengths, offset after a field, total size, min/max, arithmetic, functions) "
     "over every declaration order, packing and unpacking",
     "tests use two or three fixed expressions; evaluation order and caching interact with declaration order and depth",
     [REF, FRB, FC, FOA, FLD, AFT, TOT],
     [('memoised reference evaluation', REF), ('assign-then-use of derived values', FRB)],
     ['Buffer.pack', 'Buffer.unpack', 'instance attributes', 'calls into user functions'],
     'runtime monitoring: reference evaluator plus call-count monitor on user functions', MODEL + TRUST)

exec(open(os.path.join(HERE, 'tools', 'registry_more.py')).read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'registry_more.py')) else None


def main():
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'vmon', 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in done:
            f.write(json.dumps(p['line']) + '\n')
    checks = [dict(property=p['id'], quick_cmd='./check.sh %s --tier quick' % p['id'],
                   thorough_cmd='./check.sh %s --tier thorough' % p['id'], technique=p['technique'],
                   level='exploration', level_note=p['note']) for p in done]
    manifest = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
                    notes="Pure Python monitors; no hooks in /repo are needed: everything is observed through the public "
                          "API, streams and callbacks. See DESIGN.md; known_findings.txt lists the repaired defects.")
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(done), 'claimed;', [p['id'] for p in P if p not in done], 'without a check')


main()
