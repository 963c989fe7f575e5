"""What each check builds and runs. Counts are cases per part."""
PROTOS = ['Zera', 'MsgPack', 'Flex', 'JSON', 'CBOR']


def per_proto(src, quick, thorough, protos=PROTOS, scale=None, **kw):
    out = []
    for p in protos:
        f = (scale or {}).get(p, 1)
        d = dict(name=p, src=src, defs=[f'-DVZ_P={p}', f'-DVZ_PNAME="{p}"'] + (['-DVZ_NOJSON'] if p != 'JSON' else []) + (['-DVZ_NOCBOR'] if p != 'CBOR' else []),
                 count=dict(quick=int(quick * f), thorough=int(thorough * f)), optional=p in ('JSON', 'CBOR'))
        d.update(kw)
        out.append(d)
    return out


def all_protos(src, quick, thorough, protos=PROTOS, scale=None, **kw):
    """As per_proto, but every protocol is compiled in (translation targets)."""
    out = []
    for p in protos:
        f = (scale or {}).get(p, 1)
        d = dict(name=p, src=src, defs=[f'-DVZ_P={p}', f'-DVZ_PNAME="{p}"'], count=dict(quick=int(quick * f), thorough=int(thorough * f)),
                 optional=p in ('JSON', 'CBOR'), fallback=p not in ('JSON', 'CBOR'))
        d.update(kw)
        out.append(d)
    return out


def release(parts, names):
    """The same cases in an optimized g++ build without instrumentation: the other compiler orders
    arguments differently and optimizes on other assumptions."""
    return [dict(p, name=p['name'] + '-gcc', cxx='g++', san='release') for p in parts if p['name'] in names]


def with_release(parts, names):
    return parts + release(parts, names)


def modules(src, what, quick, thorough, protos=PROTOS):
    """The drivers built with "import zerialize" (lib/proto.hpp)."""
    return [dict(name=f'{p}-{what}', src=src, defs=[f'-DVZ_P={p}', f'-DVZ_PNAME="{p}"', '-DVZ_MODULE'], count=dict(quick=quick, thorough=thorough), module=True, optional=p in ('JSON', 'CBOR'))
            for p in protos]


CHECKS = {
    'C01': dict(
        parts=with_release(per_proto('c01.cpp', 24000, 600000), ['Zera', 'MsgPack', 'Flex']) +
              [dict(name='huge', src='c01h.cpp', defs=['-DVZ_NOJSON', '-DVZ_NOCBOR'], san='plain', shards=1, weight=5, count=dict(quick=8, thorough=12))],
        level='exploration',
        rule='Random value trees biased to width, length and count boundaries plus special shapes (65k-item containers, deep nesting, 9 MB payloads, strings, blobs, keys and counts around 4 GiB), '
             'written through 5 write paths and read back through every constructor; non-trivial = more than one node or any payload bytes; distinct by content digest and protocol.',
        must_observe=['values read back', 'unrepresentable values refused', 'huge values refused'],
    ),
    'C02': dict(
        parts=all_protos('c02.cpp', 3000, 80000),
        level='exploration',
        rule='Random documents of each source protocol translated to all five targets whole, by sub-value, embedded and through chains of 2-5 hops, documents of over 65533 items and payloads over 1 MiB, translate_bytes; compared value by value with the model; '
             'unrepresentable values and nesting over 1024 must throw; non-trivial = more than one node or any payload bytes; distinct by content digest and source protocol.',
        must_observe=['values compared after translation', 'chained translations', 'sub-values translated', 'too deep refused', 'unrepresentable translations refused'],
    ),
    'C05': dict(
        parts=with_release(per_proto('c05.cpp', 6000, 100000), ['Zera', 'MsgPack', 'Flex']),
        level='exploration',
        rule='Every integer in [-1152, 1151] and within 8 of each power of two, signed and unsigned (thorough: every integer in [-80000, 80000]) plus boundary-biased 64-bit integers and doubles (NaN payloads, subnormals, float-rounding edges) in native and foreign encodings, '
             'each read through all ten numeric accessors and asBool; non-trivial = a number; distinct by kind, value and protocol.',
        must_observe=['integer accessor calls', 'integers out of range refused', 'doubles and floats returned exactly', 'non-floats refused as floats', 'foreign encodings'],
    ),
    'C06': dict(
        parts=per_proto('c06.cpp', 3500, 150000),
        level='exploration',
        rule='Random documents; every visited value is asked all predicates and all accessors, arrays get out-of-range indexes, maps (to 135000 keys) get multi-pass iteration, iteration over temporaries, '
             'and lookups of near-miss keys in exact-size heap blocks; non-trivial = more than two nodes; distinct by content digest and protocol.',
        must_observe=['refusals observed', 'multi-pass iterations', 'iterations over temporaries', 'positive lookups', 'negative lookups', 'out-of-range indexes refused'],
    ),
    'C03': dict(
        parts=per_proto('c03.cpp', 40000, 1500000, protos=['Zera', 'MsgPack', 'JSON', 'CBOR'], scale=dict(Zera=3, CBOR=2, JSON=2), asan_options='max_allocation_size_mb=512'),
        level='exploration',
        rule='All one- and two-byte messages, every truncation of sampled messages, mutated valid messages, format-aware forgeries (forged offsets, counts, cycles, shared children, indefinite and '
             'over-long items) and extreme nesting, and sparse messages around 4 GiB; each placed read-only inside an 80 GB inaccessible reservation with poisoned surroundings, walked through predicates, accessors, iteration, '
             'lookup and translation under ASan+UBSan; non-trivial = two bytes or more; distinct by message bytes and protocol.',
        must_observe=['inputs accepted by the constructor', 'inputs refused by the constructor', 'operations that returned', 'operations that threw DeserializationError',
                      'hostile inputs fully walked by translation', 'translations refused', 'hostile inputs translated to another protocol'],
    ),
    'C04': dict(
        parts=per_proto('c04.cpp', 10000, 300000),
        level='exploration',
        rule='Random documents read from read-only pages; Zera, MsgPack and Flex under a malloc hook that must see no allocation, with every view checked to lie in the message; Zera fields read '
             'while all sibling payloads are poisoned for the address sanitizer; non-trivial = more than one node; distinct by content digest and protocol.',
        must_observe=['documents read without allocation', 'views into the message', 'documents read from read-only memory', 'lazy reads with poisoned siblings'],
    ),
    'C15': dict(
        parts=[dict(name='b64', src='c15.cpp', defs=['-DVZ_NOJSON'], count=dict(quick=60000, thorough=3000000)),
               dict(name='JSON', src='c15.cpp', defs=['-DVZ_NOCBOR'], count=dict(quick=60000, thorough=2000000), optional=True)],
        level='exploration',
        rule='All strings of length 0-2, every length to 643, random ones to 300 kB, compared with an RFC 4648 reference and decoded back; every byte value substituted and inserted at every position of a text; '
             'JSON blobs written through 5 paths, near-miss triples; non-trivial = not empty; distinct by bytes.',
        must_observe=['byte strings encoded and decoded', 'invalid characters refused'],
    ),
    'C11': dict(
        parts=[dict(name='buffer', src='c11.cpp', defs=['-DVZ_BUFFER', '-DVZ_NOJSON', '-DVZ_NOCBOR'], count=dict(quick=60000, thorough=2000000), asan_options='detect_stack_use_after_return=1')] +
              per_proto('c11.cpp', 20000, 500000, asan_options='detect_stack_use_after_return=1'),
        level='exploration',
        rule='Random histories of buffer operations against a deleter-event log, of open/copy/move/assign/destroy on owning and viewing readers whose sources are scrambled, and of stored builders, dynamic values and '
             'results whose sources are destroyed, under ASan with an allocation balance per history; non-trivial = more than four operations; distinct by operation trace.',
        must_observe=['deleter calls matched', 'moved-from buffers seen empty', 'refused constructions', 'readers copied', 'readers compared after an ownership operation', 'stored builders serialized',
                      'dynamic values outlived their sources', 'results outlived their sources', 'sub-values kept past their parents', 'allocations balanced against frees'],
    ),
    'C13': dict(
        parts=with_release(per_proto('c13.cpp', 24000, 800000, scale=dict(JSON=0.5)), ['Zera', 'MsgPack', 'Flex']),
        level='exploration',
        rule='Random value trees encoded by independent encoders that choose any conforming form (widths, floats, chunking, placement, order, sharing, padding, whitespace, escapes; Flex by the official builder with '
             'every sharing flag, bit width and typed vectors), read through every constructor and compared with the model; non-trivial = more than one node or any payload bytes; distinct by message bytes.',
        must_observe=['foreign messages', 'foreign values read', 'typed vectors written by the official builder', 'foreign messages translated'],
    ),
    'C12': dict(
        parts=per_proto('c12.cpp', 24000, 800000, scale=dict(JSON=0.4)) +
              [dict(p, name=p['name'] + '-mem', defs=p['defs'] + ['-DVZ_DET'], san='plain', flags=['-Wl,--wrap=malloc,--wrap=realloc']) for p in per_proto('c12.cpp', 24000, 600000)],
        level='exploration',
        rule='Random value trees written through 6 paths; the bytes are decoded by independent decoders (ZERA.md, MessagePack + msgpack-c, official FlexBuffers verifier, RFC 8949, RFC 8259) and compared with the model; '
             'each value is also written three times with heap and stack filled with different patterns; non-trivial = more than one node or any payload bytes; distinct by content digest.',
        must_observe=['messages decoded independently', 'repeated serializations compared', 'allocations filled with a pattern', 'Zera blobs at 16-byte offsets', 'Zera zero padding bytes', 'messages accepted by msgpack-c',
                      'messages accepted by the FlexBuffers verifier'],
    ),
    'C14': dict(
        parts=with_release(per_proto('c14.cpp', 16000, 500000), ['Zera']),
        level='exploration',
        rule='Random value trees through 5 write paths; 23 builder shapes (0-17 arguments) of 51 argument types with random contents, held by reference and by value; standard objects alone, const, dynamic and erased; '
             'all 8- and 16-bit integers and edges of the wider types; every description is written into an independent recording writer and into the protocol twice, and compared byte for byte with direct writer calls; '
             'arguments log their own serialization; distinct by content or generator state.',
        must_observe=['descriptions compared byte for byte', 'writer calls recorded', 'argument events in order', 'objects serialized again', 'builder shapes with arguments of random types', 'dynamic values of typed objects',
                      'standard objects serialized', 'arithmetic values checked', 'random trees through every path'],
    ),
    'C07': dict(
        parts=[dict(p, name=p['name'] + '-xt', defs=p['defs'] + ['-DVZ_XT']) for p in all_protos('c07.cpp', 10000, 300000, flags=['-O0'])] +
              [dict(p, name=p['name'] + '-eigen') for p in all_protos('c07.cpp', 30000, 1500000, flags=['-O0'])] +
              release(per_proto('c07.cpp', 15000, 750000), ['Zera']),
        level='exploration',
        rule='Random shapes of rank 0-5 (some to 35) with empty, unit and large (to 2^17) dimensions, dimensions that no matrix can hold, random element bits of 13 element types, row-major, column-major and dynamic xarray, xtensor, fixed, adapted and viewed tensors, 10 Eigen shapes in both '
             'storage orders, in 8 surroundings, read as arrays and views through every constructor and after translation, compared bit for bit at every index; distinct by type, shape, surroundings and elements.',
        must_observe=['tensors read back', 'matrices read back', 'tensor elements compared', 'translated tensors read', 'tensors in map form read', 'oversized dimensions refused'],
    ),
    'C08': dict(
        parts=per_proto('c08.cpp', 120000, 4000000, flags=['-O0']) +
              [dict(p, name=p['name'] + '-corrupt', defs=p['defs'] + ['-DVZ_TENSORS']) for p in
               per_proto('c18.cpp', 40000, 1500000, protos=['Zera', 'MsgPack', 'JSON', 'CBOR'], flags=['-O0'], asan_options='max_allocation_size_mb=512')],
        level='exploration',
        rule='Forged tensor documents in array and map form (wrong type codes including codes equal modulo 2^8 and 2^32, negative, oversized, fractional and overflowing dimensions, ranks and fixed dimensions off by one, payloads '
             'off by a byte or an element or of another size, other kinds in every slot) next to matching ones, read as xtensor and Eigen with 13 element types from exact-size blocks under ASan; the expected outcome is computed with 128-bit '
             'arithmetic; damaged tensor messages on guard pages; distinct by document and request.',
        must_observe=['matching tensors read', 'mismatched tensors refused', 'element type pairs tried', 'refused: element type code', 'refused: size that overflows', 'refused: negative dimension', 'refused: dimension over 32 bits',
                      'refused: one byte too many', 'refused: one element too few', 'refused: one dimension too few', 'refused: fixed dimension that differs', 'tensors read from hostile bytes', 'isTensor answers compared'],
    ),
    'C18': dict(
        parts=per_proto('c18.cpp', 20000, 600000, protos=['Zera', 'MsgPack', 'JSON', 'CBOR'], scale=dict(Zera=2, JSON=2), flags=['-O0'], asan_options='max_allocation_size_mb=512'),
        level='exploration',
        rule='Hostile byte strings (forged counts, lengths, dimensions and offsets, extreme nesting, mutated messages, damaged tensor documents) on guard pages; a malloc hook records the most heap held during each single '
             'reader operation, tensor read and translation and what is left after it; non-trivial = two bytes or more; distinct by message bytes.',
        must_observe=['inputs accepted by the constructor', 'operations that returned', 'operations that threw DeserializationError', 'tensors read from hostile bytes', 'translations measured'],
    ),
    'C09': dict(
        parts=per_proto('c09.cpp', 30000, 1000000, scale=dict(Zera=2), flags=['-O0']),
        level='exploration',
        rule='Random tensors of 13 element types and Eigen matrices, alone and between strings, with the message at each of 16 offsets from an aligned address; every field of the view report is compared with the payload address '
             'found through the plain reader, copies are read after the message is scrambled and freed, views are copied and moved, under ASan and UBSan alignment checks; Zera blobs of random documents are checked for their '
             'offset; non-trivial = has elements; distinct by type, shape, offset and elements.',
        must_observe=['aligned payloads viewed in place', 'misaligned payloads copied', 'copies of decoded payloads', 'copies outlived the message', 'aligned Zera tensors viewed in place', 'Zera blob offsets checked'],
    ),
    'C10': dict(
        parts=all_protos('c10.cpp', 2400, 60000, san='tsan', hang=200),
        level='exploration',
        rule='2-5 threads run 31 kinds of operation (reads, refused reads, lookups, iteration, translation, tensors, diagnostics, base64, misused writers, corrupt messages, copies of readers, serialization of shared const values) on shared readers of maps and arrays, sub-values, key ranges, tensor views, messages, buffers and values under the thread '
             'sanitizer, released together with injected delays; results are compared with the model and with a sequential run made afterwards; the first case of every process starts concurrently with nothing initialised; '
             'distinct by the observed order of (thread, operation).',
        must_observe=['concurrent operations', 'objects shared by all threads', 'schedules with interleaved threads', 'thread results compared with a sequential run', 'first uses in a process made concurrently'],
    ),
    'C16': dict(
        parts=per_proto('c16.cpp', 20000, 500000, flags=['-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc']),
        level='exploration',
        rule='For random values and 11 operations (write paths, translation, reading) every allocation of a run, or a sample of them, fails once or from then on; user callbacks throw at every call; legal writer call sequences '
             'are edited at random and judged by a reference automaton (Zera and JSON fully, Flex for ends); allocations must balance, results be right or an exception thrown, and a later run be unaffected, under ASan; '
             'distinct by operation and value or by event sequence.',
        must_observe=['allocation failures injected', 'failed allocations that threw', 'later runs unaffected', 'throwing callbacks', 'misuses refused', 'legal sequences read back'],
    ),
    'C17': dict(
        parts=[dict(name='buffer', src='c17.cpp', defs=['-DVZ_BUFFER', '-DVZ_NOJSON', '-DVZ_NOCBOR'], count=dict(quick=20000, thorough=600000))] +
              per_proto('c17.cpp', 12000, 400000, asan_options='max_allocation_size_mb=2048'),
        level='exploration',
        rule='Buffers of every length to 150 and random ones to 70000 bytes in four ownership kinds, every accessor and hexdump with row lengths 0-1000 parsed back; to_string of random documents with distinct plain tokens '
             '(native and foreign encodings, nesting to 900) checked token by token in reader order, of arbitrary documents and every sub-value, and of corrupt messages on guard pages; non-trivial = more than one node or any '
             'bytes; distinct by content.',
        must_observe=['buffers described', 'hexdump rows checked', 'values described', 'things found in the text in order', 'typed vectors described', 'corrupt values described', 'corrupt values refused'],
    ),
    'C19': dict(
        parts=per_proto('c19.cpp', 1600, 40000, protos=['Zera', 'MsgPack', 'Flex'], hang=60),
        level='exploration',
        rule='Large messages (arrays to 120000 elements, payloads to 300 kB, maps to 20000 keys, nested) whose pages are inaccessible until first touched: the pages touched by opening a reader, asking kinds, iterating keys and '
             'following random paths are counted against those that lie on the way; total bytes allocated while serializing (writer, erased, dynamic, builder) and translating against the size of the message; distinct by content.',
        must_observe=['paths traced', 'key iterations traced', 'operations that could have touched more', 'pages touched', 'serializations measured', 'translations measured'],
    ),
    'C20': dict(
        parts=[dict(p, reduced=['-DVZ_NOOWN']) for p in per_proto('c20.cpp', 12000, 400000, asan_options='detect_stack_use_after_return=1')],
        level='exploration',
        rule="Random and hostile value trees through a user's protocol (a reader whose sub-values, keys and blobs own what they hand out, three kinds of blob, four ways of reporting integers; a writer that accepts only one "
             "well-formed value): every write path into it, translation from and to every built-in protocol, tensors in both forms, documents that are no tensors, and exceptions thrown by every call into the user's code; "
             'distinct by content.',
        must_observe=["values delivered to the user's writer", 'values compared after translation', "tensors read through the user's reader", 'documents refused as tensors', 'exceptions of user code passed on',
                      "views into the user's message", 'copies of misaligned data', 'calls into user code'],
    ),
    'C21': dict(
        parts=modules('c21.cpp', 'built', 60000, 1500000) + modules('c02.cpp', 'translated', 1500, 40000, protos=['Zera', 'JSON', 'MsgPack']) + modules('c01.cpp', 'read', 6000, 200000, protos=['Flex', 'CBOR']),
        level='exploration',
        refused='the driver compiles with the headers but not with the module: ',
        rule='The C++20 module interfaces of the working tree are compiled with every protocol and both tensor backends, and the round-trip and translation drivers and one of builders, user types, dynamic values, tensors, '
             'key iteration and refusals are built with "import zerialize" in place of the headers and run under ASan and UBSan against the same model; distinct by content.',
        must_observe=['values read back', 'values compared after translation', 'descriptions written by an importing program', 'tensors read by an importing program', 'refusals caught by an importing program'],
    ),
}
