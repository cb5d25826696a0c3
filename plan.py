"""The properties: what run.py needs, and what gen_meta.py writes into
properties.jsonl and MANIFEST.json."""

GEN = ("A case draws a Go type (primitives, named types, strings, arrays, slices, maps, pointers, structs with every field "
       "tag, enums, types with their own marshalers, library types), then a value of it")
COMP = "non-trivial: the type is composite and the encoding is not empty; distinct by encoding, type and bytes"

ENC_FILES = {
    'bin': ['encoder.go', 'encoder_bin.go', 'decoder.go', 'decoder_bin.go', 'tags-parser.go', 'tags-options.go'],
    'borsh': ['encoder.go', 'encoder_borsh.go', 'decoder.go', 'decoder_borsh.go', 'tags-parser.go', 'tags-options.go'],
    'compact': ['encoder.go', 'encoder_compact-u16.go', 'decoder.go', 'decoder_compact-u16.go', 'compact-u16.go',
                'tags-parser.go', 'tags-options.go'],
}
ALL = sorted(set(sum(ENC_FILES.values(), [])))

DOMAIN = ("For every type built from supported kinds (booleans, 8- to 64-bit integers, floats, strings, arrays, slices, maps, "
          "pointers, structs, and types with their own marshalers)")


def P(id, title, statement, over, text, why, files, mech, rule, quick, thorough, oracle, *, observe=None, state=None,
      level='exploration', technique=None, note=None, assumptions=None, **cfg):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                quick=quick, thorough=thorough, oracle=oracle, observe=observe or [], state=state or [], level=level,
                technique=technique or 'property-based testing (rapid) with shrinking: ' + oracle, note=note,
                assumptions=assumptions or [], **cfg)


def rt(id, name, key, quick, thorough, extra):
    return P(
        id, '%s: decode(encode(v)) equals v' % name,
        DOMAIN + ", decoding the %s encoding of a value gives back an equal value (a nil and an empty slice or map count as "
        "equal%s), consumes exactly the bytes that were written, and leaves bytes that follow untouched. This holds through "
        "the one-call functions and through encoder/decoder objects, for a value passed directly or by pointer, and into a "
        "fresh or an already used destination." % (name, extra),
        ['inputs', 'programs'], 'all supported Go types (nested to any depth, all field tags) and all their values',
        'The tests round-trip a few dozen hand-written structs with one value each; the type space is unbounded and interactions '
        'of tags, kinds, nesting, boundary lengths and custom marshalers are hardly sampled.',
        ENC_FILES[key],
        [{'name': 'reflection-driven encoder', 'where': ENC_FILES[key][1]}, {'name': 'reflection-driven decoder', 'where': ENC_FILES[key][3]},
         {'name': 'field tag parsing', 'where': 'tags-parser.go'}],
        GEN + ", encodes it, decodes with and without trailing bytes and compares; " + COMP,
        quick, thorough, 'round-trip equality over generated types and values',
        observe=['Marshal%s / Unmarshal%s' % (name, name), 'Encoder.Encode, Decoder.Decode, Decoder.Position, Decoder.Remaining'])


def wire(id, name, key, quick, thorough, fmt):
    return P(
        id, '%s: the bytes are exactly the documented format' % name,
        DOMAIN + ", the %s encoding is exactly the documented one: %s" % (name, fmt),
        ['inputs', 'programs'], 'all supported types and values; the encoding is compared byte by byte with an independent implementation',
        'The tests compare a few dozen fixed values with literals; they cannot cover every kind in every position, every length '
        'class or every combination of tags, and a symmetric mistake in encoder and decoder passes any round-trip test.',
        ENC_FILES[key],
        [{'name': 'length prefixes', 'where': 'encoder.go WriteLength'}, {'name': 'reflection-driven encoder', 'where': ENC_FILES[key][1]},
         {'name': 'bulk paths for unsigned elements', 'where': 'encoder.go reflect_writeArrayOfUint_'}],
        GEN + ", encodes it and compares with the reference encoder (map entries in any order outside Borsh); " + COMP,
        quick, thorough, 'differential comparison with an independent reference encoder', observe=['Marshal%s' % name, 'Encoder.Encode'])


PROPS = [
    rt('C01', 'Borsh', 'borsh', 120000, 4000000, ', a nil non-optional pointer decodes as a pointer to zero'),
    rt('C02', 'Bin', 'bin', 90000, 3000000, ''),
    rt('C03', 'CompactU16', 'compact', 90000, 3000000, ''),
    wire('C04', 'Borsh', 'borsh', 120000, 4000000,
         "little-endian fixed-width numbers, u32 lengths, structs and arrays as plain concatenations, one option byte, maps "
         "sorted by key whatever the iteration order (numbers by value, strings and arrays lexicographically, false before true), enums as a variant byte and the variant. Equal values therefore always "
         "have identical bytes."),
    wire('C05', 'Bin', 'bin', 80000, 2500000,
         "little-endian fixed-width numbers unless a field says big, a u64 length before strings, an unsigned varint before "
         "slices and maps, a u32 flag before optional values, structs and arrays as plain concatenations, map entries in any "
         "order but each exactly once."),
    wire('C06', 'CompactU16', 'compact', 90000, 3000000,
         "fixed-width numbers little-endian unless a field says big, compact-u16 lengths before strings, slices and maps, one "
         "option byte, structs and arrays as plain concatenations. A string, slice or map longer than 65535 is refused with "
         "an error instead of being written with a wrong length."),
    P('C07', 'Arbitrary bytes decode exactly as the format says, or are refused',
      "For every supported type and every byte sequence, valid or not, each of the three decoders accepts exactly the sequences "
      "that have a well-formed encoding as prefix, and then yields the value and consumes the number of bytes that the format "
      "defines. Everything else is an error: too short, lengths that exceed the data, option flags and enum variants out of "
      "range, malformed variable-length integers.",
      ['inputs', 'programs'], 'all supported types and all byte sequences (random, structured, mutated encodings, corrupted lengths)',
      'Tests decode mostly what the encoder wrote; acceptance and rejection of the rest of the input space is hardly sampled.',
      ALL, [{'name': 'length checks', 'where': 'decoder.go ReadLength'}, {'name': 'reflective decoders', 'where': 'decoder_bin.go, decoder_borsh.go, decoder_compact-u16.go'}],
      'A case draws a type and bytes: a valid encoding mutated (flips, cuts, insertions, spliced or huge lengths, non-canonical varints) '
      'or random bytes; verdict, value and consumption are compared with the reference decoder; non-trivial: composite type and more than one byte of input',
      500000, 25000000, 'differential comparison with an independent reference decoder', observe=['Decoder.Decode', 'Decoder.Position']),
    P('C08', 'Decoding untrusted bytes never panics, hangs or exhausts memory',
      "For every supported type and every byte sequence, decoding returns, with a value or an error, and never panics. The "
      "cursor stays within the input, and the memory allocated stays proportional to the input and the type, whatever lengths "
      "and counts the input claims and however deeply it nests a recursive type.",
      ['inputs', 'programs'], 'all supported types, all byte sequences, in the three encodings, and direct calls of the read methods',
      'Tests feed well-formed or slightly truncated data; a crash needs one particular combination of type and hostile length.',
      ALL, [{'name': 'length and remaining checks before allocation', 'where': 'decoder.go ReadLength, ReadByteSlice, readNBytes; decoder_*.go slices and maps'}],
      'A case draws a type (sizeof fields, pointers, custom marshalers included) and hostile bytes (random, mutated, huge or negative '
      'counts) and measures panic, cursor and allocation; non-trivial: composite type and non-empty input',
      500000, 25000000, 'invariants (no panic, cursor in bounds, allocation bound) over hostile generated inputs',
      observe=['Decoder.Decode', 'runtime allocation counters']),
    P('C09', 'A truncated encoding is always refused',
      "For every supported type without trailing extension fields and every value, no strict prefix of the value's encoding "
      "decodes successfully as that type, in any of the three encodings. Truncated data is reported as an error, never returned "
      "as a value that looks complete.",
      ['inputs', 'programs'], 'all values of supported types, all cut points', 'Tests cut a few fixed inputs at one place.',
      ALL, [{'name': 'bounds checks of every read', 'where': 'decoder.go Read*'}],
      GEN + ', encodes it and decodes every strict prefix (at most 120 evenly spread ones); evaluations counts values; non-trivial: encoding longer than one byte',
      60000, 2000000, 'metamorphic relation: every strict prefix of an encoding is refused', observe=['Decoder.Decode']),
    P('C10', 'Decoder reads and cursor movements follow a simple cursor model',
      "Over every history of decoder calls (typed reads, peeks, discards, skips, byte-slice and string reads, positioning, "
      "reset, encoding switches), each call returns what a cursor over an immutable byte sequence would return. A successful "
      "read moves the position by exactly its width, a failed fixed-width or variable-length integer read, a peek or an invalid "
      "positioning moves nothing, and Position + Remaining always equals Len.",
      ['histories', 'inputs'], 'all sequences of decoder operations on all inputs', 'Tests call each method once or twice on a fresh decoder.',
      ['decoder.go', 'compact-u16.go'], [{'name': 'cursor', 'where': 'decoder.go Decoder.pos'}],
      'A case is an input and a history of up to 40 operations checked against a model after each; non-trivial: both successes and failures, or more than three successes',
      400000, 20000000, 'stateful model-based testing against a cursor model', observe=['every exported Decoder method']),
    P('C11', 'Encoder writes append exactly the documented bytes and count them',
      "Over every history of encoder calls in the three encodings, each typed write appends exactly the documented bytes for its "
      "value, byte order and length prefix, and nothing else. The written-byte counter equals the bytes produced after every "
      "call, and a write that is refused leaves neither a wrong count nor half a value behind.",
      ['histories', 'inputs'], 'all sequences of encoder operations with all values', 'Tests call each method a few times with one value.',
      ['encoder.go', 'compact-u16.go'], [{'name': 'toWriter and the counter', 'where': 'encoder.go'}],
      'A case is a history of up to 30 writes, compared with a model buffer after each, and read back; non-trivial: more than one successful write',
      400000, 20000000, 'stateful model-based testing against a model buffer', observe=['every exported Encoder method']),
    P('C12', 'A failing writer is reported, and the output is a prefix',
      "Whatever write the underlying writer fails or cuts short, the encoder reports that failure instead of success, writes "
      "nothing after it, and what reached the writer is a prefix of the full encoding. The written-byte counter equals the number "
      "of bytes that the writer accepted.",
      ['fault_sequences', 'inputs'], 'all values of supported types, every write call and (for small encodings) every byte budget at which the writer can fail',
      'No test uses a writer that fails.', ['encoder.go', 'encoder_bin.go', 'encoder_borsh.go', 'encoder_compact-u16.go', 'interface.go'],
      [{'name': 'error propagation of every write', 'where': 'encoder.go toWriter and its callers'}],
      'For each generated value every write call and byte budgets are failed once, with short writes and with errors; non-trivial: more than one byte and more than one write',
      100000, 4000000, 'fault injection at every write of generated encodings', observe=['Encoder.Encode', 'Encoder.Written', 'io.Writer'],
      level='fault_enumeration', technique='property-based testing with exhaustive fault injection at every write of each generated value',
      note='For every generated value all write calls are failed; values are sampled.'),
    P('C13', 'Byte counts, entry points and encoder state agree',
      "For every value, the byte-count functions, the must-variants, the encoder's written counter and the length of the "
      "marshaled bytes are all equal, and the one-call functions, the constructors and the encoding parameter give the same bytes "
      "and decode to the same values. For a value that cannot be encoded all of them report an error (the must-variants panic).",
      ['inputs', 'programs'], 'all values of all types, encodable or not', 'Tests call the count functions on three values.',
      ['interface.go', 'encoder.go', 'decoder.go', 'tools.go'], [{'name': 'byteCounter', 'where': 'interface.go'}],
      GEN + ', and compares all entry points; non-trivial: composite type and more than one byte',
      60000, 2000000, 'metamorphic relations between entry points', observe=['Marshal*', '*ByteCount', 'Encoder.Written']),
    P('C14', 'compact-u16: one-to-one, canonical, strict',
      "Every length from 0 to 65535 has exactly one compact-u16 encoding of one to three bytes, and every decoding function "
      "recovers it with the number of bytes used. Every other byte sequence (alias encodings, overflow, truncated, a fourth "
      "byte) and every value outside the range is refused, by all encoding and decoding functions alike.",
      ['inputs'], 'all values 0..65535 and all byte sequences of up to three bytes exhaustively; longer sequences and values out of range sampled',
      'Tests cover boundary values and a list of malformed inputs; equivalence of the separate decoders over the whole space is not tested.',
      ['compact-u16.go', 'decoder.go', 'encoder.go'], [{'name': 'codec', 'where': 'compact-u16.go'}],
      'All 65536 values, all inputs of one to three bytes (2^24) over the decoding functions, plus random longer inputs, readers that fail, values out of range; '
      'non-trivial: multi-byte inputs and values out of range',
      200000, 10000000, 'exhaustive enumeration and differential comparison of the codec functions', observe=['EncodeCompactU16Length', 'DecodeCompactU16*', 'Read/WriteCompactU16']),
    P('C15', 'Variable-length integers round-trip and reject malformed input',
      "Every 64-bit signed and unsigned value written as a variable-length integer is read back equal, with exactly the bytes of "
      "the standard encoding, at every width that can hold it; the variable-length integer types do the same inside values. "
      "Truncated and overlong input, and a value that its width cannot hold, is refused without moving the cursor.",
      ['inputs'], 'all 64-bit values, all byte sequences', 'Tests use small values only; the 5- to 10-byte forms are not reached.',
      ['encoder.go', 'decoder.go', 'types.go'], [{'name': 'varint reads and writes', 'where': 'encoder.go WriteUVarInt/WriteVarInt; decoder.go ReadUvarint*/ReadVarint*; types.go'}],
      'Random 64-bit values weighted to the boundaries, a sweep around every power of two, random bytes; non-trivial: a value above 127 or more than one byte',
      400000, 20000000, 'round-trip and differential comparison with encoding/binary', observe=['WriteVarInt', 'WriteUVarInt', 'ReadVarint*', 'ReadUvarint*', 'Varint16/32, Varuint16/32']),
    P('C16', 'Optional fields: presence and value always survive',
      "An optional field is written as a flag of the documented size, followed by the value exactly when it is present (not nil "
      "and not the zero value), and decodes to the same presence and value; an absent one leaves nil or zero. This holds for "
      "every field type (including types with their own marshalers and nested options), and in Borsh also for the 4-byte "
      "C-style option, whose flag must be 0 or 1.",
      ['inputs', 'programs'], 'all field types, present and absent, in all three encodings', 'Tests cover a handful of field types.',
      ALL, [{'name': 'optional handling', 'where': 'encoder_*.go and decoder_*.go is_Optional / is_COptional'}, {'name': 'flags', 'where': 'WriteOption, WriteCOption, ReadOption, ReadCOption'}],
      'Structs of optional and C-optional fields of generated types around marker fields; bytes against the reference, decoding with every kind of flag; non-trivial: more than one byte',
      250000, 10000000, 'differential comparison with the reference codec plus round-trip', observe=['Marshal*', 'Unmarshal*', 'Decoder.ReadOption/ReadCOption']),
    P('C17', 'Borsh enums: the variant byte selects the payload',
      "For every enum type and every variant, the encoding is the variant's position as one byte followed by the encoding of that "
      "variant's payload alone, whatever kind the payload has and whatever the other variants hold. Decoding restores the "
      "variant and its payload, and an index that names no variant is refused on both sides.",
      ['inputs', 'programs'], 'all enum types with all payload types, all variants, all indices, in every nesting position', 'Tests cover three enum types with struct and empty payloads.',
      ['encoder_borsh.go', 'decoder_borsh.go', 'tags-parser.go'], [{'name': 'complex enums', 'where': 'encoder_borsh.go encodeComplexEnumBorsh; decoder_borsh.go deserializeComplexEnum'}],
      'Generated enum types, every index 0..255, nested in containers; non-trivial: more than one variant',
      60000, 2500000, 'differential comparison with the reference codec plus round-trip', observe=['MarshalBorsh', 'UnmarshalBorsh']),
    P('C18', 'sizeof: the counting field governs the slice',
      "A field tagged as the size of a later slice is written as itself, and the slice then has no length prefix and exactly "
      "that many elements; decoding reads as many elements as the decoded count says, for every integer kind of counter and "
      "every element type, in all three encodings. Counts that are negative, larger than the slice on encoding, or larger than "
      "the data on decoding are refused, and fields in between and other slices are unaffected.",
      ['inputs', 'programs'], 'all counter kinds, element types, counts and struct shapes', 'Tests cover two structs.',
      ALL, [{'name': 'sizeof bookkeeping', 'where': 'decoder_*.go / encoder_*.go sizeOfMap'}, {'name': 'count reading', 'where': 'decoder.go sizeof'}],
      'Generated structs with one or more counted slices and fields between; bytes against the reference; corrupted counts; every case is non-trivial',
      200000, 10000000, 'differential comparison with the reference codec', observe=['Marshal*', 'Unmarshal*']),
    P('C19', 'Skipped and unexported fields take no part',
      "Fields that are unexported or tagged as skipped never influence the encoding, whatever they hold, and decoding never "
      "changes them. The remaining fields are encoded as if the struct had been declared without the skipped ones.",
      ['inputs', 'programs'], 'all structs with skipped fields of any type in any position, all values', 'Tests cover one or two structs.',
      ALL, [{'name': 'skip handling', 'where': 'tags-parser.go; encoder_*.go and decoder_*.go struct loops'}],
      'Generated structs with hidden fields (tags -, skip, borsh_skip, unexported, unsupported types) against the same struct without them; non-trivial: at least one hidden field and a non-empty encoding',
      150000, 6000000, 'metamorphic relation: removing or changing skipped fields changes nothing', observe=['Marshal*', 'Unmarshal*']),
    P('C20', 'Trailing extension fields: old data decodes into new structs',
      "A struct whose last fields are marked as binary extensions is always encoded with them, and decodes both complete data "
      "and data that ends before any of them. Missing extensions keep what the destination held, present ones are decoded, and "
      "data that ends in the middle of a field is refused.",
      ['inputs', 'programs'], 'all structs with extension fields, all values, all cut points', 'Tests cover one struct at one cut point.',
      ALL, [{'name': 'extension handling', 'where': 'decoder_*.go struct loops, BinaryExtension'}],
      'Generated structs with trailing extension fields, every cut of the encoding; non-trivial: non-empty encoding',
      100000, 4000000, 'metamorphic relation over all cuts of an encoding', observe=['Unmarshal*', 'Decoder.Decode']),
    P('C21', 'Custom marshalers are used in every position',
      "A type that marshals and unmarshals itself is encoded and decoded by exactly its own methods in every position (top level, "
      "field, optional field, pointer, element of an array, slice or map, enum payload, nested), called exactly once per "
      "occurrence, in all three encodings. An error they return is reported by the enclosing encode or decode.",
      ['inputs', 'programs'], 'all nestings of types with value- or pointer-receiver marshalers', 'Tests cover five fixed structs.',
      ALL, [{'name': 'marshaler dispatch', 'where': 'encoder_*.go; decoder.go indirect; decoder_*.go'}],
      'A type with marshalers of its own (value and pointer receivers, failing ones) wrapped in up to five generated containers; calls and bytes are recorded; non-trivial: nested at least once',
      400000, 20000000, 'call recording and differential comparison with the reference codec', observe=['MarshalWithEncoder', 'UnmarshalWithDecoder'],
      assumptions=['elements of unsigned integer kind are outside the domain: the library writes such sequences in bulk']),
    P('C22', 'Variants decode to the registered type that their id names',
      "For every variant definition (all five id encodings), each registered name has the id that its position or name "
      "determines, and decoding a variant reads that id, yields the registered type with the decoded payload, as a value of "
      "its own that later decodings leave alone, and leaves the cursor after it. Unknown ids and names are refused, and type ids convert to and from their integer and byte forms without "
      "loss.",
      ['inputs', 'histories'], 'all definitions, all sequences of variants through one decoder, all ids', 'Tests cover two definitions with two or three types.',
      ['variant.go', 'decoder.go', 'sighash.go'], [{'name': 'registration and lookup', 'where': 'variant.go NewVariantDefinition, UnmarshalBinaryVariant'}],
      'Generated definitions (up to 1000 types) and streams of variants through one value, plus type id conversions; non-trivial: stream longer than one byte',
      150000, 6000000, 'model-based testing of streams against a reference registry', observe=['NewVariantDefinition', 'UnmarshalBinaryVariant', 'TypeID*']),
    P('C23', '128-bit integers keep their value in every form',
      "Every 128-bit unsigned and signed value keeps its value through the binary form in both byte orders, as a big integer, as "
      "decimal and as hexadecimal text, and through JSON. Text that is no number of that range is refused, and the forms of one "
      "value always agree. A byte order that a number carries itself is kept when the number is set from text.",
      ['inputs'], 'all 128-bit values in both byte orders, all JSON strings', 'Tests cover a few values below 2^64.',
      ['u128.go', 'encoder.go', 'decoder.go', 'utils.go'], [{'name': 'conversions', 'where': 'u128.go'}],
      'Random 128-bit values weighted to boundaries, against math/big; random and malformed JSON; non-trivial: high half not zero',
      400000, 20000000, 'differential comparison with math/big and round-trips', observe=['Uint128, Int128, Float128 methods', 'Read/Write*128']),
    P('C24', 'JSON wrapper types keep their value in JSON',
      "The 64-bit integer wrappers are written as JSON numbers while they fit 32 bits and as strings beyond, and every value of "
      "the integer, float, boolean and hex-bytes wrappers parses back to itself from JSON. Numbers are accepted bare and quoted, "
      "and text that is no such value or out of range is refused.",
      ['inputs'], 'all values, all JSON texts', 'Tests cover a few values on either side of the limit.',
      ['types.go'], [{'name': 'JSON methods', 'where': 'types.go'}],
      'Random values weighted to the limits, bare and quoted numbers, malformed text; every case is non-trivial',
      300000, 15000000, 'round-trip and differential comparison with strconv and encoding/json', observe=['MarshalJSON', 'UnmarshalJSON']),
    P('C25', 'Borsh never accepts NaN',
      "A NaN in any float position of any value, of any bit pattern, makes Borsh encoding fail, and Borsh bytes with a NaN in any "
      "float position fail to decode. Infinities and all other floats are accepted, and the other two encodings carry NaN.",
      ['inputs', 'programs'], 'all NaN bit patterns in all positions of all types', 'Tests cover a bare NaN.',
      ['encoder.go', 'decoder.go', 'encoder_borsh.go', 'decoder_borsh.go', 'types.go'], [{'name': 'NaN checks', 'where': 'WriteFloat32/64, ReadFloat32/64'}],
      'A NaN of some bit pattern as a float, named float or float wrapper, wrapped in up to five containers; non-trivial: nested at least once',
      400000, 20000000, 'invariant over generated positions', observe=['MarshalBorsh', 'UnmarshalBorsh', 'ReadFloat*', 'WriteFloat*']),
    P('C26', 'Anchor names and discriminators are computed as Anchor does',
      "For every name, snake-case and Pascal-case conversion split words as the Rust heck library does (separators, lower-to-upper "
      "changes, acronyms), and the discriminators are the first eight bytes of the SHA-256 of namespace, colon and the converted "
      "name. Converting never panics and is stable: the snake form converts to itself and to the same Pascal form.",
      ['inputs'], 'all strings (names with the Greek capital sigma excluded for snake case)', 'Tests cover about forty names.',
      ['heck.go', 'sighash.go'], [{'name': 'word splitting', 'where': 'heck.go'}, {'name': 'hash', 'where': 'sighash.go'}],
      'All names of up to six characters over nine character classes, plus random names with Unicode and invalid UTF-8; non-trivial: more than one word',
      300000, 15000000, 'exhaustive enumeration of short names and differential comparison with a reference splitter', observe=['ToPascalCase', 'ToRustSnakeCase', 'Sighash*']),
    P('C27', 'Safe strings are always valid UTF-8',
      "Decoding a safe string yields valid UTF-8 for every input: valid text unchanged, and each invalid byte replaced. A plain "
      "string is never altered, the two have the same wire form in each encoding, and the bytes consumed are the same.",
      ['inputs'], 'all byte strings in all positions and encodings', 'Tests cover one string.',
      ['types.go', 'decoder.go'], [{'name': 'SafeReadUTF8String', 'where': 'decoder.go'}],
      'Random, almost valid and invalid UTF-8, nested up to three containers; non-trivial: non-empty string',
      200000, 8000000, 'differential comparison with a reference repair function', observe=['SafeString', 'Decoder.SafeReadUTF8String']),
    P('C28', 'Concurrent encoding and decoding do not interfere',
      "Goroutines that use their own encoders and decoders, and share only types, definitions and values they read, get the same "
      "results as if each ran alone, without data races. This includes the first use of a type, the one-call functions, variant "
      "decoding, name conversion and the hashing helpers.",
      ['schedules', 'histories'], 'all interleavings of any number of goroutines over any operations and shared inputs', 'No test runs two goroutines, and none runs under the race detector.',
      ALL + ['variant.go', 'interface.go', 'heck.go', 'sighash.go', 'logging.go'], [{'name': 'no shared mutable state', 'where': 'package variables'}],
      'A case is a plan of 2 to 7 goroutines over shared inputs, run under the race detector and compared with running alone; every case is non-trivial',
      12000, 400000, 'generated concurrent histories under the race detector, compared with running alone', race=True,
      technique='property-based testing of concurrent histories under the Go race detector',
      note='Schedules are those the Go scheduler produces (with yields); the race detector finds unsynchronised accesses on any schedule that executes both.'),
    P('C29', 'Logging and tracing never change what the library does',
      "Whatever logging and tracing configuration is in force, encoding, decoding, reading, writing and variant decoding give the "
      "same bytes, values, errors and positions, and never panic.",
      ['configurations', 'inputs', 'programs'], 'all operations with tracing on and off', 'The tests run with one configuration and compare nothing.',
      ALL + ['logging.go', 'variant.go'], [{'name': 'trace statements', 'where': 'if traceEnabled in all files; logging.go'}],
      'The choices of a case are recorded and replayed in a second process with tracing enabled; outputs are compared; non-trivial: more than three choices',
      100000, 3000000, 'differential comparison of two processes with and without tracing', trace=True,
      note='A build overlay adds one function that switches tracing on; see DESIGN.md.'),
    P('C30', 'Values, inputs and results do not share or leak state',
      "Encoding never changes the value, decoding never changes the input, and results are independent: changing one encoding or "
      "decoded value (apart from byte slices, which may alias the input) changes no other, and appending to a byte slice "
      "handed out never overwrites the input. Decoding into a used variable gives the same result as into a fresh one, and what "
      "was taken out of it before stays as it was.",
      ['histories', 'inputs', 'programs'], 'all types, values and orders of encoding, decoding and modification', 'Tests look at one result at a time.',
      ALL + ['interface.go'], [{'name': 'fresh allocation of slices and maps', 'where': 'decoder_*.go'}, {'name': 'capped byte slices', 'where': 'decoder.go readNBytes, ReadByteSlice, Peek'}],
      GEN + ', encodes and decodes several times, scribbles over each part and compares deep dumps of all the others; ' + COMP,
      30000, 1200000, 'invariants over histories of encode, decode and modification, with deep snapshots', observe=['Marshal*', 'Unmarshal*', 'Decoder.Read*']),
    P('C31', 'One encoder or decoder for many values behaves like fresh ones',
      "A sequence of values of any types written through one encoder is the concatenation of their separate encodings, and one "
      "decoder reads them back in order, at every position, also after failures, repositioning, switches of encoding and reset. "
      "No state of an earlier value affects a later one.",
      ['histories', 'inputs', 'programs'], 'all sequences of values and types on one coder', 'Tests use one value per coder.',
      ALL, [{'name': 'per-call options', 'where': 'Encoder.Encode, Decoder.Decode; currentFieldOpt; Reset'}],
      'A case is a sequence of generated values of different types through one encoder and one decoder (reused, reset, switched, failing in between); every case is non-trivial',
      30000, 1200000, 'metamorphic relation: one coder against a fresh coder for each value', observe=['Encoder.Encode', 'Decoder.Decode', 'Decoder.Reset', 'Decoder.SetEncoding']),
    P('C32', 'Unsupported types and invalid targets are errors, not silence',
      "A value that contains a type with no wire form (platform-sized integers, complex numbers, channels, functions) anywhere "
      "it would be encoded is refused with an error by every encoder, and decoding into it is refused as well, without a panic. "
      "Decoding into nil, a nil pointer or a non-pointer reports the invalid-target error and reads nothing.",
      ['inputs', 'programs'], 'all positions of unsupported types, all invalid targets', 'Tests cover one unsupported type at top level.',
      ALL + ['error.go'], [{'name': 'default branches', 'where': 'encoder_*.go, decoder_*.go'}, {'name': 'InvalidDecoderError', 'where': 'error.go'}],
      'An unsupported leaf in up to five generated containers, and every kind of invalid target; non-trivial: nested at least once',
      300000, 15000000, 'invariant over generated positions', observe=['Marshal*', 'Unmarshal*', '*ByteCount']),
    P('C33', 'Diagnostic helpers report exactly what was written',
      "The write recorder keeps every write in order, as it was at that time, and returns their concatenation and a listing of "
      "each; looking at it changes nothing. Formatting, byte reversal and byte-slice detection are exact for every input.",
      ['inputs', 'histories'], 'all histories of writes and inspections', 'Tests cover one formatting call.',
      ['tools.go', 'u128.go'], [{'name': 'recorder', 'where': 'tools.go WriteByWrite'}],
      'A history of writes (from a reused buffer), encodings and inspections against a model; non-trivial: more than one write',
      400000, 20000000, 'stateful model-based testing', observe=['WriteByWrite', 'FormatByteSlice', 'FormatDiscriminator', 'ReverseBytes', 'IsByteSlice']),
    P('C34', 'Byte-order tags govern exactly their field',
      "In the Bin and CompactU16 encodings a field tagged big is written and read in big-endian order, also through pointers, "
      "options and the library's 64- and 128-bit number types, and every other field stays little-endian, whatever precedes or "
      "follows it. In Borsh numbers of the basic types are little-endian regardless of tags.",
      ['inputs', 'programs'], 'all structs mixing byte orders, nested and in sequences', 'Tests cover one struct.',
      ALL + ['types.go', 'u128.go'], [{'name': 'order option', 'where': 'tags-parser.go, tags-options.go currentOrder, encoder_*.go, decoder_*.go'}],
      'Generated structs that mix big, little and untagged fields of every numeric kind; bytes against the reference and round-trip; non-trivial: at least one big field',
      400000, 20000000, 'differential comparison with the reference codec', observe=['Marshal*', 'Unmarshal*'],
      assumptions=['elements of a slice or array field are little-endian even if the field is tagged big, and library number types in a Borsh field tagged big are outside the domain']),
    P('C35', 'Encodings compose from their parts',
      "A struct encodes as the concatenation of its fields encoded alone, an array as the concatenation of its elements, a slice "
      "or map as its length followed by its elements or entries, and a pointer as what it points to, in all three encodings. So "
      "the bytes of a part never depend on its position or its neighbours.",
      ['inputs', 'programs'], 'all structs, sequences and maps', 'Tests fix whole encodings of a few structs.',
      ALL, [{'name': 'recursion of the encoders', 'where': 'encoder_*.go'}],
      'A generated composite value against the separate encodings of its parts; non-trivial: more than one field or element',
      300000, 12000000, 'metamorphic relation between the encoding of a whole and of its parts', observe=['Marshal*']),
]

PLAN = {p['id']: p for p in PROPS}
