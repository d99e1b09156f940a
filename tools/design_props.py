"""How each property is decided (the per-property part of DESIGN.md)."""
HOW = {
'B01': 'For every field width, sign and byte order a one-field class is packed with a symbolic value ranging over at least 8 times what the field holds, on both sides of zero.  Oracle: packing succeeds iff the value is representable, and unpacking gives the same symbolic value back.  Also elements of lists, all shorthand factories, and two fields next to each other.',
'B02': 'Oracle: byte k of the packed field is the k-th byte of the two\'s complement of the value (shift and mask on the input variable), in the declared order; and the converse for arbitrary symbolic bytes.  All 1..8 byte widths, all factories, list elements, several fields at once.',
'B03': 'Oracle: an independent bit map computed from the declaration (list of absolute bit positions); for each bit z3 decides equality of value bit and buffer bit, and that all other bits are 0 (pack) or irrelevant (unpack: two inputs equal on the positions give equal values).  Positions given by fields and references included. `anywhere`: every single bit and every slice of bits of a list of byte ranges.',
'B04': 'Kit of fixed layouts (`props/layouts.py`): oracle is the concatenation of each field\'s own encoding at its positions, zero elsewhere; second obligation changes one field to another symbolic value and asserts that only its bits change.  Renamings change the processing order. `fits`: content of every length from none to two bytes too much, of four kinds, in seven kinds of place bracketed by neighbours packed before or after it.',
'B05': 'Kit of fully covering layouts: `pack(unpack(b)) == b` for a completely symbolic byte string b, byte by byte. `moving`: fields of several ranges whose positions depend on the content, some ranges empty for some contents.',
'B06': 'Kit of layouts whose positions depend on other values (`props/dynamic.py`, 28 shapes): pack an object with symbolic content and symbolic lengths, append symbolic junk, unpack, compare every field; `parse` starts from bytes instead of an object. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`). `opened`/`limited`: counted lists and open ranges anywhere among the ranges of a field, in any order, and what follows them. `limited`: counted lists over several ranges in any order: what follows them is read from where packing puts it. `kinds` (`props/anykind.py`): every one of 14 kinds of field in two places (`where_when_pack`/`where_when_unpack`) and after another field.',
'B07': 'Three numbers are compared on the same kits: `len(pack())`, `calc_byte_size()`, and what `unpack` reports, with and without trailing junk; plus static `byte_size` against the declaration, declared sizes (padding, refusal), conditional, inherited, overlapping and text fields. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`).',
'B08': 'Each field kind at each offset; input length is a symbolic choice from 0 to needed+2, all bytes symbolic.  Oracle: refusal with InstructBufferError naming class and field iff the input ends before the field\'s last byte. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`). `open-ended`: the input must reach the place where a field of open length starts.',
'B09': 'Conditions are references over symbolic fields, so both outcomes are explored on the same layout.  Oracle: presence iff the same Python condition holds on the values; absent fields None, not counted, bytes as if undeclared. Fields with defaults (given, defaulted, None) included. `differ`: different conditions for packing and unpacking, with the sizes each side computes. `absent-open`: conditional fields of open length, also over two ranges, and what follows them. `kinds` (`props/anykind.py`): every one of 14 kinds of field under its own conditions.',
'B10': 'Lists of symbolic elements for every element kind; counts fixed, computed, open, split in several ranges.  Oracle: concatenation of element encodings; on unpacking, the elements decoded separately from their own slices. Elements of 1, 2, 4, 6 and 12 bits, and nested buffers that end inside a byte.',
'B11': 'Text with symbolic characters and symbolic length; oracle is str/bytes ljust/rjust/center and strip written out in the harness over the symbolic elements, with the round trip asserted under "does not begin/end with padding or strip characters". `other-values`: values that are not text are written as their text.',
'B12': 'Nested objects are packed alone and in place, and parsed alone and in place, and the results compared; selectors over a symbolic tag; three levels; lists of selected objects; replaced nested objects. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`). Selected classes of size 0, and selectors that give None or falsy objects. `kinds` (`props/anykind.py`): every one of 14 kinds of field inside a nested buffer. `chain`/`tree`: buffers that hold buffers of their own class, against a parser in the harness.',
'B13': 'The same fields declared in one class and distributed over chains, two bases, siblings and empty subclasses; oracle: the flat class. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`). `mixins`: fields declared in plain classes and shared by several buffers; `sized`: declared sizes of base classes.',
'B14': 'All expression shapes up to two operators are built twice, as reference expressions and as Python functions of the values; compared for all values of the fields on pack and unpack (and both raise or both do not: division by zero).  A counting function proves "evaluated once".  Reference graphs of up to 4 nodes: error iff the graph has a cycle (decided by the harness\'s own search), shared references are not errors. `once-whatever`: a function is called once also when it returns None, 0 or something empty. `fractions`: numeric references to fractions.',
'B15': 'Metamorphic: operations repeated, in all orders, on one and on two instances with independent symbolic contents; results and inputs compared before and after; default values mutated in place; fields that hold the whole input, in six forms. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`). `nested-defaults`: lists, dictionaries and buffers inside default values are changed through one instance. `kinds` (`props/anykind.py`): every one of 14 kinds of field with a default, on two instances.',
'B16': 'Oracle: a list of bit terms; every slice/index/iteration/conversion result is compared bit by bit with the list.  Bounds are enumerated exhaustively (they are concrete eighths), contents are symbolic. `indexes`: every index including those out of range; `searches`: `in`, index, count, reversed against the list of bits.',
'B17': 'Oracle: the same edit on the list of bit terms (insert, delete, replace), compared bit by bit including length; histories of several edits; bits outside (spare buffer bits) unobservable. `itself`: the value assigned, inserted, added or appended is the array itself or a view of it.',
'B18': 'Ranges with symbolic bounds (multiples of 1/8, up to 512 bits) and a symbolic probe point: overlap, containment, length, maximum, closing, offset mapping, container search and sorting agree with membership of the probe point / sums of lengths; declarations with overlapping ranges are refused.',
'B19': 'Symbolic 32- and 64-bit patterns: pack(unpack(bits)) equals bits unless NaN; NaN stays NaN; a double given to a 4-byte field is compared with the rounding specification; overflow refused; integers exactly representable.',
'B20': 'Hooks as constants, functions and references over symbolic objects; oracle: the hook\'s Python function applied to the symbolic inputs, in the bytes, on the object and in whoever refers to the field. `falsy`: hooks that give zero or something empty. `kinds` (`props/anykind.py`): every one of 14 kinds of field with both hooks.',
'B21': 'Completely symbolic inputs of every length up to the bound on layouts of every kind: the only outcomes allowed are a decoded object or InstructBufferError naming class and an existing field, within 30000 calls and loop iterations; packing with every field in turn given unsuitable values; `exact` asserts which field is blamed.',
'B22': 'The same layout under every permutation of field names (hence every processing order) and distribution over base class and derived class, and with references given directly, by name or through methods: same bytes, same values. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`). Names that are prefixes or suffixes of each other and names like those of field attributes. `class-names`: classes named like the base classes of the library. `kinds` (`props/anykind.py`): every one of 14 kinds of field next to a field of the same kind. `declared-again`: derived classes of up to three levels that declare a field again.',
'B23': 'The adapter against the buffer itself: bytes written to a stream holding other bytes, exactly byte_size read, following bytes left, inside structs and arrays; short and unsized refused.',
'B24': 'Documents are symbolic (integers, text, lists, objects); oracle is the JSON grammar model in `props/jsonmodel.py` (compared with the real json module on every replay and validation), padding with spaces, refusal of non-JSON bytes.',
'S01': 'Each of the 24 integer types (and the 6 float types, any bit pattern) with a symbolic integer of 72 bits: refused by a library error with nothing written, or written as the shifted/masked bytes; converse for arbitrary bytes; streams positioned anywhere; fields, array elements, standalone serializers.',
'S02': 'The 22-struct kit (`props/structs.py`), every value symbolic: oracle is an encoder written in the harness from the declarations; written bytes, restored fields, reported size; pairs of cases composed; derived structs. `arranged`: generated structs, any kind of field next to any other (`props/compose.py`). `named`: structs named like the base class of the library; `shared`: field objects used by several structs.',
'S03': '`min <= len(write) <= max` and fixed-size implies equality, for symbolic values of all kinds; MinMax arithmetic on symbolic 67-bit bounds against saturating interval addition; group bounds; elements of any size within symbolic bounds; longest representable instance. `arranged`: generated structs, any kind of field next to any other (`props/compose.py`).',
'S04': 'Streams with symbolic bytes before and after, several reads in a row of equal or different types, streams without tell; oracle: position and remaining bytes. `arranged`: generated structs, any kind of field next to any other (`props/compose.py`). `from-array`: bytes given as array.array.',
'S05': 'Bit-by-bit map of sequential groups: every bit of the output equals the bit of the right value (masked), every read field equals the right input bits; all two-field and three-field width combinations up to the bound; negative and oversize values; the bit stream itself (writes/reads/seeks).',
'S06': 'Same for positional groups with slices; pieces in any order; unnamed bits zero/ignored; declared sizes. Slices wider than 8 bits followed by others.',
'S07': 'Kept lists and prefixes compared with an encoder in the harness; counts not matching refused; prefix overflows at the type\'s limits; parse of arbitrary bytes. `negative`: signed counts and byte sizes; `sizeless`: elements that take no bytes, also chosen by peeking at symbolic content; termination is decided by a step budget and confirmed by running the real code with a time limit. `pointed-to`: counts and sizes taken from 9 kinds of attribute (fields, fields of another struct, list items, properties).',
'S08': 'Contents symbolic including padding characters; oracle writes out padding and stripping; prefixes at their limits; reading of arbitrary encoded bytes. `negative`: signed lengths, in prefixes and other fields.',
'S09': 'Constants of every kind; symbolic values assigned or given; symbolic bytes read: accepted iff equal to the constant\'s encoding meaning (floats by value), else InstructError; inside lazy groups at first use.',
'S10': 'Predicates over symbolic earlier fields and the stream; read iff predicate, written iff a value, sizes; chains where the presence of one decides another.',
'S11': 'Twin structs, one with fields wrapped in Lazy: every history of 3 (thorough 4) operations (read a field, assign a field, write, size) in every order on both; all observations compared. Groups inside groups included.',
'S12': 'Function and key selectors with symbolic keys and symbolic peek sizes over symbolic streams; a recording function proves what was peeked; refusal of unread look-ahead; nested selectors. `chain`/`tree`: structs that hold structs of their own class.',
'S13': 'Symbolic key and code against symbolic-free mapping tables of several kinds: translation, errors for unmapped on both sides, duplicates refused at declaration. `declared`: keys that are falsy.',
'S14': 'Which fields are given is a symbolic choice (every subset), values symbolic incl. None; constructors of 6 kinds, up to three levels of inheritance; instances mutated after construction and compared with untouched ones and the class. `every-macro`: the default of each of 22 declaration macros.',
'S15': 'Every struct of the kit with the encoding cut at every position: an error is required; streams that return short reads; content symbolic. `arranged`: generated structs, any kind of field next to any other (`props/compose.py`).',
'S16': 'Text mode: the representation is text with holes (uninterpreted renderings of symbolic values); asserted to contain name and value of each field, any state (unset, lazy unread, after assignment), contexts with int formats; must not raise. `arranged`: generated structs, any kind of field next to any other (`props/compose.py`). `formats`: the representation format reaches every kind of field.',
'B25': 'The kit of 28 dynamic layouts: an object with other values and an unsuitable value in one field (symbolic choice) is packed or sized, or an instance unpacked from a cut or arbitrary symbolic input; afterwards the object with the right values, other objects and new ones are compared with the reference encoding. User functions in 8 places raise when a symbolic byte equals another. `arranged`: generated buffers, any kind of part after any other (`props/composeb.py`).',
'S17': 'The same for the 24 structs (write, size, text, read); lazy groups of five shapes over completely symbolic bytes: every sequence of 2 (thorough 3) uses fails exactly when the bytes are wrong, every time. User functions in 5 places raise when a symbolic byte equals another. `arranged`: generated structs, any kind of field next to any other (`props/compose.py`).',
'S18': 'A serializer that encodes with a symbolic byte from the context is put in 18 places (elements, prefixes, codes, keys, constants, lazy, optional, selected, nested); the bytes written are compared with the encoding under the key that should have reached it, for contexts given, declared, inherited, around and next to each other. Recording functions check which context and struct they got; constructor arguments are symbolic and compared on every constructed object.',
}
