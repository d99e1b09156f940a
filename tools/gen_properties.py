#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table here, then re-run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/infi/instruct/" + f for f in files],
                               mechanism=[dict(name=n, where="src/infi/instruct/" + w) for n, w in mech],
                               state=state or [], observe_at=observe)))

# ------------------------------------------------------------------ buffer
p("B01", "Buffer integer fields round-trip or refuse the value",
  "For every integer field of a buffer object, whatever its width (single bits up to 8 bytes), signedness and byte order, "
  "packing a value the field can represent and unpacking the resulting bytes gives back exactly that value. "
  "Widths of 1, 2, 4 and 8 whole bytes represent the signed or unsigned range they declare; every other width represents the "
  "unsigned range of its bits. A value outside the representable range makes packing raise an error; it is never stored as another number.",
  ["inputs", "configurations"], "all integer values (in and out of range), all widths in bits, signs, byte orders, placements",
  "The tests pack a handful of constants per width; the value space (2^64) and the wrap/reject boundary of each width are not sampled, and negative values or 3/5/6/7-byte fields never appear.",
  ["buffer/serialize.py", "buffer/io_buffer.py", "buffer/macros.py"],
  [("pack_int / unpack_int dispatch on width", "buffer/serialize.py"), ("BitAwareByteArray int assignment range check", "buffer/io_buffer.py"), ("OutputBuffer.set", "buffer/io_buffer.py")],
  ["Buffer.pack()", "Buffer.unpack()", "attribute values"])
p("B02", "Buffer numeric fields use the declared byte order and encoding",
  "A whole-byte integer field occupies exactly its declared bytes with the declared byte order (most significant byte first for big endian, last for little endian, "
  "host order for native and unspecified) and two's complement for signed widths, both when packing and when unpacking arbitrary bytes.",
  ["inputs", "configurations"], "all byte contents and values for every width 1..8 bytes, sign and byte order, at any offset",
  "Tests compare a few literal byte strings; palindromic or zero-padded values hide swapped bytes and sign errors.",
  ["buffer/serialize.py", "buffer/macros.py"],
  [("ENDIAN_NAME_TO_FORMAT / struct format selection", "buffer/serialize.py"), ("int_marshal tables", "buffer/macros.py")],
  ["packed bytes", "unpacked attribute values"])
p("B03", "Bit-positioned fields occupy exactly the declared bits, LSB first",
  "For an integer field declared over one or several bit or byte ranges (whose total is not a whole number of bytes, or is and the field is little endian), bit i of its value is stored at the i-th bit of the declared ranges taken in "
  "declaration order, bits being numbered from the least significant bit of each byte upward; packing sets those bits and unpacking arbitrary bytes reads exactly those bits.",
  ["inputs", "configurations"], "all values, all surrounding bytes, single/multiple/descending/adjacent ranges, ranges crossing byte boundaries, numeric and sliced bit indexes",
  "Tests cover a few fixed layouts with constants; a mistake that only shows when a range crosses a byte, starts mid-byte in a second part, or when neighbours are non-zero is not sampled.",
  ["buffer/reference/range.py", "buffer/io_buffer.py", "buffer/serialize.py"],
  [("BitSliceRangeReference / BitNumericRangeReference", "buffer/reference/range.py"), ("InputBuffer.get, OutputBuffer.set", "buffer/io_buffer.py")],
  ["packed bytes", "unpacked attribute values"])
p("B04", "Non-overlapping buffer fields do not disturb each other",
  "When the declared positions of a buffer's fields do not overlap, changing one field's value changes only the bytes and bits inside that field's position, whatever the other values are and in whichever order fields are declared or placed, "
  "and every bit of the packed result that belongs to no field is zero.",
  ["inputs", "configurations"], "all pairs of values for every field in mixed int/bit/string/bytearray/list/float layouts with gaps, in any placement order",
  "Needs two-run comparison over all value pairs; tests pack one value combination per layout.",
  ["buffer/buffer.py", "buffer/io_buffer.py"],
  [("OutputBuffer.set zfill + slice assignment", "buffer/io_buffer.py"), ("Buffer.pack", "buffer/buffer.py")],
  ["packed bytes"])
p("B05", "Unpacking then packing a fully covered buffer reproduces the bytes",
  "For a layout whose fields cover every bit of the object exactly once, unpacking any byte string of the right length and packing the object again gives the identical byte string, also when the places move with the content and some of them are empty.",
  ["inputs", "configurations"], "all byte strings of the layout's length, for layouts mixing byte fields, bit fields, multi-part fields, raw bytes, lists and nested buffers",
  "Tests do this for one or two recorded packets only.",
  ["buffer/buffer.py", "buffer/io_buffer.py", "buffer/serialize.py"],
  [("Buffer.unpack / Buffer.pack", "buffer/buffer.py")], ["packed bytes"])
p("B06", "Length-prefixed and following fields round-trip",
  "For layouts whose field positions depend on the value of another field, on the end of another field, on the total size or on arithmetic over these, packing an object and unpacking the bytes restores every field, "
  "and bytes following the packed object do not change what is restored when all lengths are determined by the object itself.",
  ["inputs", "configurations"], "all payload contents and lengths within the bound, any trailing bytes, chained variable fields",
  "Tests use one or two fixed lengths; off-by-one in offset arithmetic for empty payloads, trailing data or chained fields is not sampled.",
  ["buffer/reference/after_field.py", "buffer/reference/total_size.py", "buffer/field_reference_builder.py", "buffer/reference/range.py"],
  [("AfterFieldReference", "buffer/reference/after_field.py"), ("Pack/UnpackAbsolutePositionReference", "buffer/field_reference_builder.py")],
  ["Buffer.pack()", "Buffer.unpack()"])
p("B07", "Packed length, computed size and consumed size agree",
  "The number of bytes an object packs to equals the size the object computes for itself (rounded up to whole bytes), and unpacking those bytes, alone or followed by any further bytes, reports that it consumed exactly that many; "
  "a class with a fixed layout reports that same number as its static size, and a declared static size pads the packed result with zeros up to it or refuses to pack when the content is larger.",
  ["inputs", "configurations"], "all field values, payload lengths and trailing data, static and dynamic layouts, declared sizes",
  "Three code paths compute the size independently; tests check one value for each.",
  ["buffer/buffer.py", "buffer/reference/total_size.py", "buffer/range.py"],
  [("TotalSizeReference", "buffer/reference/total_size.py"), ("BufferType.calc_byte_size", "buffer/buffer.py")],
  ["Buffer.pack()", "Buffer.unpack() return value", "calc_byte_size()", "byte_size"])
p("B08", "Buffers refuse input too short for their numeric and text fields",
  "Unpacking a byte string that ends before the last byte of an integer, bit, float or text field, whether its position is fixed or depends on other fields, raises an error naming the class and field instead of returning a value made from fewer bytes; so does input that ends before the place where a field of open length starts, "
  "and input that is long enough is never refused.",
  ["inputs", "configurations"], "every input length from empty to full and every content, for every field kind and width",
  "Tests have a single short-input case for one width.",
  ["buffer/serialize.py", "buffer/io_buffer.py"],
  [("unpack_struct_int / unpack_bit_int / unpack_str length checks", "buffer/serialize.py")], ["Buffer.unpack()"])
p("B09", "Conditional buffer fields appear exactly when their condition holds",
  "A field with a packing condition contributes its bytes exactly when the condition is true for the object being packed and otherwise leaves them as if undeclared; a field with an unpacking condition is read exactly when the condition is "
  "true for the values being unpacked and is None otherwise; in a class without a static size an absent field is not counted in the packed or consumed size, and takes nothing of an open range, so what follows it starts where it would.",
  ["inputs", "configurations"], "all values of the controlling fields, conditions on fields, constants and expressions, present/absent combinations",
  "No test exercises packing or unpacking conditions at all.",
  ["buffer/buffer.py", "buffer/reference/total_size.py", "buffer/field_reference_builder.py"],
  [("pack_if / unpack_if handling", "buffer/buffer.py"), ("total size of conditional fields", "buffer/reference/total_size.py")],
  ["packed bytes", "attribute values", "consumed size"])
p("B10", "Buffer list fields keep order, count and element boundaries",
  "Packing a list field writes its elements back to back in order; unpacking yields the elements in the same order, stopping at the declared count or at the end of the field's bytes, each element being decoded from exactly its own bytes.",
  ["inputs", "configurations"], "all element values, list lengths within the bound, fixed and reference counts, integer, text, bit-sized and nested-buffer elements",
  "Tests use constant lists; boundary between elements and count/size interaction are not varied.",
  ["buffer/serialize.py", "buffer/macros.py"],
  [("pack_list / unpack_list", "buffer/serialize.py")], ["packed bytes", "unpacked lists"])
p("B11", "Buffer text fields pad, justify and strip consistently",
  "A text field packs its encoded text padded to the field's size on the side opposite its justification (both sides when centered), and unpacking returns the field's text without, at its padded ends, first the strip characters and then the padding, and with everything else kept; text that has no padding or strip characters at its padded ends round-trips exactly, "
  "and text longer than the field never changes bytes outside the field.",
  ["inputs", "configurations"], "all texts of every length up to beyond the field size, each justification, several padding and strip characters and encodings",
  "Tests only use left-justified ASCII constants.",
  ["buffer/serialize.py", "buffer/macros.py"],
  [("pack_str / unpack_str", "buffer/serialize.py")], ["packed bytes", "unpacked text"])
p("B12", "Nested buffers and selected types are packed and parsed in place",
  "A nested buffer field packs to exactly the bytes its own object packs to, placed at the field's position, and unpacks to an object equal to one unpacked from those bytes alone; with a selector, the type chosen from the already parsed values decides the parse, a selector returning an object and size is used as is, and returning nothing yields None.",
  ["inputs", "configurations"], "all nested values, positions, selector outcomes, fixed and variable size nested types, lists of selected types",
  "Tests nest one or two fixed packets.",
  ["buffer/serialize.py", "buffer/macros.py"],
  [("pack_buffer / unpack_buffer / unpack_selector_decorator", "buffer/macros.py")], ["packed bytes", "nested attribute values"])
p("B13", "Inherited buffer fields behave as if declared together",
  "A buffer class that inherits fields packs, unpacks, sizes and initialises exactly like a single class declaring the same (distinctly named) fields itself, whichever class declares the lower positions, also if some of the classes are not buffers, and even if the subclass adds no field, in which case a declared size is kept as well.",
  ["inputs", "configurations"], "all field values, hierarchies of one to three levels with fields split in every way",
  "Tests have one inheritance layout in which the subclass owns the highest position.",
  ["buffer/buffer.py"], [("BufferType.__new__", "buffer/buffer.py"), ("Buffer._all_fields", "buffer/buffer.py")],
  ["Buffer.pack()", "Buffer.unpack()", "byte_size"])
p("B14", "References evaluate to the arithmetic they denote, once, and cycles are errors",
  "An expression built from field references and numbers with + - * / // unary minus, comparison, min, max, length and calls evaluates, for every value of the fields, to what the same Python expression gives on the values; within one pack or unpack each reference is evaluated at most once and every use sees the same result; "
  "a reference that depends on itself is reported as an error rather than recursing, while repeated or shared non-cyclic references are not.",
  ["inputs", "programs"], "all field values, all expression shapes up to the stated depth with operands on either side",
  "Tests evaluate a few constant expressions; operand order for reflected operators and evaluation counts are not covered.",
  ["buffer/reference/reference.py", "buffer/reference/func_call.py", "buffer/reference/builtins.py", "buffer/reference/field_or_attr.py"],
  [("Reference.deref caching and cycle detection", "buffer/reference/reference.py"), ("NumericBinaryExpression", "buffer/reference/reference.py")],
  ["packed and unpacked results", "call counts", "raised errors"],
  state=[dict(name="cached_results", meaning="per-operation memo of reference values", where="src/infi/instruct/buffer/reference/reference.py")])
p("B15", "Buffer operations are repeatable and instances are independent",
  "Packing twice gives the same bytes and changes no field that is not computed by a pre-pack hook; unpacking depends only on the given bytes and not on what the object held or unpacked before; two instances, their default values and what is inside those included, never influence each other, and neither the input bytes nor previously returned results change afterwards.",
  ["histories", "inputs"], "sequences of set/pack/unpack operations over two instances with arbitrary values, lengths and conditions",
  "Tests use each object once; stale state between operations needs a history.",
  ["buffer/buffer.py", "buffer/reference/contexts.py", "buffer/io_buffer.py", "buffer/serialize.py"],
  [("fresh PackContext/UnpackContext per call", "buffer/buffer.py"), ("defaults copied per instance", "buffer/buffer.py")],
  ["packed bytes", "attribute values", "input buffer"])
p("B16", "Bit views read the same bits as the underlying bytes",
  "Reading a bit view, by an index within it (an index at or after the end is an IndexError), by searching, counting and reversing, by slice without a step (including fractional, negative, open and out-of-range bounds), by iteration, by conversion to bytes or to a bit string, and through slices of slices, yields exactly the corresponding bits of the underlying bytes in order, with lengths that match the bounds.",
  ["inputs", "configurations"], "all byte contents, all start/stop offsets in eighths within the bound, nested slicing to depth two",
  "Tests check a few offsets on constant bytes.",
  ["buffer/io_buffer.py"], [("BitView", "buffer/io_buffer.py")], ["BitView public operations"])
p("B17", "Bit array edits equal the same edits on a list of bits",
  "Assigning, deleting, inserting, appending, extending, adding and zero-filling a bit array at any fractional offsets has exactly the effect of the same operation on the plain sequence of bits: the addressed bits are replaced, later bits shift by the length difference and no other bit changes; the value may be the array itself or a view of it.",
  ["inputs", "histories"], "all contents, all offsets and lengths in eighths within the bound, replacement shorter/equal/longer, integers and views as sources, two-step edit sequences",
  "Tests use a few constant edits; bits shifted across byte boundaries with carry are the rare cases.",
  ["buffer/io_buffer.py"], [("BitAwareByteArray._set_range/_del_range/_insert_zeros", "buffer/io_buffer.py")], ["BitAwareByteArray public operations"])
p("B18", "Range arithmetic agrees with sets of bit positions",
  "For every list of ranges with fractional bounds, the reported overlap, containment, total length, highest position (empty ranges count where they end), closing of open ranges and mapping of a length to an absolute offset agree with the sets of bit positions the ranges stand for, regardless of the order of the ranges; a field whose own ranges overlap is refused.",
  ["inputs", "configurations"], "all ranges with bounds in eighths within the bound, lists of up to four ranges in any order, empty and open ranges",
  "Tests check a few pairs; order dependence and empty ranges are not covered.",
  ["buffer/range.py", "buffer/field_reference_builder.py"], [("SequentialRange / SequentialRangeList", "buffer/range.py")], ["range objects", "Buffer class creation / pack / unpack errors"])
p("B19", "Float fields preserve values exactly at their precision",
  "A 4- or 8-byte float field, of a buffer or of a struct, stores the IEEE-754 encoding of its value in the declared byte order: every single (double) precision bit pattern that is not a NaN unpacks and packs to itself, any double survives an 8-byte field unchanged, and NaNs stay NaNs.",
  ["inputs", "configurations"], "all 2^32 / 2^64 bit patterns, byte orders, widths",
  "Tests use one exactly representable value in one width.",
  ["buffer/serialize.py", "numeric.py"], [("pack_float / unpack_float", "buffer/serialize.py"), ("NumericMarshal", "numeric.py")], ["packed bytes", "unpacked values"])
p("B20", "Pre-pack and post-unpack hooks supply the value used and stored",
  "A field with a pre-pack value (a constant, function of the object, or reference) packs that value and leaves it on the object, and other fields referring to it see it; a field with a post-unpack function holds, after unpacking, the function's result for the decoded value.",
  ["inputs", "configurations"], "all decoded/assigned values, hooks given as constants, functions and references, hooks feeding positions of other fields",
  "Post-unpack functions are never exercised by the tests; pre-pack ones only with constants.",
  ["buffer/field_reference_builder.py", "buffer/reference/builtins.py"], [("set_before_pack / set_after_unpack wiring", "buffer/field_reference_builder.py"), ("AssignAttrReference", "buffer/reference/builtins.py")], ["packed bytes", "attribute values"])
p("B21", "Any input ends in a decoded object or a named error",
  "For every byte string, unpacking a buffer terminates and either succeeds or raises the library's buffer error naming the class and the field that failed; likewise packing an unsuitable value raises that error naming the field; no other exception type escapes (apart from content larger than a hand-declared byte size, which belongs to no single field) and no input makes it loop forever.",
  ["inputs", "configurations"], "all byte strings up to the bound, including inconsistent length fields, for variable-size, list, selector, text and conditional layouts",
  "Malformed inputs are the large space tests do not enumerate; one or two cases exist.",
  ["buffer/buffer.py", "buffer/serialize.py"], [("InstructBufferError wrapping", "buffer/buffer.py"), ("unpack_list loop", "buffer/serialize.py")], ["exceptions from pack()/unpack()"])
p("B22", "Declaration order and cross references do not change the result",
  "Fields may refer to fields declared before or after them, or to attributes and methods of the object by name; the packed bytes and unpacked values depend only on the declared positions and values, not on field or class names or on the order in which fields happen to be processed. A field that a derived class declares again replaces the inherited one, everywhere it is referred to.",
  ["inputs", "configurations"], "all values for layouts renamed/reordered in every way, forward and backward references, explicit unpack-after ordering",
  "Tests have one naming for each layout, so processing order is always the same.",
  ["buffer/buffer.py", "buffer/reference/field_or_attr.py", "buffer/reference/field.py"], [("lazy dereferencing of field references", "buffer/reference/field.py")], ["packed bytes", "attribute values"])
p("B23", "The struct adapter of a buffer type is transparent",
  "A buffer type wrapped for use inside structs writes exactly the bytes the buffer packs to, reads exactly its fixed size from the stream (leaving following bytes for the next field), reports that size, and refuses to read a type with no fixed size.",
  ["inputs", "configurations"], "all field values, all trailing stream contents, single and repeated reads",
  "Tests convert one object.",
  ["buffer/compat.py"], [("StructTypeAdapter", "buffer/compat.py")], ["stream contents and position", "attribute values"])
p("B24", "JSON fields carry their document unchanged",
  "A JSON field packs the JSON text of a value whose text fits the field, followed only by spaces up to the field's size, and unpacking such bytes, with any amount of space padding, gives back an equal value; text that is not JSON is an error.",
  ["inputs", "configurations"], "documents within the stated model of the JSON codec, all paddings and positions",
  "Tests check one dictionary in one position.",
  ["buffer/serialize.py", "buffer/macros.py"], [("pack_json / unpack_json", "buffer/serialize.py")], ["packed bytes", "unpacked values"])

p("B25", "A failed buffer operation leaves no trace",
  "After packing, unpacking or sizing a buffer failed, whether because of an unsuitable value, a short or invalid input, a function of the user that raised or an inner buffer, every later operation on the same object (once its values are set right or with valid input), on other objects, and on the class gives exactly what it would have given had the failed one never happened; the failed operation changes neither its input nor values that were set, and fails the same way when repeated.",
  ["inputs", "histories", "fault_sequences"], "all values and inputs that make an operation fail, at every field and every cut, followed by successful operations on the same and other objects",
  "Tests that check an error never use the object or the class again afterwards.",
  ["buffer/buffer.py", "buffer/reference/reference.py", "buffer/reference/contexts.py", "buffer/field_reference_builder.py"],
  [("state of one operation kept in its context", "buffer/reference/contexts.py"), ("Reference.deref cycle and result bookkeeping", "buffer/reference/reference.py")], ["packed bytes", "unpacked values", "errors"])

# ------------------------------------------------------------------ struct
p("S01", "Struct numeric types encode exactly and refuse out-of-range values",
  "Each struct integer type writes its value in exactly its width, byte order and two's complement or unsigned form, reads any bytes back to the value they denote, round-trips every representable value, and refuses any other value with a library error without writing anything. Each struct float type likewise writes the IEEE 754 form of its width in its byte order and reads every number back exactly, zeros with their sign.",
  ["inputs", "configurations"], "all 24 integer and 6 float types, all values, all byte contents",
  "Tests pack constants for some types.",
  ["numeric.py", "numeric_macros.py"], [("NumericMarshal", "numeric.py")], ["written bytes", "decoded values", "errors"])
p("S02", "A struct is its fields in order, and its size is what it writes",
  "A struct writes exactly the concatenation of its fields' encodings in declaration order, reading those bytes restores every field, and the size reported for an instance always equals the number of bytes it writes, for any nesting of structs, arrays, strings, bit groups, optional, constant, lazy and padding fields, however its class is named.",
  ["inputs", "configurations"], "all field values and variable lengths within the bound, nested combinations",
  "Each field kind has its own size code next to its own write code; tests compare them at single points.",
  ["struct/__init__.py", "array.py", "string.py", "struct/bit.py", "struct/optional.py"], [("FieldListContainer.write_fields/read_fields/sizeof", "struct/__init__.py")], ["to_bytes()", "create_from_string()", "sizeof()"])
p("S03", "Every instance size lies within the declared size bounds",
  "For every instance that can be written, the number of bytes written lies between the minimum and maximum size its type reports, a type is reported as fixed-size only if every instance has that size, and adding bounds is interval addition with saturation.",
  ["inputs", "configurations"], "all values and variable lengths within the bound for every marshal kind and nesting; all pairs of bounds",
  "Bounds are never compared with actual sizes over variable lengths.",
  ["base.py", "array.py", "string.py", "struct/optional.py", "struct/selector.py", "struct/pointer.py"], [("min_max_sizeof implementations", "base.py"), ("MinMax", "base.py")], ["min_max_sizeof()", "is_fixed_size()", "sizeof()"])
p("S04", "Reading a struct consumes exactly its own bytes from the stream",
  "Reading an instance from a stream consumes exactly the bytes of its encoding, whatever follows them, so that consecutive instances or unrelated data can be read from the same stream; writing to a stream appends exactly the encoding.",
  ["inputs", "configurations"], "all instance values and lengths, any following bytes, consecutive reads of different types",
  "Tests read from exactly sized strings.",
  ["struct/__init__.py", "array.py", "string.py", "struct/lazy.py", "struct/selector.py"], [("create_from_stream implementations", "struct/__init__.py")], ["stream position"])
p("S05", "Sequential bit groups place each field in its own bits",
  "In a group of consecutive bit fields the first field takes the least significant bits of the first byte and each next field the following bits, crossing bytes as needed; writing puts the low bits of each value in exactly those bits (padding bits zero), reading returns exactly them, and a group that does not fill whole bytes is refused.",
  ["inputs", "configurations"], "all values (including too wide ones), all group contents, all width sequences from a stated set",
  "Tests use a few constant groups.",
  ["struct/bit.py", "utils/bitstringio.py"], [("BitFieldListContainer", "struct/bit.py"), ("BitStringIO", "utils/bitstringio.py")], ["written bytes", "decoded values"])
p("S06", "Positional bit groups read and write exactly the named bits",
  "In a group of bit fields given by bit positions, a field made of one or several slices has its low bits in the first slice and the following bits in the next ones; writing then reading restores every field, fields in disjoint slices do not disturb each other, unnamed bits are written as zero and ignored on reading.",
  ["inputs", "configurations"], "all values and contents for layouts with split, reversed, adjacent, single-bit and byte-crossing slices",
  "Tests use one or two layouts with constants.",
  ["struct/bit.py", "utils/bitstringio.py", "struct_macros.py"], [("PositionalBitMarshal / PositionalBitFieldListContainer", "struct/bit.py")], ["written bytes", "decoded values"])
p("S07", "Struct arrays keep their elements, counts and byte sums",
  "Fixed-count, count-prefixed and byte-size-prefixed arrays write their prefix and then their elements in order and read back exactly the same list; a list whose length does not match a fixed count, or whose count or byte size does not fit the prefix, is refused, and a byte size that ends inside an element or that no number of elements fills, and a negative count, are refused on reading.",
  ["inputs", "configurations"], "all element values and list lengths within the bound, prefix types, fixed and variable size elements, arrays of structs, arrays read through selectors",
  "Tests use constant arrays with matching sizes only.",
  ["array.py", "array_macros.py"], [("VarSizeArrayMarshal, FixedSizeArrayMarshal, SumSizeArrayMarshal", "array.py")], ["written bytes", "decoded lists", "errors"])
p("S08", "Struct strings and buffers keep their content and never overrun",
  "A fixed-size string field always writes exactly its size: content padded on its padding side, content that does not fit refused; size-prefixed strings and raw buffers write the prefix matching the bytes that follow; a negative length is refused; reading returns the content without padding, so content that does not itself end (or begin, for left padding) with padding bytes round-trips exactly.",
  ["inputs", "configurations"], "all contents of every length up to beyond the size, padding characters, right/left/no padding, prefix types",
  "Tests pad constants on the right only and never exceed the size.",
  ["string.py", "string_macros.py"], [("PaddedStringMarshal, VarSizeStringMarshal", "string.py")], ["written bytes", "decoded content", "errors"])
p("S09", "Constant fields always write and demand their constant",
  "A constant field writes its constant whatever is given to or assigned on the instance, reading succeeds exactly when the bytes denote the constant and otherwise raises a library error (inside a lazy group: when the group is first used), and assigning any other value to it raises while assigning the same value is accepted.",
  ["inputs", "configurations"], "all byte contents, all assigned values, numeric, string and struct constants",
  "Tests try one wrong value.",
  ["struct/const.py", "struct_macros.py"], [("ConstField", "struct/const.py")], ["written bytes", "errors", "attribute"])
p("S10", "Optional fields follow their predicate and their value",
  "An optional field without a default is read exactly when its predicate holds for the part of the object read so far, is None otherwise, is written exactly when it has a value, and contributes to the size exactly what it writes, so that an object whose predicate matches the presence of values round-trips.",
  ["inputs", "configurations"], "all controlling values, presence combinations, falsy but present values such as 0 and empty strings",
  "Tests do not vary the controlling values or use falsy present values.",
  ["struct/optional.py"], [("OptionalField", "struct/optional.py")], ["written bytes", "decoded values", "sizeof()"])
p("S11", "Lazy groups are indistinguishable from eager ones",
  "A struct whose fixed-size fields are wrapped in a lazy group writes the same bytes, reads the same values, uses the same defaults, reports the same sizes and fails on the same too-short input as the same struct without the group, whatever order fields are read or assigned in and whenever that happens.",
  ["inputs", "histories"], "all contents and assigned values, all orders of access/assignment/serialisation after parsing or construction, nested bit groups",
  "Order of first access is a history; tests use one order.",
  ["struct/lazy.py"], [("LazyFieldListContainer / LazyField descriptors", "struct/lazy.py")], ["attribute values", "written bytes"],
  state=[dict(name="pending raw data", meaning="raw bytes kept until the first access", where="src/infi/instruct/struct/lazy.py")])
p("S12", "Selected structs see every byte exactly once",
  "When the type of a struct is chosen by looking ahead in the stream, by key or by function, the chosen type is decoded from the same bytes starting where the look-ahead started, every byte is delivered exactly once and in order whatever sizes are peeked and read, unmapped keys use the default or are refused, and a choice that leaves peeked bytes unread is refused.",
  ["inputs", "histories"], "all contents and keys, all peek/read size sequences within the bound, nested selection",
  "Tests peek one size and read one type; the key-mapping selector is never exercised.",
  ["struct/selector.py", "utils/read_ahead_stream.py"], [("ReadAheadStream", "utils/read_ahead_stream.py"), ("StructSelectorMarshal, FuncStructSelectorMarshal", "struct/selector.py")], ["decoded values", "stream position", "errors"])
p("S13", "Mapped fields translate values one-to-one",
  "A mapped field writes the code of its value and reads the value of its code, so every mapped value round-trips; values without a code and codes without a value are errors, and a mapping giving two values the same code is refused when declared.",
  ["inputs", "configurations"], "all codes of the underlying type, all mapped values, mappings of several shapes",
  "Tests use one mapping and valid keys.",
  ["mapping.py"], [("FixedSizeMappingMarshal", "mapping.py")], ["written bytes", "decoded values", "errors"])
p("S14", "Struct construction uses given values, else private copies of defaults",
  "A new struct instance holds exactly the values given by keyword and, for every other field, its own copy of the declared default, through any level of inheritance and with user-written constructors; changing one instance, its default lists included, never affects another instance or the class.",
  ["inputs", "histories"], "all given/omitted combinations of fields with arbitrary values, mutation histories over two instances, inheritance with own constructors",
  "Instance aliasing needs a history over two objects; tests build one.",
  ["struct/__init__.py"], [("Field.prepare_instance", "struct/__init__.py"), ("StructType", "struct/__init__.py")], ["attribute values", "written bytes"])
p("S15", "Struct reading refuses truncated input",
  "Reading a struct from a stream that ends anywhere before the end of its encoding raises an error for every field kind and never returns an instance built from fewer bytes.",
  ["inputs", "fault_sequences"], "every cut point of every encoding within the bound for all field kinds",
  "Tests cut one numeric field.",
  ["numeric.py", "string.py", "array.py", "padding.py", "struct/bit.py", "struct/lazy.py"], [("NotEnoughDataError checks", "numeric.py")], ["errors"])
p("S16", "Textual representations never fail and show every field",
  "Asking for the textual representation of a struct or buffer instance whose fields hold values of their kind, or no value yet, never raises and shows the name and current value of each of its fields, inherited ones included; fields of a lazy group that was not read yet are shown as such.",
  ["inputs", "configurations"], "all field values of all field kinds",
  "Tests compare a few strings.",
  ["struct/__init__.py", "buffer/buffer.py"], [("to_repr / __repr__", "struct/__init__.py")], ["repr()"])
p("S17", "A failed struct operation leaves no trace",
  "After writing, reading, sizing or showing a struct failed, whether because of an unsuitable value, a short or invalid input or a function of the user that raised, every later operation on the same object (once its values are set right), on other objects and on the class gives exactly what it would have given otherwise; values that were set stay; a lazy group whose bytes cannot be decoded fails on every use and never yields values.",
  ["inputs", "histories", "fault_sequences"], "all values and inputs that make an operation fail, at every field and every cut, followed by successful operations on the same and other objects",
  "Tests that check an error never use the object or the class again afterwards.",
  ["struct/__init__.py", "struct/lazy.py", "struct/bit.py", "utils/read_ahead_stream.py"], [("LazyFieldListContainer.instantiate_if_needed", "struct/lazy.py"), ("BitFieldListContainer", "struct/bit.py")], ["written bytes", "attribute values", "errors"])
p("S18", "Contexts and constructor arguments reach every nested part",
  "The context given to reading, writing or showing a struct, completed by the context its class declares, reaches every serializer, predicate and function inside it, through arrays, prefixes, selections, optional, constant, mapped and lazy fields and nested structs, with given values taking precedence over declared and outer over inner ones; 'struct' in it is the struct declaring the field; no context is changed; arguments given after the context when reading reach the constructors.",
  ["inputs", "configurations"], "all values in the context, all places a serializer can be in, contexts given, declared by outer, inner and base classes in every combination, all ways of giving arguments",
  "Tests use a context only to format numbers of one flat struct.",
  ["struct/__init__.py", "base.py", "array.py", "struct/selector.py", "struct/lazy.py", "mapping.py"], [("Struct.get_updated_context", "struct/__init__.py"), ("context arguments of create_from_stream / write_to_stream", "base.py")], ["written bytes", "decoded values", "arguments of user functions"])
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P: assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
