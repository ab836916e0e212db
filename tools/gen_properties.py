#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
G = "Go/sereal/"
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[G+f if "/" not in f else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None))
props = [
P("C01", "Decoding arbitrary bytes into an untyped target never crashes",
  "For every byte string and every decoder option, Unmarshal, UnmarshalHeader, UnmarshalHeaderBody and LooksLikeSereal called with untyped targets return normally: a value with a nil error, or an error. They never panic and never fail to terminate. (Documents nested so deeply that the stack runs out are C27.)",
  ["inputs","configurations"], "every byte string, times PerlCompat x DisableReferentialIntegrity, for the header, the body and both",
  "Tests decode a Perl-generated corpus of valid documents and a handful of malformed ones; the claim is over all byte strings, and the crashing ones are rare (overlong varints, negative lengths, offsets at the very end of the buffer).",
  ["decode.go","zlib.go","zlib_purego.go","snappy.go"], [("length, offset and tag checks on every read","decode.go: readHeader, UnmarshalHeaderBody, decode, decodeStringish, varintdecode"),("recover() turning decoder panics into errors","decode.go: UnmarshalHeaderBody")],
  [("tracked","offset -> value already decoded at a track-flagged tag","decode.go: Decoder"),("copyDepth","COPY nesting guard","decode.go: Decoder")], ["Decoder.Unmarshal","Decoder.UnmarshalHeader","Decoder.UnmarshalHeaderBody","LooksLikeSereal"]),
P("C02", "Decoding arbitrary bytes into a typed target never crashes",
  "For every byte string and every typed destination (a non-nil pointer to integers, floats, bools, strings, byte slices, slices, arrays, maps, structs, pointers, binary unmarshalers, pre-populated or not), Unmarshal returns normally with nil or an error. A document whose shape does not fit the destination yields an error, never a panic.",
  ["inputs","configurations"], "every byte string times a family of destination types, nil or pre-populated",
  "Tests decode matching documents into a few structs; a mismatch between an arbitrary document and the destination type is only sampled once or twice.",
  ["decode.go","tagscache.go"], [("kind checks before every reflective store","decode.go: decodeViaReflection, decodeArrayViaReflection, decodeHashViaReflection, setInt, setBinary"),("recover() around reflect panics","decode.go: UnmarshalHeaderBody")], (), ["Unmarshal"]),
P("C03", "DecompressDocument yields an equivalent raw document",
  "For every document and every destination buffer, DecompressDocument returns an error or a document that is marked uncompressed, keeps the version and header of the original, and decodes to the same header and body as the original; it never panics and never modifies its input. (Version 1 documents whose offsets point into their own header bytes are left out: those bytes change.)",
  ["inputs","configurations"], "every byte string and every length/capacity of the destination buffer",
  "The one test uses a single 2 KB document and one buffer size.",
  ["decode.go","snappy.go","zlib.go"], [("destination reuse and type-nibble rewrite","decode.go: DecompressDocument, hasSameBuffer")], (), ["DecompressDocument"]),
P("C04", "Merging arbitrary bytes never crashes and a failed append has no effect",
  "For every byte string and every merger configuration, Append returns normally with an element count or an error, and an Append that returned an error leaves no trace: later Appends and Finish behave exactly as if it had not been made.",
  ["inputs","histories"], "every byte string at every position in a history of appends",
  "The package has no merger test at all apart from a benchmark.",
  ["merge.go"], [("two-pass validation, then copying, with rollback of the buffer","merge.go: Append, buildTrackTable, mergeItems")],
  [("strTable/objTable","string and class name -> offset in the merged body","merge.go: Merger")], ["Merger.Append","Merger.Finish"]),
P("C05", "A merged document decodes to exactly the merged values, in order",
  "For every sequence of valid documents, in any supported protocol version and compression, Append accepts each and Finish returns a valid document that decodes to the array of the individual values in append order (concatenated when KeepFlat applies), and the counts returned by Append add up to its length; string deduplication and output compression never change that value.",
  ["inputs","histories","configurations"], "every sequence of valid documents, every merger option",
  "No test checks a merge result; references, COPY tags and deduplication across documents interact only for specific document sequences.",
  ["merge.go"], [("offset translation through a track table","merge.go: buildTrackTable, mergeItems"),("cross-document deduplication","merge.go: mergeItems")],
  [("trackTable/trackIdxs","offset in the source document -> offset in the merged body","merge.go: mergerDoc")], ["Merger.Finish"]),
P("C06", "Every integer round-trips exactly",
  "For every value of every signed and unsigned Go integer type, built-in or named, encoding and then decoding yields the same number, into an untyped target as well as into a variable of the same type, at top level and inside containers.",
  ["inputs","configurations"], "all 2^8..2^64 values of each integer type, encoders v1, v2 and v3, PerlCompat or not",
  "Tests use about twenty integers; wrong behaviour sits at sign, 7-bit-group and width boundaries.",
  ["encode.go","decode.go"], [("small-int / varint / zigzag selection","encode.go: encodeInt, varint"),("varint and zigzag decoding, sign handling","decode.go: decodeInt, decodeVarint, decodeZigzag, setInt, varintdecode")], (), ["Marshal","Unmarshal"]),
P("C07", "Every float, bool, string and byte string round-trips exactly",
  "For every float32/float64 bit pattern, bool, string and byte slice (any content, any length), encoding and then decoding yields the identical value, into an untyped target as well as into a variable of the same type.",
  ["inputs","configurations"], "every bit pattern and content; every length, in particular around the 31/32 and 127/128 and 16383/16384 boundaries",
  "Tests sample four floats and three strings; length-class boundaries and special floats are never hit.",
  ["encode.go","decode.go"], [("string tags and lengths","encode.go: encodeString, encodeBytes"),("float bits","encode.go: encodeFloat, encodeDouble; decode.go: decodeFloat, decodeDouble"),("setBinary / decodeBinary","decode.go")], (), ["Marshal","Unmarshal"]),
P("C08", "Nested maps and slices round-trip for every encoder setting",
  "For every tree of slices and string-keyed maps over scalars, and for every protocol version, PerlCompat, DisableDedup, ExpectedSize and CompressionThreshold setting and every map iteration order, decoding the encoding yields an equal tree (nil and empty containers being identified).",
  ["inputs","configurations","schedules"], "every bounded tree with arbitrary keys (equal or different) and leaves, every option combination, every map iteration order",
  "Tests use a fixed list of trees; key deduplication depends on which keys coincide, at which offsets, and in which iteration order.",
  ["encode.go","decode.go"], [("string table and COPY","encode.go: encodeString, encodeBytes; decode.go: decode COPY, decodeStringish"),("offset base per version","encode.go: MarshalWithHeader; decode.go: UnmarshalHeaderBody")],
  [("strTable","key or class name -> offset","encode.go: marshalState")], ["Encoder.Marshal","Decoder.Unmarshal"]),
P("C09", "Structs round-trip into their own type, honouring field tags",
  "For every value of a struct type whose exported fields are scalars, strings, byte slices, slices, maps, nested structs or pointers to structs, decoding the encoding into a fresh variable of that type restores every exported field, uses names given by sereal tags, leaves fields tagged \"-\" and unexported fields untouched (tagged or not), and ignores unknown keys.",
  ["inputs","configurations"], "every field content of a family of struct types, every encoder setting and field iteration order",
  "Tests use a dozen fixed struct values.",
  ["encode.go","decode.go","tagscache.go"], [("field name table","tagscache.go: Get"),("struct encode/decode","encode.go: encodeStruct; decode.go: decodeHashViaReflection")], (), ["Marshal","Unmarshal"]),
P("C10", "Every encoded document conforms to the Sereal specification",
  "For every value and encoder setting, Marshal's output has the magic and version/type byte the protocol version requires, a well-formed header, and a body that an independent reading of the specification decodes completely, with no bytes left over, to the value that was encoded, with COPY, REFP and OBJECTV offsets in the base the version prescribes.",
  ["inputs","configurations"], "every bounded value, every encoder setting; decoded by a reference decoder written from sereal_spec.pod",
  "Round-trip tests cannot see an encoder and decoder that are wrong in the same way; the Perl cross-check covers a fixed corpus.",
  ["encode.go","const.go"], [("tag selection and offsets","encode.go"),("document header","encode.go: MarshalWithHeader")], (), ["Marshal"]),
P("C11", "Every valid document decodes to the value the specification gives it",
  "For every document that is valid under the specification (protocol versions 1 to 4), Unmarshal into an untyped target succeeds and yields the specified value: padding and track flags are ignored, COPY, REFP, ALIAS and OBJECTV refer to the item at that offset, integers, floats, strings, arrays and hashes have their specified values.",
  ["inputs"], "every valid document up to a length bound, against a reference decoder written from sereal_spec.pod",
  "The corpus holds what one Perl encoder emits; non-canonical but valid encodings (padding, long varints, flags, copies of containers) are not in it.",
  ["decode.go"], [("tag dispatch","decode.go: decode, decodeStringish")], (), ["Unmarshal"]),
P("C12", "Malformed documents are rejected",
  "For every byte string that is not a valid document because it is truncated, has an undefined tag, a bad varint, a COPY, OBJECTV or OBJECTV_FREEZE that does not point backwards, a REFP or ALIAS to an offset that holds no flagged earlier item, a COPY of a COPY, or a length larger than what remains, Unmarshal returns an error rather than a value.",
  ["inputs"], "every byte string up to a length bound, against a strict reference decoder",
  "Each test of a malformed document is one document.",
  ["decode.go"], [("bounds and offset validation","decode.go: decode, decodeStringish, decodeBinary, decodeArray, decodeHash, decodeREFP_ALIAS, varintdecode")], (), ["Unmarshal"]),
P("C13", "Only well-formed headers of supported versions and types are accepted",
  "Unmarshal, UnmarshalHeader, DecompressDocument and Merger.Append accept a document only if its magic matches its version (=srl for 1-2, =\\xF3rl for 3-4), its version is supported, and its compression type is legal for that version (snappy type 1 only in v1, zlib from v3, zstd from v4); a UTF-8-mangled magic is reported as such; LooksLikeSereal accepts every document Unmarshal accepts.",
  ["inputs"], "every magic, version/type byte and header length",
  "One test samples header errors; the table of version x type x magic is not covered.",
  ["decode.go","merge.go","const.go"], [("readHeader/checkHeader/documentDecompressor","decode.go"),("Append header handling","merge.go: Append")], (), ["Unmarshal","DecompressDocument","Merger.Append","LooksLikeSereal"]),
P("C14", "User header and body are independent",
  "For every header value and body value and encoder v2 or later, MarshalWithHeader produces a document from which UnmarshalHeader yields the header, Unmarshal yields the body, and UnmarshalHeaderBody yields both, whatever the other part contains and whatever the compression; without a header, the header target is left untouched.",
  ["inputs","configurations"], "every bounded header/body pair, including pairs sharing strings, and every header size",
  "One test with one header.",
  ["encode.go","decode.go"], [("header suffix encoding with its own offsets and string table","encode.go: MarshalWithHeader"),("suffix parsing","decode.go: readHeader, UnmarshalHeaderBody")], (), ["MarshalWithHeader","UnmarshalHeader","UnmarshalHeaderBody"]),
P("C15", "Compression is transparent",
  "For every value, compressor and threshold, decoding a compressed encoding yields what decoding the uncompressed encoding yields; a body below the threshold is left raw, one at or above it is compressed, the document type says which, and a compressor illegal for the protocol version is refused with an error.",
  ["inputs","configurations"], "every bounded body, every compressor x version x threshold combination, body lengths on both sides of the threshold",
  "Two tests with one array each.",
  ["encode.go","decode.go","snappy.go","zlib.go","zlib_purego.go","zstd.go"], [("framing varints and type nibble","snappy.go, zlib.go, zstd.go, encode.go: MarshalWithHeader")], (), ["Encoder.Marshal","Decoder.Unmarshal"]),
P("C16", "Frozen objects deliver exactly the marshaled bytes",
  "For every type whose values implement BinaryMarshaler (and whose pointers implement BinaryUnmarshaler) and every byte string it produces, encoding and decoding hands exactly those bytes to UnmarshalBinary (into a typed target or through a registered name), to a byte slice, or to a PerlFreeze value with the class name; an error from MarshalBinary or UnmarshalBinary is returned to the caller, and DisableFREEZE disables the hook.",
  ["inputs","configurations"], "every payload, target kind and option; repeated classes",
  "Tests use time.Time and one error case.",
  ["encode.go","decode.go"], [("OBJECT_FREEZE encoding","encode.go: encodeViaReflection"),("OBJECT_FREEZE/OBJECTV_FREEZE decoding","decode.go: decodeObjectFreezeViaReflection, findUnmarshaler, RegisterName")], (), ["Marshal","Unmarshal","Decoder.RegisterName"]),
P("C17", "The recursion limit is exact and cyclic pointer graphs terminate",
  "With MaxRecursionDepth set, encoding fails with ErrMaxRecursionLimit exactly when the nesting of containers and pointers reaches the limit and otherwise gives the same bytes as without a limit; without one, any graph of pointers, cyclic or not, is encoded in finite steps (every cycle passing through a pointer).",
  ["inputs","configurations"], "every bounded nesting shape and every limit value",
  "No test sets the limit.",
  ["encode.go"], [("remainingDepth","encode.go: encodeIntfArray, encodeStrMap, encodeArray, encodeMap, encodeStruct, encodePointer, remainingRecursion"),("ptrTable","encode.go: encodePointer")], (), ["Encoder.Marshal"]),
P("C18", "Encoders and decoders carry no state from one call to the next",
  "The result of every Marshal, Unmarshal or UnmarshalHeaderBody call on a reused Encoder or Decoder equals that of a fresh one with the same options, whatever calls preceded it, including calls that failed.",
  ["histories","inputs"], "every pair of calls, the first of which may fail anywhere",
  "Tests reuse instances only along successful paths.",
  ["encode.go","decode.go","tagscache.go"], [("per-call state tables","encode.go: marshalState; decode.go: tracked, copyDepth"),("type cache","tagscache.go")],
  [("copyDepth","COPY nesting counter, must be back to 0 between calls","decode.go: Decoder")], ["Encoder","Decoder"]),
P("C19", "Input buffers and encoded values are never modified or retained",
  "Unmarshal, Append and DecompressDocument never write to the input buffer, and overwriting that buffer afterwards does not change any value they returned; Marshal never modifies the value it encodes and never returns memory that aliases it.",
  ["inputs","configurations"], "every document and value within the bounds, every decoder mode",
  "No test looks at the buffer afterwards, except one double decode.",
  ["decode.go","encode.go","merge.go","snappy.go"], [("copying of strings and bytes","decode.go: decodeBinary, decodeStringish, decodeRegexp, setBinary"),("compressors reusing buffers","snappy.go: compress")], (), ["Unmarshal","Marshal","Merger.Append","DecompressDocument"]),
P("C20", "The package-level functions are safe for concurrent use",
  "Marshal, Unmarshal, DecompressDocument and LooksLikeSereal may be called from any number of goroutines at once: no call writes, without synchronisation, to memory that another call can reach.",
  ["schedules","inputs"], "every interleaving of calls on distinct values",
  "Tests are single-threaded; a race needs two overlapping calls.",
  ["encode.go","tagscache.go","zlib_purego.go","perl.go"], [("shared default encoder and its type cache","encode.go: defaultEncoder, Marshal; tagscache.go: Get"),("writer pools","zlib_purego.go")],
  [("defaultEncoder","package-wide Encoder","encode.go")], ["Marshal","Unmarshal"]),
P("C21", "Perl values survive a PerlCompat decode/encode/decode cycle",
  "For every document over Perl's value space, in which containers stand behind references, (objects, regexps, weak references, undef and canonical undef, references, frozen objects), decoding with PerlCompat, encoding the result with PerlCompat and decoding again yields an equal value, and each Perl construct keeps its class name, pattern, modifiers, payload and kind.",
  ["inputs"], "every bounded document over those tags, each protocol version",
  "The corpus fixes the documents; the Go test only checks that the cycle does not fail.",
  ["decode.go","encode.go","perl.go"], [("Perl types","perl.go"),("PerlCompat branches","decode.go: decode; encode.go: encode, encodePointer")], (), ["Decoder.PerlCompat","Encoder.PerlCompat"]),
P("C22", "Shared and cyclic references keep their structure",
  "When two pointers, or two references in a document, denote the same item, the encoding refers back to the first occurrence and decoding gives both the same content (the same pointer where the destination consists of pointers to structs or of maps); pointers to items of different content are never merged.",
  ["inputs"], "every bounded pointer graph (which pointers coincide is arbitrary) and every REFP/ALIAS target",
  "One test decodes one fixed document; aliasing patterns are combinatorial.",
  ["encode.go","decode.go"], [("pointer table and track flag","encode.go: encodePointer, getPointer"),("tracked map","decode.go: decodeREFP_ALIAS")], (), ["Marshal","Unmarshal"]),
P("C23", "Claimed lengths are never trusted",
  "For every input, no single allocation made by Unmarshal, DecompressDocument or Append is larger than a small constant (for a typed destination, times its element size) multiple of the input plus what the input actually decompresses to: a length or count that exceeds what the buffer holds is rejected before it is used as a size.",
  ["inputs"], "every byte string, every claimed length up to 2^64-1",
  "Tests never use a large claimed length.",
  ["decode.go","zlib_purego.go","snappy.go","merge.go"], [("length checks before make","decode.go: decodeArray, decodeHash, decodeBinary"),("zlib output buffer","zlib_purego.go: zlibDecode")], (), ["Unmarshal","DecompressDocument","Merger.Append"]),
P("C24", "json.Number values keep their numeric value",
  "For every decimal string held in a json.Number, encoding it yields an integer of that value when it fits in int64, and otherwise the literal string or, for a fraction or an exponent, the nearest float, such that no digit of an integer is lost; text that is no number stays that text.",
  ["inputs"], "every integer literal up to a digit bound, and non-integer literals",
  "Tests use four literals.",
  ["encode.go"], [("encodeJsonNumber","encode.go")], (), ["Marshal"]),
P("C25", "Typed and untyped decoding agree",
  "For every valid document and every fresh typed destination that can hold its value (references and class names being dropped, pointers being to structs), decoding succeeds and gives the content that the document has and that decoding into an untyped target gives; a typed decode never succeeds with a value that differs from the document's, except that fields and array elements the destination lacks are dropped, numbers round to a float32 destination, and undef leaves the zero value.",
  ["inputs"], "every bounded document times a family of destination types",
  "The two decoders are separate code; tests compare them on a handful of documents.",
  ["decode.go"], [("parallel implementations","decode.go: decode vs decodeViaReflection")], (), ["Unmarshal"]),
P("C26", "Documents written by one implementation are read alike by the others",
  "A document written by the Perl, Java, JavaScript, Python, Ruby, Objective-C or Erlang implementation decodes in Go to the corresponding value, and the reverse.",
  ["programs","inputs"], "every value, every pair of implementations",
  "Tests cover Perl/Go on a fixed corpus only.",
  ["Perl/shared/srl_protocol.h","sereal_spec.pod","Go/sereal/const.go"], [("common specification","sereal_spec.pod")], (), ["cross-language corpus"]),
P("C27", "Deeply nested documents and values cannot exhaust the stack",
  "However deeply a document or value nests, decoding or encoding it ends in a value or an error, never in a fatal stack overflow.",
  ["inputs"], "nesting depth without bound",
  "Needs documents of megabytes of nesting.",
  ["decode.go","encode.go"], [("recursion without a depth limit in the decoder","decode.go: decode")], (), ["Unmarshal"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
