#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Decoding an encoding gives back the value",
  "For every supported type and every valid value of it, decoding what Encode wrote, with its exact length, succeeds and yields a value equal to the original in every serialised field. The original is any value within its limits: lists from empty up to their limit, any integer, any bit pattern, any nesting, through pointers too.",
  ["inputs", "programs"], "all supported Go types x all valid values",
  "TestEncode/TestDecode pin about fifty literal values of about forty types; lengths, limits, offset sizes and nestings outside those are never round-tripped.",
  ["zssz.go", "types/", "enc/encoder.go", "dec/decoder.go"],
  [("Encode/Decode pairs of every type definition", "types/ssz_*.go"), ("offset writing and scoped reading", "types/elem_var_size_series.go, types/ssz_container.go")],
  ["zssz.Encode, zssz.Decode"])
p("C02", "Encode writes exactly the canonical SSZ serialization",
  "For every supported type and valid value, Encode writes exactly the bytes the SSZ specification prescribes: little-endian basic values, packed bitfields with the delimiter bit for bitlists, fixed-size parts in field order, four-byte offsets relative to the start of the enclosing object, variable-size parts in order with no gaps. The returned count is the number of bytes written.",
  ["inputs", "programs"], "all supported Go types x all valid values",
  "Tests compare hex strings for a fixed set of small values; no offset above 255 and no long or deeply nested value is compared.",
  ["types/", "enc/encoder.go", "zssz.go"],
  [("WriteOffset", "enc/encoder.go"), ("EncodeVarSeries / SSZContainer.Encode", "types/elem_var_size_series.go, types/ssz_container.go")],
  ["zssz.Encode"])
p("C03", "Decode accepts exactly the canonical encodings and never crashes",
  "For every supported type and every byte string presented with its exact length, Decode succeeds if and only if the bytes are the canonical encoding of some valid value of that type, and then the decoded value re-encodes to those same bytes. Wrong, overlapping, unordered or out-of-range offsets, gaps, missing or trailing bytes, lists over their limit, lengths that do not divide into elements, booleans other than 0 or 1, set padding bits and missing or excess bitlist delimiters are all rejected with an error, never a panic. (A list whose elements have size zero has no decodable encoding.)",
  ["inputs", "programs"], "all supported types x all byte strings",
  "TestDecode only feeds valid encodings; no malformed input is ever decoded by the suite.",
  ["types/", "dec/decoder.go", "bitfields/", "zssz.go"],
  [("offset checks", "types/elem_var_size_series.go, types/ssz_container.go"), ("limit checks", "types/elem_fixed_size_series.go, types/basic_series.go, types/ssz_bytes.go"), ("bitfield checks", "bitfields/*.go"), ("total length check", "zssz.go Decode")],
  ["zssz.Decode", "zssz.Encode"])
p("C04", "DryCheck and Decode give the same verdict",
  "For every supported type, every byte string and every declared length, DryCheck succeeds if and only if Decode of the same input into a fresh value succeeds.",
  ["inputs", "programs"], "all supported types x all byte strings x all declared lengths",
  "TestDryCheck only feeds the valid encodings; the two code paths are separate implementations and are never compared on malformed input.",
  ["types/", "zssz.go", "dec/decoder.go"],
  [("DryCheck of each type definition, separate from Decode", "types/ssz_*.go, types/elem_*.go, types/basic_series.go")],
  ["zssz.DryCheck", "zssz.Decode"])
p("C05", "Reported sizes are exact and bound every encoding",
  "For every supported type and valid value, SizeOf equals the number of bytes Encode writes, and lies between the type's minimum and maximum length (whenever the maximum fits in 64 bits). A type is reported fixed-size exactly when SSZ says so; then minimum, maximum and fixed length all equal the size of every value, and otherwise both bounds are the true extremes over valid values and the fixed length of a container or vector is the size of its fixed part.",
  ["inputs", "programs", "configurations"], "all supported types (any limits, up to 2^64-1) x all valid values",
  "Tests compare SizeOf to the encoding for the literal cases only, and never look at MinLen, MaxLen or FixedLen.",
  ["types/", "zssz.go"],
  [("SizeOf and MinLen/MaxLen/FixedLen of each type definition", "types/ssz_*.go")],
  ["zssz.SizeOf", "MinLen/MaxLen/FixedLen/IsFixed of a type definition"])
p("C06", "HashTreeRoot is the SSZ Merkle root",
  "For every supported type and valid value, HashTreeRoot is the root of the SSZ Merkle tree of that value: values packed into 32-byte chunks, padded with zero chunks to the depth given by the limit (or fixed length or number of fields), with the element count (bit count for bitlists, whose delimiter bit is not hashed) mixed in for every list. Nothing else about the value or type influences it.",
  ["inputs", "programs", "configurations"], "all supported types (any limits up to 2^64-1) x all valid values",
  "Tests pin roots of about fifty values; chunk-boundary lengths, large limits and deep trees are hardly sampled (no bitlist ends just below a chunk boundary).",
  ["types/", "merkle/merkleize.go", "htr/hash_tree_root.go"],
  [("Merkleize", "merkle/merkleize.go"), ("leaf functions", "types/basic_series.go, types/ssz_*.go"), ("zero hashes", "htr/hash_tree_root.go")],
  ["zssz.HashTreeRoot", "merkle.Merkleize"])
p("C07", "SigningRoot is the root without the last field",
  "For every container type and valid value, SigningRoot equals the hash-tree-root of the container consisting of all its (flattened, non-omitted) fields except the last, in order; it is the zero chunk when none remain. It does not depend on the value of the last field and does depend on every other field.",
  ["inputs", "programs"], "all container types x all valid values",
  "TestSigningRoot only asserts that the signing root differs from the hash-tree-root.",
  ["types/ssz_container.go", "merkle/merkleize.go", "zssz.go"],
  [("SSZContainer.SigningRoot", "types/ssz_container.go")],
  ["zssz.SigningRoot"])
p("C08", "Constructed Merkle proofs verify for every index",
  "For every leaf count, limit of at least that count and index below the limit, the branch built by ConstructProof has one sibling per tree level and, combined bottom-up with the leaf at that index (a zero chunk beyond the last leaf), reproduces exactly the root that Merkleize computes for the same leaves and limit.",
  ["inputs", "configurations"], "all (leaf count, limit, index) with count <= limit, index < limit",
  "There is no test of ConstructProof at all.",
  ["merkle/merkleize.go"],
  [("ConstructProof", "merkle/merkleize.go"), ("Merkleize", "merkle/merkleize.go")],
  ["merkle.ConstructProof", "merkle.Merkleize"])
p("C09", "Input is consumed exactly, however the reader delivers it",
  "Decode and DryCheck never take more than the declared number of bytes from the reader, and take exactly that many when they succeed, so consecutive messages on one stream can be decoded in turn. The verdict and decoded value depend only on the bytes delivered: not on how the reader fragments them, whether it returns the end-of-input marker together with the last bytes, or which optional reader interfaces it has. If the reader fails or ends before the declared length is delivered, the call returns an error.",
  ["inputs", "fault_sequences", "histories"], "all encodings x all fragmentations x all failure points x all message sequences",
  "All tests read one message from one bytes.Reader that holds exactly that message.",
  ["dec/decoder.go", "zssz.go", "types/"],
  [("DecodingReader.Read/Skip/Scope", "dec/decoder.go"), ("final count check", "zssz.go")],
  ["the io.Reader passed to zssz.Decode / zssz.DryCheck"],
  [("stream position", "bytes taken from the reader", "dec/decoder.go")])
p("C10", "A failing writer yields its error, a true prefix and a true count",
  "If the writer passed to Encode fails at any point, Encode returns that error, everything the writer accepted is a prefix of the canonical encoding, and the returned count is the number of bytes accepted; nothing is written after a failure. If the writer never fails the error is nil and the whole encoding is written in order.",
  ["fault_sequences", "inputs"], "all values x all writer failure points (including partial writes)",
  "No test uses a failing writer, and the returned count is never checked.",
  ["enc/encoder.go", "types/", "zssz.go"],
  [("EncodingWriter.Write count", "enc/encoder.go"), ("error propagation in every Encode", "types/*.go")],
  ["the io.Writer passed to zssz.Encode"],
  [("bytes written", "accumulated count", "enc/encoder.go")])
p("C11", "Decoding does not depend on, or leak into, other memory",
  "A successful Decode produces the same serialised content whatever the destination held before (longer, shorter or empty lists, spare capacity, set or nil pointers, remains of an earlier failed decode), and leaves omitted fields as they were. Decoded values share no memory with the input buffer or with independently decoded values: changing one never changes another.",
  ["histories", "inputs"], "all sequences of decodes, failed decodes and mutations over several destinations",
  "Every test decodes once into a fresh zero value.",
  ["util/ptrutil/allocation.go", "types/", "dec/decoder.go"],
  [("slice length mutation or allocation", "util/ptrutil/allocation.go"), ("pointer allocation", "types/ssz_ptr.go")],
  ["zssz.Decode into reused destinations"],
  [("destination contents", "previous slices and pointers reused by decoding", "util/ptrutil/allocation.go")])
p("C12", "Fuzz-mode decoding turns any long-enough input into a valid value",
  "For every supported type and every input of at least the type's minimum fuzz length, DecodeFuzzBytes succeeds and yields a valid value: every list within its limit, every boolean and bitfield well-formed, so that it encodes, decodes back and hashes normally. The reported count is the number of bytes taken from the reader, lies between the minimum and maximum fuzz lengths of the type (whenever the maximum fits in 64 bits) and never exceeds the input, and equal inputs give equal results whatever the destination held before; shorter inputs give an error, and so does a reader that ends or fails before the bytes that are needed were delivered.",
  ["inputs", "programs"], "all supported types x all byte strings",
  "No test calls fuzz-mode decoding.",
  ["types/", "dec/decoder.go", "zssz.go"],
  [("fuzz-mode branches of Decode", "types/ssz_*.go, types/elem_var_size_series.go")],
  ["zssz.DecodeFuzzBytes", "FuzzMinLen/FuzzMaxLen"])
p("C13", "Concurrent use of one type definition does not interfere",
  "Any number of goroutines may use the same type definition at the same time to encode, decode, dry-check, size, hash and sign with distinct readers, writers and hash functions, decoding into distinct values and reading distinct ones or the same one; under every interleaving each call returns exactly what it would return alone.",
  ["schedules"], "all interleavings of concurrent calls sharing a type definition",
  "All tests are single-threaded.",
  ["types/", "enc/encoder.go", "dec/decoder.go", "merkle/merkleize.go", "htr/hash_tree_root.go"],
  [("immutable type definitions, per-call reader/writer scratch", "types/*.go, enc/encoder.go, dec/decoder.go")],
  ["results of concurrent zssz calls"],
  [("scratch buffers", "per call", "enc/encoder.go, dec/decoder.go"), ("type definition", "shared, immutable", "types/*.go")])
p("C14", "Go types map to SSZ types by the documented rules",
  "A struct's serialised fields are its fields in order with omitted ones dropped and embedded or squash-tagged structs replaced in place by their own fields, recursively; a pointer behaves exactly like the type it points to; so two Go types with the same flattening encode, decode, size and hash identically. Types outside the supported set are refused with an error when the definition is built: signed or floating numbers, strings, maps, interfaces and so on, slices without a limit, a squash tag on something that is not a struct, a bitvector whose byte size does not match its bit length, or anything containing one of these.",
  ["programs", "configurations"], "all Go type declarations",
  "Tests cover three squash layouts and one pointer struct; no unsupported type is ever offered.",
  ["types/factory.go", "types/ssz_container.go", "types/ssz_ptr.go", "types/limit.go", "util/tags/read_tag.go"],
  [("getFields / Wrap", "types/ssz_container.go"), ("DefaultSSZFactory", "types/factory.go"), ("HasFlag", "util/tags/read_tag.go")],
  ["types.SSZFactory", "zssz.* on the built definition"])
p("C15", "Bitfield helpers agree with the bit-sequence they represent",
  "For every byte slice, reading and setting bits, the bitlist length, the zero test and the validity checks of bitlists and bitvectors agree with the plain sequence of bits the bytes represent (least significant bit first, a bitlist ending at the highest set bit of its last byte). Setting a bit changes that bit only, for every history of sets; a check accepts exactly the well-formed bitfields of the given length or limit.",
  ["inputs", "histories"], "all byte slices, indices, limits and set sequences",
  "Tests sample a few dozen one- and two-byte cases.",
  ["bitfields/bitfield.go", "bitfields/bitlist.go", "bitfields/bitvector.go"],
  [("BitIndex/GetBit/SetBit/IsZeroBitlist", "bitfields/bitfield.go"), ("BitlistLen/BitlistCheck", "bitfields/bitlist.go"), ("BitvectorCheck", "bitfields/bitvector.go")],
  ["the exported helpers of package bitfields"])
p("C16", "Over-limit lengths are refused before memory is committed",
  "When the declared length of an input, or an offset or length inside it, implies a list, byte list or bitlist longer than its type's limit, Decode returns an error without panicking and without allocating memory for the excess: the memory a decode allocates never grows with the declared length beyond what the limits in the type allow.",
  ["inputs", "configurations"], "all types x all declared lengths (up to 2^64-1) and inner lengths",
  "No test declares a length other than that of a small valid encoding, nor looks at allocation.",
  ["types/ssz_bitlist.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/elem_fixed_size_series.go", "types/elem_var_size_series.go", "util/ptrutil/allocation.go"],
  [("limit checks placed before allocation", "types/*.go")],
  ["zssz.Decode with hostile declared lengths; bytes allocated"])
p("C17", "Results do not depend on the host byte order",
  "Encode, Decode, DryCheck, DecodeFuzzBytes, SizeOf, HashTreeRoot and SigningRoot give the same results whether the host is treated as little-endian (bulk memory copies) or big-endian (element by element with byte swapping), for every type and value.",
  ["configurations", "inputs"], "both byte-order code paths x all types x all values and inputs",
  "Tests run only on the byte order of the machine at hand, so the other path is never executed.",
  ["types/ssz_vector_basic.go", "types/ssz_list_basic.go", "types/basic_series.go", "util/endianness/endianness.go"],
  [("IsLittleEndian switch", "util/endianness/endianness.go"), ("BigEndianBasicSeriesHTR, element-wise encode/decode", "types/basic_series.go, types/elem_fixed_size_series.go")],
  ["zssz.* with the byte-order switch in either position"])
p("C18", "Reader and writer contexts give custom types exact, nested budgets",
  "The decoding context handed to a custom type definition tracks reads exactly: a read or skip within the scope consumes exactly that many bytes and advances the index by as much, one past the scope fails without touching the input, a sub-scope never exceeds its parent and accounts back into it. The encoding context counts exactly what it wrote and writes the true little-endian offset, refusing (by panic) any offset of 2^32 or more; custom definitions mixed in through a custom factory behave inside containers, vectors and lists like built-in ones of the same size class.",
  ["histories", "inputs", "programs"], "all sequences of context operations and all placements of a custom type",
  "No test uses the contexts directly or a custom type definition.",
  ["dec/decoder.go", "enc/encoder.go", "types/factory.go", "types/ssz_container.go", "types/elem_var_size_series.go"],
  [("checkedIndexUpdate, Scope, UpdateIndexFromScoped", "dec/decoder.go"), ("WriteOffset", "enc/encoder.go")],
  ["dec.DecodingReader and enc.EncodingWriter methods"],
  [("index and max of a scope", "read position and budget", "dec/decoder.go"), ("bytes written", "count", "enc/encoder.go")])
p("C19", "Roots follow the supplied hash function",
  "After initialising the zero hashes with a hash function, every hash-tree-root, signing root and Merkle proof computed with that function equals the SSZ tree evaluated with that function everywhere, padding subtrees at every depth up to 64 included. Switching functions and back restores the earlier roots, and the same function gives the same roots whether used directly or through a custom combiner.",
  ["configurations", "histories", "inputs"], "all hash functions, all sequences of switching, all types and values",
  "Tests only ever use SHA-256.",
  ["htr/hash_tree_root.go", "merkle/merkleize.go", "types/"],
  [("InitZeroHashes", "htr/hash_tree_root.go"), ("HashFn.Combi/MixIn", "htr/hash_tree_root.go")],
  ["zssz.HashTreeRoot / SigningRoot / merkle functions with other hash functions"],
  [("ZeroHashes", "precomputed zero subtree roots", "htr/hash_tree_root.go")])
p("C20", "Reading operations change nothing and repeat exactly",
  "Encode, SizeOf, HashTreeRoot, SigningRoot, Pretty and DryCheck never modify the value (not even while they run), the input or the type definition: after any sequence of operations, failed ones included, a value still has the same content and every operation on it gives the same result as the first time.",
  ["histories", "inputs"], "all sequences of operations (including failing ones) over one type definition and several values",
  "Each test performs one operation on a fresh definition and never looks at the value afterwards.",
  ["types/", "zssz.go", "merkle/merkleize.go", "enc/encoder.go"],
  [("no writes through the value pointer outside Decode", "types/*.go"), ("per-call state", "enc/encoder.go, dec/decoder.go, merkle/merkleize.go")],
  ["repeated zssz.* calls"])

p("C21", "Pretty shows the whole value",
  "For every supported type and every value, nil pointers included, Pretty writes, white space aside, the complete text of the value: a struct as {name:text,...} over its fields in order, squashed ones flattened and omitted ones left out, each under its own field name; lists and vectors as [text,...] with every element in order; unsigned integers in decimal, but single bytes as 0x and two hexadecimal digits and the largest uint16, uint32 and uint64 as 0x and Fs; booleans as True and False; byte lists and byte vectors as 0x and hexadecimal digits; bitlists and bitvectors as their bytes in binary within brackets; a nil pointer as null. The text depends on nothing but the value and the unit of indentation, which only determines white space.",
  ["inputs"], "all values of all supported types, all units of indentation",
  "The tests never look at the text.",
  ["pretty/pretty.go", "types/"],
  [("Pretty of each type writes the text of the value", "types/*.go"), ("WriteIndent writes white space only", "pretty/pretty.go")],
  ["zssz.Pretty"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
