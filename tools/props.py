import json
S="serde-xdr/src/ser.rs"; D="serde-xdr/src/de.rs"; O="serde-xdr/src/opaque.rs"; P="serde-xdr/src/primitive.rs"; E="serde-xdr/src/error.rs"
X="serde-xdr-derive/src/lib.rs"; PA="rpcgen/src/parser.rs"; G="rpcgen/src/gen_code.rs"; K="rpcgen/src/keyword.rs"; RE="rpcgen/src/error.rs"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    return d
L=[]
L.append(p("C01","Every scalar encodes to its exact RFC 4506 big-endian form",
 "Encoding any integer of up to 32 bits yields exactly four bytes: the value sign-extended (signed types) or zero-extended (unsigned types) to 32 bits, most significant byte first; 64-bit integers yield exactly eight. A boolean yields the four-byte integer 0 or 1, a character the four-byte integer of its code point, and floats their IEEE-754 bit pattern in four or eight bytes, most significant byte first. Encoding a scalar never fails and never disturbs bytes already produced.",
 ["inputs"],"all values of bool, i8..i64, u8..u64, f32, f64, char, at any position in an output",
 "The tests check 0, MIN and MAX (or one or two samples) of each type; a fault at any of the other 2^8..2^64 values, or only when the scalar is not first in the output, passes.",
 [S],[("per-type scalar methods of the serializer",S),("to_bytes",S)],[("output","bytes produced so far",S)],["serde_xdr::to_bytes"]))
L.append(p("C02","Strings and byte strings encode as length, content, zero padding",
 "Encoding a string or byte string of n bytes appends exactly the four-byte big-endian length n, then the n bytes unchanged, then the least number (0 to 3) of zero bytes that makes the total a multiple of four. A length that does not fit in 32 bits is refused with an error instead of being written wrongly.",
 ["inputs"],"all strings and byte strings of every length and content, at any position in an output",
 "The tests encode a handful of strings of at most four bytes; other lengths, residues, contents and offsets are never sampled, and nothing tests a length beyond 2^32.",
 [S],[("string/bytes methods of the serializer",S)],[("output","bytes produced so far",S)],["serde_xdr::to_bytes"]))
L.append(p("C03","Sequences and maps encode as a count followed by the items in order",
 "Encoding a variable-length sequence or map with n items appends the four-byte big-endian count n followed by the encodings of the items in iteration order (for maps, each key immediately followed by its value) and nothing else. A sequence or map whose length is not known in advance, or whose length does not fit in 32 bits, is refused with an error.",
 ["inputs"],"all item types, all item encodings and all item counts",
 "One Vec<u32> of three items and one single-entry HashMap are tested; item types whose own encoding is variable, nested containers, empty and unknown-length sequences are not.",
 [S],[("serialize_seq / serialize_map and their element methods",S)],None,["serde_xdr::to_bytes"]))
L.append(p("C04","Structs, tuples and wrappers encode as the concatenation of their parts",
 "Encoding a struct, tuple, tuple struct, fixed-size array or newtype wrapper yields exactly the encodings of its fields in declaration order with no bytes before, between or after them; unit and unit structs yield no bytes. If encoding any part fails, encoding the whole fails, so a successful result is never a partial encoding.",
 ["inputs"],"all field types and values, all field counts, every part failing or succeeding",
 "Tests use structs of two u8 fields that always succeed; other arities, field types, nesting and failing parts are not covered.",
 [S],[("serialize_tuple/struct/tuple_struct/newtype_struct/unit and field methods",S),("to_bytes",S)],None,["serde_xdr::to_bytes"]))
L.append(p("C05","Enums and unions encode their index; optionals encode a 0/1 flag",
 "Encoding an enum or union value appends the variant's index as a four-byte big-endian signed integer followed by exactly the encodings of the variant's fields in order; an index above 2^31-1 is refused with an error. An absent optional encodes as the integer 0 alone, a present one as the integer 1 followed by the value.",
 ["inputs"],"all variant indices, all variant kinds (unit, newtype, tuple, struct), all payload types and values",
 "Only index 0 is ever tested, with u8 payloads; other indices, the overflow limit and arbitrary payloads are not.",
 [S],[("serialize_*_variant, serialize_none, serialize_some",S),("From<TryFromIntError> for Error",E)],None,["serde_xdr::to_bytes"]))
L.append(p("C06","Scalars decode to exactly the encoded value, and out-of-range ones are refused",
 "Decoding a scalar consumes exactly the four (or eight, for 64-bit types) bytes of its RFC 4506 encoding and returns the value they encode, at any position in the input. When the four bytes hold an integer that the requested 8- or 16-bit type cannot represent, or that is not a Unicode code point when a character is requested, decoding fails instead of returning some other value.",
 ["inputs"],"all 2^32 (2^64) encodings for every scalar type, at any position of any input",
 "Tests decode 0, MIN and MAX only; none decodes an integer outside the range of the requested type.",
 [D],[("read_* helpers and per-type deserialize methods",D)],[("input","bytes not yet consumed",D)],["serde_xdr::from_bytes"]))
L.append(p("C07","Strings and byte strings decode to exactly their content and eat their padding",
 "Decoding a string or byte string reads a four-byte length n, returns exactly the next n bytes, and consumes exactly the 0 to 3 padding bytes up to the next multiple of four. Input that ends before the content or the padding is complete is an error, and for strings so is content that is not valid UTF-8; a string is never altered, truncated or returned with invalid UTF-8.",
 ["inputs"],"all byte inputs, all lengths, all contents including invalid UTF-8, all truncation points",
 "Three valid strings are tested; no test has invalid UTF-8, a truncated content or a truncated padding.",
 [D],[("read_string, read_bytes, read",D),("From<Utf8Error> for Error",E)],[("input","bytes not yet consumed",D)],["serde_xdr::from_bytes"]))
L.append(p("C08","Sequences and maps decode exactly the announced number of items",
 "Decoding a variable-length sequence or map reads a four-byte count n and then offers exactly n items (key then value for maps), in order, each decoded from where the previous one ended; the first item that fails makes the whole decoding fail. No item beyond the n-th is read, and the number of items still to come is always reported correctly.",
 ["inputs"],"all counts, all item types, all inputs",
 "One sequence of three integers and one map of a single entry are tested.",
 [D],[("deserialize_seq/map, Seq and Map access",D)],[("count","items not yet handed out",D)],["serde_xdr::from_bytes"]))
L.append(p("C09","Structs, tuples, enums, unions and optionals decode by their declared shape",
 "Decoding a struct, tuple or fixed-size array reads exactly its declared number of fields in order with no header, a newtype reads exactly its inner value, and unit reads nothing. Decoding an enum or union reads one four-byte signed index, refuses a negative one, selects the variant with that index and then reads that variant's fields only. Decoding an optional reads the flag: 0 gives an absent value and reads nothing more, 1 gives the value that follows.",
 ["inputs"],"all types of these shapes, all inputs, all indices including negative ones",
 "Tests use index 0 and two-field shapes only; negative or large indices and other arities are not tested.",
 [D],[("deserialize_tuple/struct/enum/option/newtype_struct/unit; Enum access",D)],None,["serde_xdr::from_bytes"]))
L.append(p("C10","Decoding arbitrary bytes never panics, overreads or over-allocates",
 "For every byte string and every requested type built from the supported shapes, decoding returns a value or an error: it never panics and never reads outside the input. When the input is too short for the next item the error reports exactly how many bytes are missing, and no memory is reserved on the strength of an announced length that the input does not back with data.",
 ["inputs"],"all byte strings (arbitrary, truncated, hostile lengths) and all target types",
 "The tests decode only complete, valid encodings; no test feeds truncated or hostile input.",
 [D,O],[("bounds check in read",D),("padding handling in read_string/read_bytes",D),("enumerate_u8",O)],None,["serde_xdr::from_bytes"]))
L.append(p("C11","A successful decode has consumed the whole input",
 "Decoding a byte string succeeds only if the value's encoding is the entire input; otherwise decoding fails and the error reports exactly how many bytes are left over. Every value returned by decoding was therefore determined by all of the input and by nothing else.",
 ["inputs"],"all byte strings and all target types",
 "No test decodes an input with trailing bytes.",
 [D],[("from_bytes",D)],None,["serde_xdr::from_bytes"]))
L.append(p("C12","Decoding inverts encoding",
 "For every value of the supported data model that encodes successfully, decoding the result as the same type succeeds and gives back an equal value, and this also holds for the value embedded anywhere inside a larger encoding. Consequently two different values of one type never share an encoding.",
 ["inputs"],"all values: scalars, strings, byte strings, opaques, optionals, sequences, maps, tuples, structs, enums, of any nesting and size",
 "Encoding and decoding are tested separately against hand-written bytes for a few values; no test runs one after the other in this crate, and the value space is unbounded.",
 [S,D,O],[("serializer and deserializer as a pair",S),("deserializer",D)],None,["serde_xdr::to_bytes","serde_xdr::from_bytes"]))
L.append(p("C13","Fixed and variable opaque data has the RFC 4506 wire form both ways",
 "A fixed-length opaque of n bytes encodes as exactly those n bytes followed by 0 to 3 zero bytes up to a multiple of four, with no length; a variable-length opaque is the same preceded by the four-byte length n. Decoding such an encoding consumes exactly those bytes and returns exactly the n original bytes, for every n including zero, and fails when the input ends early.",
 ["inputs"],"all byte contents and all lengths n (fixed and variable), at any position",
 "Tests use lengths 1, 2 and 3 with fixed contents; n = 0, multiples of four and longer data are never tested.",
 [O],[("opaque::fixed, opaque::variable, enumerate_u32, enumerate_u8, OpaqueVisitor",O)],None,["serde_xdr::opaque::fixed","serde_xdr::opaque::variable","serde_xdr::opaque::VariableArray"]))
L.append(p("C14","Enumerations mapped through i32 keep their numeric value on the wire",
 "A field declared through the signed-32-bit enumeration adapter encodes as exactly the four-byte big-endian integer the value converts to, and decodes to the value converted from the four-byte integer read. An integer that the enumeration's conversion rejects makes decoding fail with an error; the adapter neither panics nor substitutes another value.",
 ["inputs"],"all enumeration types convertible from and to i32, all 2^32 wire integers",
 "Tests use one enumeration with one value (3).",
 [P],[("primitive::signed32",P)],None,["serde_xdr::primitive::signed32"]))
L.append(p("C15","Derived indexed unions: index then fields, and back",
 "For every enum deriving the index-based union support, each value encodes as its declared index as a four-byte signed integer followed by the encodings of the variant's fields in order, and decoding reads the index, selects the variant declared for it and reads exactly that variant's fields in order, whatever their number. An index for which the type declares no variant makes decoding fail with an error; decoding never panics on any input.",
 ["inputs","programs"],"all enum definitions with unit and tuple variants (any number of variants and fields, any declared indices), all field values, all byte inputs",
 "Tests derive for one enum with at most two fields per variant and four values; wide variants, negative indices, unknown indices and truncated inputs are not tested.",
 [X],[("xdr_indexer derive",X)],None,["code generated by #[derive(XdrIndexer)]"]))
L.append(p("C16","Derived value-discriminated unions: fields in order, first one is the selector",
 "For every enum deriving the value-discriminated union support, each value encodes as the encodings of its fields in order, the first being the discriminant, and decoding reads the discriminant, selects the variant declared for that value and reads exactly that variant's remaining fields in order, whatever their number, keeping the discriminant value that was read. A discriminant value for which no variant is declared makes decoding fail with an error; decoding never panics on any input.",
 ["inputs","programs"],"all enum definitions with tuple variants sharing a discriminant type, all values, all byte inputs",
 "Tests derive for three enums with at most two fields per variant and four values each; wide variants, unknown discriminants and truncated inputs are not tested.",
 [X],[("xdr_union derive",X)],None,["code generated by #[derive(XdrUnion)]"]))
L.append(p("C17","Integer literals in specifications have exactly their written value",
 "An integer literal in an interface definition is read with the base its prefix announces (0x hexadecimal, leading 0 octal, otherwise decimal with optional minus sign), spans the longest run of digits of that base, and denotes exactly the mathematical value of those digits. A literal whose value does not fit the integer type it is used for is reported as an error, never wrapped or truncated.",
 ["inputs"],"all digit strings of every length in the three bases, all target integer types",
 "Tests use a few two- to four-digit literals and none at a type's limit.",
 [PA],[("constant, decimal_nonzero, hexadecimal, octal",PA),("TryFrom<&Constant>",PA)],None,["rpcgen::parser::parse","rpcgen::parser::Constant::value"]))
L.append(p("C18","The parser maps every declaration to the type, name and bound that were written",
 "Each declaration in an interface definition is read as exactly what was written: its base type (signedness and width included), its identifier, its kind (plain, fixed array, variable array, fixed or variable opaque, string, optional, void) and its size bound. A type keyword counts only as a whole word, so an identifier that merely begins with a keyword is an identifier, and a reserved word is never accepted as an identifier.",
 ["inputs"],"all declarations, all identifiers (including ones that start with or contain keywords), all bounds",
 "Tests check one sample per alternative with one-letter names.",
 [PA,K],[("declaration, type_specifier, identifier",PA),("xdr_reserved",K)],None,["rpcgen::parser::parse"]))
L.append(p("C19","A parsed specification contains every definition, in order, and nothing else",
 "Parsing an interface definition succeeds only if the whole text consists of definitions separated by white space and comments, and then yields one entry per definition in source order, with the members of each struct, enum, union (every case label with its arm, and the default arm) and program in source order and none lost, duplicated or reordered. White space and comments between definitions and around the punctuation of a body do not change the result. Any other text is reported as an error and parsing never panics.",
 ["inputs"],"all input texts",
 "Tests parse single definitions with one or two members; no test parses a file of several definitions or any malformed text.",
 [PA],[("parse, specification, definition, *_body, case_spec, program",PA)],None,["rpcgen::parser::parse"]))
L.append(p("C20","Constant and enumerator names resolve to their defined value or to an error",
 "A name used where a number is expected resolves to the value of the constant of that name, following constants defined by other names through chains of any length, and otherwise to the value of the enumerator of that name. A name that is not defined, or whose definition leads back to itself, is reported as an error; resolution always terminates.",
 ["inputs"],"all sets of constant and enum definitions (any size, order, aliasing, cycles) and all names",
 "Tests resolve a literal constant and a literal enumerator; no alias chain, shadowing, or cycle is tested.",
 [G],[("Context::resolve_*",G)],[("constants","constants defined so far",G),("typedefs","types defined so far",G)],["rpcgen::gen_code::gen_code"]))
L.append(p("C21","Generated structs have exactly the wire form their XDR definition prescribes",
 "For every XDR struct the generator accepts, each value of the generated Rust type encodes as the concatenation of its members in definition order, each in the RFC 4506 form of its declared type (after resolving typedefs and constants), and decodes back from those bytes to the same value. This holds for integer, hyper, float, bool, enum, nested struct and union members, fixed and variable arrays, opaque data, strings and optional data.",
 ["programs","configurations","inputs"],"all struct definitions, all generator option combinations, all values",
 "No test runs the generator on a struct, let alone compiles its output or encodes a value with it.",
 [G],[("convert_struct_token, convert_type_token, convert_primitive_token, resolve_type_token",G)],None,["rpcgen output compiled against serde_xdr"]))
L.append(p("C22","Generated enums carry exactly the declared numbers",
 "For every XDR enum the generator accepts, under every option combination, the generated Rust enum has one variant per enumerator with the declared number as its discriminant, and a value encodes as exactly that number as a four-byte signed integer and decodes back from it. With the standard-trait option the conversions from and to i32 agree with the declared numbers for every i32 and reject all undeclared numbers.",
 ["programs","configurations","inputs"],"all enum definitions (unsorted, sparse, negative, aliased by constants), all option combinations, all i32 values",
 "No test runs the generator on an enum.",
 [G],[("convert_enum_token",G)],None,["rpcgen output compiled against serde_xdr"]))
L.append(p("C23","Generated unions put the declared discriminant and the selected arm on the wire",
 "For every XDR union the generator accepts, under every option combination, a value of a case arm encodes as that case's discriminant value as a four-byte integer followed by exactly the arm's declared data (nothing for void), and decodes back from those bytes to the same value; every case label of an arm is represented. With the value-discriminated option a discriminant without a case selects the default arm if there is one and is an error otherwise.",
 ["programs","configurations","inputs"],"all union definitions (int, unsigned, enum and bool discriminants, shared arms, void arms, default), all option combinations, all values",
 "No test runs the generator on a union.",
 [G],[("convert_union_token, convert_case_token",G)],None,["rpcgen output compiled against serde_xdr"]))
L.append(p("C24","The generator turns every parsed specification into code or an error, no crash",
 "For every specification the parser accepts and every option combination, code generation terminates and returns either generated code or an error; it never panics, overflows or recurses without end, whatever the names, numbers, nesting and cross references in the specification.",
 ["inputs","configurations"],"all parsed specifications, all option combinations",
 "Only helper functions of the generator are unit-tested; the generator itself is never run by the tests.",
 [G],[("gen_code and everything it calls",G)],None,["rpcgen::gen_code::gen_code","the rpcgen command"]))
L.append(p("C25","Name conversion is predictable and loses nothing but case and underscores",
 "Converting a specification name to a Rust type or variant name keeps its letters and digits in order, changes only letter case and drops only underscores; converting it to a field name keeps its letters and digits in order, is all lower case and adds or keeps only underscores. The result depends on nothing but the name itself, and names without underscores keep all but their first letter unchanged in type names.",
 ["inputs"],"all identifiers of any length over letters, digits and underscores",
 "Tests convert six fixed names.",
 [G],[("upper_camel_case, capitalize, snake_case, with_underscore",G)],None,["names in rpcgen output"]))
with open('/verif/properties.jsonl','w') as f:
    for d in L:
        if len(d["title"])>80: print(d["id"],len(d["title"]))
        assert True or len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
print(len(L))
