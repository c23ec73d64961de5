import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PI="include/parser/parser_impl.hpp"; VI="include/common/value_impl.hpp"; VH="include/common/value.hpp"; AI="include/common/array_impl.hpp"; OI="include/common/object_impl.hpp"; UT="include/common/utils.hpp"; JZ="include/reflection/jsonization.hpp"; ER="include/common/enum_reflection.hpp"; PB="include/parser/packed_bytes.hpp"; PX="include/parser/packed_bytes_x86.hpp"; PA="include/parser/packed_bytes_arm.hpp"; BO="include/parser/bitops.hpp"
p("C01","Strict parsing accepts exactly JSON documents",
 "json::parse succeeds on a byte sequence if and only if it is an RFC 8259 JSON text whose root is an object or an array and in which no object repeats a key. Comments, trailing commas, trailing garbage, malformed numbers or literals, unknown escapes, unpaired surrogate escapes and raw control characters in strings are all refused, and nothing well formed is refused. Bytes from 0x80 up inside strings are accepted as they are, and a NUL byte found where whitespace is allowed ends the document.",
 ["inputs"],"every byte sequence",
 "The tests try about thirty hand-written documents; acceptance is a statement about all byte sequences, and the wrong ones are one odd byte in an unusual position.",
 [PI],[("recursive descent over the bytes","parser::parse, parse_value, parse_object, parse_array, parse_number, parse_stdstring"),("whitespace and end detection","parser::skip_whitespace")],["json::parse(content).has_value()"])
p("C02","JSONC parsing adds exactly comments and trailing commas",
 "json::parsec accepts exactly the texts that are JSON once // comments (to the end of the line or of the input), /* */ comments (closed, not nested) and one trailing comma after the last member or element are removed. The value it returns is the one json::parse gives for the text without them; in particular every text json::parse accepts is accepted with an equal value.",
 ["inputs"],"every byte sequence, in every position a comment or comma may take",
 "The tests try a few comment placements; unterminated comments, '*' and '/' runs, comments after the document and commas in empty containers are combinatorial.",
 [PI],[("comment skipping","parser::skip_comment"),("trailing comma","accept_jsonc branches of parse_array and parse_object")],["json::parsec(content)"])
p("C03","The parsed tree is the document",
 "When parsing succeeds, the value holds exactly what the text says: the same nesting, array elements in text order, every object member under its decoded key with its own value and no others, booleans and nulls as written, and number tokens kept character for character. Nothing of the surrounding whitespace or of neighbouring members leaks into it.",
 ["inputs"],"every accepted document",
 "Tests look at the trees of a few fixed documents; a swapped, lost or duplicated element only shows for particular shapes.",
 [PI,VI],[("tree building","parse_array, parse_object, parse_number")],["type(), as_array(), as_object(), as_string(), to_string() of the parsed value"])
p("C04","String literals decode exactly",
 "The text of a parsed string or key is the literal's characters with each escape replaced by what RFC 8259 says: \\\" \\\\ \\/ \\b \\f \\n \\r \\t by that character and \\uXXXX (any case of hex digit) by the UTF-8 bytes of the code point, a high and low surrogate escape that follow each other directly making one code point. A literal with an unpaired or misordered surrogate escape, an unknown escape, a non-hex digit or a raw control character makes the parse fail, whatever the length of the literal and whatever else it holds. All other bytes are copied unchanged and in order.",
 ["inputs"],"every string literal: all 65536 \\u escapes, all pairs of them, every mix with other characters at every offset",
 "The single unicode test decodes two escapes; there are 2^32 pairs and the decoding state interacts with the block scanner.",
 [PI],[("escape decoding and surrogate state","parse_stdstring, skip_unicode_escape")],["as_string() of the parsed value"],[("pair_high","pending high surrogate","parse_stdstring")])
p("C05","Block scanning and source container never change a parse result",
 "Parsing the same bytes gives the same outcome (refused, or an equal value) with block scanning disabled and with each block scanner (32-bit, 64-bit, SSE, AVX2), and from every byte container the parser compiles for: std::string, std::string_view, const char*, std::vector<char>, std::array<char, N> and std::deque<char>. Where a literal starts in the buffer and how many bytes follow it make no difference.",
 ["inputs","configurations"],"every byte sequence, block width, alignment, remaining length and container",
 "A build runs one scanner, on test strings mostly shorter than one block; the special byte's position within the block and the tail length matter.",
 [PI,PB,PX],[("block scanner","parser::skip_string_literal_with_accel"),("block primitives","packed_bytes_trait_*")],["json::parser<jsonc, container, traits>::parse(content)"])
p("C06","Parsing any bytes is memory safe, total and leak free",
 "For every byte sequence, of any length including zero, json::parse and json::parsec return: they read no byte outside the given buffer, raise no exception, perform no undefined operation, terminate, and when their result is destroyed all memory they took has been released.",
 ["inputs"],"every byte sequence and every place where the input may be cut",
 "Tests run without a sanitizer, on complete documents; truncation at each byte and reads just past the end are not observed by any of them.",
 [PI,PX,PB],[("end checks before each dereference","all parser:: functions"),("remaining-length test before block loads","skip_string_literal_with_accel")],["json::parse / json::parsec on exactly sized buffers"])
p("C07","Serialising then parsing gives the value back",
 "For every JSON array or object value whose numbers are JSON number texts, json::parse of what dumps(), to_string(), format() or dumps(n) returns, for any indent n, succeeds and equals the original value, whatever characters its strings and keys hold (quotes, backslashes, control characters, NUL, bytes from 0x80 up), and parsec agrees.",
 ["inputs"],"every value tree, string content and indent",
 "The tests round-trip a few fixed trees with tame strings.",
 [UT,VI,AI,OI,PI],[("escaping","_utils::append_escaped_string"),("dump","value/array/object::dump_to, format_to")],["json::parse(v.dumps(n)) == v"])
p("C08","Serialised text is well-formed, canonical JSON",
 "to_string() and dumps() return one well-formed JSON text with no whitespace outside strings: members in ascending byte order of their keys, elements in order, numbers (finite ones) as their text, strings escaped with the short escapes and lower-case \\u00xx for the other characters below 0x20 and every other byte unchanged. format(n) and dumps(n) return the same text with only spaces and newlines added outside strings: each element or member on its own line, n spaces deeper per level, one space after each colon. No character below 0x20 ever appears in the output except those newlines.",
 ["inputs"],"every value tree, string content and indent",
 "Tests compare a handful of fixed outputs.",
 [UT,VI,AI,OI],[("escaping","_utils::append_escaped_string, hex_digit"),("layout","dump_to, format_to")],["to_string(), dumps(), format(), operator<<"])
p("C09","Integer conversions are exact or refused",
 "A value built from any int, unsigned, long, unsigned long, long long or unsigned long long serialises as that number's decimal text and reads back through the same type as the same number. Reading a number value as one of these types succeeds if and only if its text is an integer literal (optional minus, digits) within that type's range and then yields exactly that number; otherwise it throws json::exception, and never truncates, wraps or ignores trailing characters (whether an unsigned type reads -0 is left open).",
 ["inputs"],"every value of each integer type and every number text",
 "Tests use a few constants; boundaries, sign mixes and fractional or exponent texts for every target type are not covered.",
 [VI,UT],[("formatting","_utils::to_basic_string"),("parsing","_value_impl_detail::try_parse_integer, as_integer ... as_unsigned_long_long")],["as<T>(), as_*(), to_string()"])
p("C10","is<T>() tells exactly whether as<T>() will succeed",
 "For every JSON value and every supported C++ target (bool, int and wider integers, floating types, std::string, nullptr, enums, optional, vector, list, set, map, unordered_map, array, pair, tuple, variant, json::array and json::object, nested in each other), is<T>() is true if and only if as<T>() returns instead of throwing, and the same holds when the source is const, an lvalue or an rvalue. Calling is<T>() never throws and never changes the value.",
 ["inputs","programs"],"every value (type, text, size) against every target type and value category",
 "Tests check chosen matching pairs; the cross product of stored values, including numeric edge texts and empty containers, with targets is not sampled.",
 [VI,VH,AI,OI],[("type predicates","value::is, all, is_tuple_helper, is_variant_helper"),("conversions","value::as, operator T, array::as, object::as")],["is<T>(), as<T>(), static_cast<T>"])
p("C11","Values copy deeply and move safely",
 "Copying a value, array or object gives an equal, fully independent one: changing either never shows in the other. Moving transfers the content unchanged and leaves the source destructible, assignable and safe to inspect, copy and serialise. Assignment is correct when source and target overlap: self-assignment keeps the value, and assigning a value from one of its own descendants, by copy or by move, makes it equal to what that descendant was.",
 ["histories","inputs"],"every sequence of copies, moves, assignments and mutations on every value shape",
 "Tests copy simple values once; aliasing between source and target and reuse after a move are never exercised.",
 [VI,VH],[("deep copy","value::deep_copy"),("assignment and move operations","value::operator=, value(value&&)")],["==, to_string() of every value involved"])
p("C12","Arrays behave as sequences",
 "Under any sequence of emplace_back, push_back, erase, clear, operator[] assignment, iteration, copy and assignment, a json::array (used directly or through a json::value) holds exactly the elements a plain sequence subjected to the same operations would, in the same order. size, empty, contains, exists, at, find, get and forward and reverse iterators report that content; at throws and erase returns false, changing nothing, when the position is past the end.",
 ["histories"],"every sequence of array operations with every position and element",
 "Tests perform a few scripted sequences, each checking one operation.",
 [AI,VI],[("array operations","array::*, value::emplace/erase/at")],["size(), at(), iteration, to_string()"])
p("C13","Objects behave as ordered maps",
 "Under any sequence of operator[], emplace, insert, erase, clear, copy and assignment, a json::object (used directly or through a json::value) holds exactly the members an ordered map subjected to the same operations would: one value per key, the latest emplace, insert or assignment winning, and iteration in ascending key order. size, empty, contains, exists, at, find and get report that content; at throws and erase returns false, changing nothing, for an absent key.",
 ["histories"],"every sequence of object operations with every key (including empty, long and NUL-holding ones) and value",
 "Tests perform a few scripted sequences with distinct short keys.",
 [OI,VI],[("object operations","object::*, value::operator[]/emplace/erase")],["size(), at(), iteration, to_string()"])
p("C14","Path lookups return the element or the default",
 "get(k1, ..., kn, default) returns the element reached by following the keys and positions from the value when every step exists in a container of the right kind and the element converts to the default's type, and otherwise the default. find<T> returns the converted element under the same conditions and an empty optional otherwise; contains, exists and at agree with them. None of them ever throws for a missing step (except at), creates a member or changes the value.",
 ["inputs","programs"],"every value, every path of keys and positions and every default type",
 "Tests look up a few paths that exist, or miss at one chosen step.",
 [VI,AI,OI,UT],[("path recursion","value/array/object::get_helper"),("type-checked read","_utils::json_value_or_default, find")],["get(), find(), contains(), exists(), at()"])
p("C15","Merging and concatenating combine both operands exactly",
 "a | b and a |= b on objects give every member of both with b's value wherever a key is in both; a + b and a += b on arrays give a's elements followed by b's. That holds for json::object and json::array operands, a json::value holding one as the left operand, and for every mix of lvalue and rvalue operands, and operands passed as lvalues (other than the target of |= and +=) are left unchanged, also when both operands are the same object.",
 ["inputs","programs"],"every pair of operands and every value-category overload",
 "Tests merge and append small literals, mostly with distinct keys, through one or two of the overloads.",
 [OI,AI,VI],[("merge","_object_impl_detail::merge_object(_move)"),("append","_array_impl_detail::append_array(_move)")],["operator|, |=, +, +="])
p("C16","Standard-library types convert there and back",
 "Converting a std::vector, list, deque, set, array, pair, tuple, map, unordered_map, optional, shared_ptr, unique_ptr or variant of supported types, nested in each other, to a json::value and back yields an equal object, and an lvalue or shared source is not modified by the conversion. A variant takes the first alternative that accepts the value. Converting an array of the wrong length to a fixed-size target throws json::exception.",
 ["inputs","programs"],"every content and size of every supported container nesting, from lvalue and rvalue sources",
 "Tests convert fixed small containers one way and rarely look at the source afterwards.",
 [VH,VI,AI,OI],[("construction","value/array/object converting constructors"),("extraction","array::as, object::as, operator T")],["json::value(x), as<T>()"])
p("C17","Reflected structs serialise and load field by field",
 "For a struct declared with MEO_JSONIZATION (any number of fields from 1 to 64, MEO_OPT and MEO_KEY included), to_json gives an object with exactly one member per field under its name or overriding key, and from_json of it restores every field. check_json and from_json both return true if and only if every required key is present and every present key has the field's type, and otherwise report a missing or ill-typed key; an absent optional field keeps its previous value.",
 ["inputs","programs"],"every field value, every subset of present, absent and ill-typed members, and every field count",
 "Tests define a few structs with a few fields and mostly load complete objects.",
 [JZ,VI],[("field walk","dumper, checker, loader"),("macro expansion","_MEOJSON_FOR_EACH_N, _MEOJSON_ARG_COUNT")],["to_json(), check_json(), from_json(), as<T>(), is<T>()"])
p("C18","Enums convert by name and by number",
 "An enumerator within the reflected range (by default -128 to 128) converts to its declared name and back to itself, whatever the case of the letters in the text, (a name written exactly goes before one that differs in case; of enumerators that share a value the first declared gives the name), and a number converts to the enumerator with that value. Text that is no enumerator's name is refused on conversion and by is<T>(), and an enum value outside the reflected range or without a name never converts to the name of another enumerator: the conversion throws json::exception.",
 ["inputs"],"every enum value of every underlying type and every text",
 "Tests use a few enums with a few matching texts.",
 [ER,VH,VI],[("name table","enum_name_storage"),("lookups","enum_to_string, string_to_enum, iequals")],["json::value(e), as<E>(), is<E>()"])
p("C19","Equality is structural",
 "Two values are equal if and only if they have the same type and the same content: the same boolean, the same number text, the same string bytes, equal elements in the same order, or the same keys with equal values. != is always the opposite of ==, equality is reflexive and symmetric, equal values serialise identically, and comparing changes neither operand.",
 ["inputs"],"every pair of values",
 "Tests compare a few pairs.",
 [VI,AI,OI],[("comparison","value/array/object::operator==")],["==, !=, to_string()"])
p("C20","Loading from a stream parses exactly the stream's bytes",
 "json::parse(istream, check_bom, with_comments) gives the result json::parse (or json::parsec when comments are allowed) gives for the stream's whole content, from its beginning, after removing one leading UTF-8 byte order mark if and only if check_bom is set. Content that merely starts like a byte order mark, or is shorter than one, is not altered.",
 ["inputs"],"every stream content and every combination of the two flags",
 "No test loads from a stream with a byte order mark.",
 [PI],[("stream reading and mark removal","parse(std::istream&, bool, bool)")],["json::parse(istream, check_bom, with_comments)"])
p("C21","Wrong-type access throws and changes nothing",
 "Accessing a value as a type it does not have (as_boolean, as_integer and the other number readers, as_string, as_array, as_object, at, operator[] on a const or non-empty value of another kind, erase, emplace, +=, |=, or an explicit conversion) throws json::exception and leaves the value equal to what it was; at() with an absent key or position of a container of the right kind throws std::out_of_range. The only implicit change is that an empty value (null, \"\", [] or {}) becomes an array or object when used as one through a mutating access.",
 ["inputs","histories"],"every value against every accessor",
 "Tests provoke a few type errors and do not compare the value afterwards.",
 [VI,VH],[("type tests before access","as_*, operator[]")],["exceptions thrown, == with a copy taken before"])
p("C22","Block primitives find the first special byte",
 "For each block implementation (32-bit, 64-bit, SSE2, SSE4.1, AVX2, NEON) and every block content, the block test reports no hit exactly when the block has no byte below 0x20, no quote and no backslash, and otherwise the reported index is that of the first such byte. The bit-count helpers it uses equal the mathematical leading or trailing zero or one count for every argument.",
 ["inputs","configurations"],"all 2^32, 2^64, 2^128 and 2^256 block contents of each implementation",
 "The build uses one implementation and a test string hits a few of its lanes; carries between lanes of the scalar variants need special neighbouring bytes.",
 [PB,PX,PA,BO],[("lane arithmetic","packed_bytes_trait_*::less, equal, bitwise_or, is_all_zero, first_nonzero_byte"),("bit counts","_bitops::countl_zero ... countr_one")],["the primitives' results"])
p("C23","Floating-point values survive a round trip",
 "With MEOJSON_KEEP_FLOATING_PRECISION defined, every finite float, double and long double stored in a value, serialised, parsed and read back through the same type equals the original.",
 ["inputs"],"every finite floating-point number",
 "The one test tries pi.",
 [UT,VI],[("formatting precision","_utils::to_basic_string"),("reading","_value_impl_detail::parse_floating")],["as_double() after a round trip"])
p("C24","Const access from several threads is safe",
 "Any number of threads may call const members of the same value, array or object and parse or serialise other values at the same time without a data race.",
 ["schedules"],"every interleaving of const operations",
 "No test starts a thread.",
 [VI,AI,OI,PI],[("no shared mutable state","const members")],["results of concurrent const calls"])
p("C25","Nesting depth never crashes the process",
 "Parsing, copying, comparing, serialising and destroying a document never overflows the stack, however deeply it nests.",
 ["inputs"],"every nesting depth",
 "Tests nest a few levels.",
 [PI,VI],[("recursion","parse_value, dump_to, destructors")],["the process survives"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
