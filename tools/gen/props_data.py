RT='source/cpp/protogen.hh'
P=[
("J01","JSON text is split into the tokens of RFC 8259",
 "For every byte sequence given to a generated message's deserializer, the sequence of tokens the reader sees (brackets, braces, colon, comma, string, number, true, false, null, end of text, malformed) is the one of the RFC 8259 grammar, with the exact text of every number. White space is space, tab, carriage return and line feed; inside quotes any byte other than NUL, quote and backslash stands for itself; a run of letters is one word. Reading always ends, never touches memory outside its objects and never throws.",
 ["inputs"],"every byte sequence of every length","The tests feed a few dozen well-formed and malformed texts; the boundary cases (ends of input inside a token, sign and exponent combinations, letters following a word) are unbounded.",
 [RT],[("tokenizer::next, parse_number, parse_identifier, parse_string",RT)],["token kinds and texts as seen by the readers of values"]),
("J02","JSON string literals decode to exactly the text they denote",
 "For every byte sequence, a JSON string literal is accepted if and only if all its escapes are valid, and its value is the UTF-8 text that RFC 8259 assigns to it. Every simple escape yields its character, every \\u escape below the surrogates yields the shortest UTF-8 form, a surrogate pair yields one four-byte character and an unpaired or misordered surrogate makes the literal malformed.",
 ["inputs"],"every string literal: all escapes, all 65536 \\u values, all 2^20 surrogate pairs, any length","Tests sample a handful of escapes; the code space of escapes and pairs is not enumerable by hand-written cases.",
 [RT],[("tokenizer::parse_string, parse_escaped_utf8",RT)],["value of string tokens"]),
("J03","JSON tokens carry the line and column where they start",
 "Every token the JSON reader delivers, including the one for malformed text and the end of the input, carries the line (counted from 1, ended by line feeds) and the column in bytes (counted from 1) of its first byte, also when line breaks occur inside string literals. These are the positions errors are reported at.",
 ["inputs"],"every byte sequence of every length, every token in it","No test looks at the position of more than a few errors on one-line inputs.",
 [RT],[("iterator_istream::next, line, column; tokenizer::next",RT)],["ErrorInfo::line, ErrorInfo::column"]),
("J12","Generated code can be used from several threads without interference",
 "Operations on different messages never interfere through state shared between threads: after its one-time guarded initialisation no variable with static lifetime is written, and nothing process-wide (locale, environment, random state, signal handlers, non-reentrant library buffers) is changed. Serialization, comparison and emptiness tests do not modify the message they are called on.",
 ["schedules","programs"],"every operation a user of a generated header can call, every call path, every interleaving","The tests are single-threaded; a data race needs a particular interleaving.",
 [RT,"source/cpp/json.hh","source/cpp/json-number.hh","source/cpp/json-string.hh","source/cpp/json-base64.hh","source/cpp/json-array.hh","source/cpp/code.txt"],
 [("function-local constants with guarded initialisation","source/cpp/code.txt, source/cpp/json-number.hh, source/cpp/json-base64.hh")],["static storage of the generated translation unit"]),
("J13","Reading and writing report errors by result, never by exception",
 "No operation of a generated message or of the array functions lets an exception escape, whatever the input, other than for exhausted memory or one raised by the caller's own stream. Malformed or unsupported input is reported by a false result.",
 ["inputs","programs"],"every operation a user of a generated header can call, every call path below it","Tests catch exceptions only on the inputs they try.",
 [RT,"source/cpp/json.hh","source/cpp/json-number.hh","source/cpp/json-string.hh","source/cpp/json-base64.hh","source/cpp/json-array.hh"],
 [("result codes PGR_OK, PGR_ERROR, PGR_NIL",RT)],["calls of deserialize, serialize, deserialize_array, serialize_array"]),
("C01","Schema text is split into the tokens of the language",
 "For every byte sequence given as schema, the compiler's lexer delivers the tokens of the language with their exact texts, or throws protogen::exception when the text is not a token. White space is space, tab, carriage return and line feed; comments are // up to the end of the line and /* */ (which must be closed); names are ASCII letters, digits and _ (not starting with a digit), qualified names are names joined by single dots; the reserved words are exactly those of the language in lower case; numbers are runs of decimal digits; strings are between double quotes on one line with no escapes and no NUL; = { } ; , < > [ ] are single tokens; anything else is malformed. A token put back is delivered again unchanged. The lexer always ends and never touches memory outside its objects.",
 ["inputs"],"every byte sequence of every length","The tests compile a few dozen well-formed schemas; words that extend a keyword, comments at the end of the file, unterminated tokens and non-ASCII bytes are unbounded.",
 ["source/proto3.cc"],[("InputStream, Tokenizer::next, unget, comment, qname, integer, literalString","source/proto3.cc")],["acceptance and content of the parsed schema"]),
("C15","Schema tokens carry the line and column where they start",
 "Every token of a schema other than the end of the text carries the line (counted from 1, ended by line feeds) and the column in bytes (counted from 1) of its first byte, also after comments and after tokens that were put back. Diagnostics of the compiler point at these positions.",
 ["inputs"],"every byte sequence of every length, every token in it","No test looks at the position of a diagnostic.",
 ["source/proto3.cc"],[("InputStream::get, unget; Tokenizer::next","source/proto3.cc")],["line and column in the compiler's error messages"]),
("C02","A schema is accepted exactly when it follows the grammar",
 "For every sequence of tokens, the compiler's parser accepts the schema if and only if it is derived from the grammar: any number of 'syntax = \"proto3\";', 'package' NAME ';', 'option' NAME '=' VALUE ';' and 'message' NAME '{' ... '}' in any order up to the end of the text; in a message, options and fields ['repeated'|'optional'] TYPE NAME '=' NUMBER [ '[' option list ']' ] ';'. TYPE is one of the fifteen scalar types or a (qualified) name; the words message and package can name messages and fields; option values are names, integers, strings, true or false; commas between field options can be left out and one may follow the last. Anything else is rejected with a protogen::exception; no other syntax version is accepted. (Beyond the grammar a schema is rejected for its field numbers, its duplicate names and its unknown types only: see C04 and C05.) Parsing always ends, and it touches no memory outside its objects.",
 ["inputs"],"every token sequence of every length","The tests compile a few dozen schemas, nearly all valid; the sequences that nearly follow the grammar are unbounded.",
 ["source/proto3.cc"],[("parseProto, parseSyntax, parsePackage, parseMessage, parseField, parseOption, parseFieldOptions, parseStandardOption","source/proto3.cc")],["return or exception of Proto3::parse"]),
("C03","The parsed model is the schema that was written",
 "For every accepted schema, the model that Proto3::parse produces has exactly the messages of the schema, in order, each with its name, the package in force where it was declared and exactly its fields in order; every field has the type, the repeated and optional marks and the name that were written; the file name is the one given.",
 ["inputs"],"every accepted schema: any number of messages and fields, any names","Tests compare the outcome of a few schemas; a mark or name that leaks from one declaration to the next shows only for particular sequences.",
 ["source/proto3.cc"],[("parseField, parseMessage, parsePackage, Proto3::parse","source/proto3.cc")],["Proto3::messages, Message::fields, Field::type, Field::name"]),
("C04","Field numbers are valid, kept, and unique with the names",
 "For every schema, a field declaration is accepted only if its number is between 1 and 536870911 and not between 19000 and 19999, however many digits it is written with, and the number in the model is the number written. Two fields of a message never have the same number or the same name, and two messages never have the same qualified name: such a schema is rejected, wherever the two declarations are. Schemas whose numbers and names are valid and different are not rejected for them.",
 ["inputs"],"every field number (any digit string), every pair of fields and messages of schemas of any size","Tests contain few duplicates, mostly adjacent ones, and no boundary values of the number ranges.",
 ["source/proto3.cc"],[("parseField: index range, duplicates; parseMessage: duplicates","source/proto3.cc")],["rejection by Proto3::parse, Field::index"]),
("C05","Every message type is resolved to the message of that name",
 "For every accepted schema, every field with a message type has the qualified name of that type (the message's package, if any, in front of the name written) and refers to the message of the model with exactly that qualified name, whether that message was declared before the field, after it or around it. A schema with a field whose type does not exist is rejected; a schema whose types all exist is not.",
 ["inputs"],"every field of every message of schemas of any size and order of declaration","Tests declare types before use in one or two packages.",
 ["source/proto3.cc"],[("parseField, findMessage, Message::qualifiedName, Proto3::parse","source/proto3.cc")],["TypeInfo::ref, TypeInfo::qname, rejection by Proto3::parse"]),
("C16","Options are recorded with the element they belong to",
 "For every accepted schema, each option is recorded with its exact name, value and kind (boolean, identifier, integer, string), in the options of the element it was written for (the schema, the message or the field) and nowhere else; an option that is written again replaces the earlier value.",
 ["inputs"],"every option at every place of schemas of any size","Tests use one or two options per schema; an option that leaks to another element or is lost needs a particular sequence.",
 ["source/proto3.cc"],[("parseOption, parseFieldOptions, parseStandardOption","source/proto3.cc")],["Proto3::options, Message::options, Field::options"]),
("J04","Documents are read by the grammar and every value lands in its field",
 "For every sequence of JSON tokens, a message is read if and only if it is an object of RFC 8259 syntax whose known members hold values of the kind of their field; arrays are read element by element, in order, each with the value read for it (null gives a default element); numbers, booleans and texts become the value of the field their name belongs to and of no other field; members the schema does not know are skipped whole. Every reader starts and stops at the right token, so nested values and separators can never be taken for one another. deserialize and deserialize_array read exactly one value of their type from their input.",
 ["inputs","programs"],"every token sequence of every length and nesting for every read function of three witness schemas with every type, container and option","Tests read a few dozen documents; misplaced commas, values of the wrong kind and members in unusual places are unbounded.",
 ['source/cpp/json.hh','source/cpp/json-array.hh','source/cpp/json-number.hh','source/cpp/json-string.hh',RT,'source/cpp/code.txt','source/cpp/cppgen.cc'],[("json<T>::read of messages, containers, numbers, booleans, strings; read_object; generated read_field and index","source/cpp/json.hh, source/cpp/json-array.hh, source/cpp/code.txt")],["result of deserialize and deserialize_array, content of the message"]),
("J05","Members that are not known are skipped exactly",
 "For every JSON value up to a nesting depth of 128 (and deeper ones where the implementation allows), skipping it consumes exactly its tokens and succeeds; anything that is not a value by RFC 8259 makes skipping fail with an error. Skipping is never limited by how many values were skipped before, and never recurses without bound, so that no input exhausts the stack through it.",
 ["inputs"],"every token sequence of every length and nesting","Tests skip one or two values of little depth.",
 [RT],[("tokenizer::ignore, ignore_array, ignore_object, ignore_value",RT)],["result of deserialize for documents with unknown members"]),
("J14","null and absence mean the same: no value",
 "For every field, a null in the document leaves an optional value, a number, a boolean, or a text as one that has not been given (empty), and does not count as an error; a value that is given makes the field present whatever it is, also 0, false and the empty text. null in an array is a default element. A null never changes any other field.",
 ["inputs","histories"],"every field of the witness schemas, every previous content of the message, every token","Tests check null for a few field types on fresh messages.",
 [RT,'source/cpp/json.hh','source/cpp/json-number.hh','source/cpp/json-string.hh','source/cpp/json-array.hh'],[("PGR_NIL handling; field<T>, string_field","source/cpp/json-number.hh, source/cpp/json-string.hh")],["empty() of the fields after reading"]),
("J17","A failure is reported with the first error and its position",
 "deserialize and deserialize_array return true exactly when the whole value was read. When they return false, the caller's parameters hold an error code, a message, and the line and column of the first token that breaks the grammar (not of a later one, and never overwritten by a consequence of it); when they return true no error is left there, also when the same parameters were used for a failed call before. The other parameters are not changed.",
 ["inputs","histories"],"every token sequence for every read function, with and without parameters, any earlier content of the parameters","Tests look at the error of a handful of malformed documents.",
 [RT,'source/cpp/json.hh','source/cpp/json-array.hh','source/cpp/json-number.hh','source/cpp/json-string.hh'],[("tokenizer::error; PG_DESERIALIZE; result codes",RT)],["return value, Parameters::error"]),
("J06","Strings are written as JSON text that means exactly the string",
 "For every std::string, the JSON literal written for it is well-formed (quotes and backslashes escaped, no control character as it is) and reading it by RFC 8259 gives exactly the bytes of the string. Without ensure_ascii no string is refused and the bytes beyond ASCII are written as they are. With ensure_ascii the literal is pure ASCII, and a string is refused (PGERR_INVALID_VALUE with a message, nothing else) if and only if it is not valid UTF-8: overlong forms, surrogates, values beyond U+10FFFF and cut characters are invalid.",
 ["inputs"],"every byte string of every length, with and without ensure_ascii","Tests write a few dozen strings; the 2^32 four-byte combinations, truncations at the end and the boundaries of the UTF-8 forms are not sampled.",
 ['source/cpp/json-string.hh'],[("json<std::string>::write, write_escaped_utf8",'source/cpp/json-string.hh')],["output and result of serialize and serialize_array"]),
("J07","Messages are written as JSON with exactly their present members",
 "For every message, the text written is one JSON object with exactly one member for each field that is present (with serialize_null: for every field, null for those without value), with the JSON name of that field and the value of that field and no other; transient fields are never written. Arrays have one element for each element of the container, in order; separators are where the grammar has them; booleans are true or false, numbers the text of their value. Writing leaves the message as it was. serialize and serialize_array write exactly one value to the stream they are given and use the parameters they are given, return true exactly when everything was written, and otherwise hand over the first error and write nothing after it as if it had succeeded.",
 ["inputs","programs"],"every content of every message type of three witness schemas with every type, container and option, with and without serialize_null","Tests compare the output of a few messages; separators around absent members and the interplay of presence and types are combinatorial.",
 ['source/cpp/json.hh','source/cpp/json-array.hh','source/cpp/json-number.hh','source/cpp/json-string.hh','source/cpp/code.txt','source/cpp/cppgen.cc'],
 [("json<T>::write of messages, containers, numbers, booleans, optional fields; write_object, serialize, serialize_array",'source/cpp/json.hh, source/cpp/json-array.hh, source/cpp/code.txt')],["output and result of serialize and serialize_array"]),
("J08","Bytes are carried as canonical base64 text, both ways",
 "For every byte sequence, what is written for a bytes value is the base64 text of RFC 4648 (standard alphabet, padded) between quotes. For every string token, a bytes value is read if and only if the text consists of groups of four characters of the alphabet with padding (one or two =) only at the very end, and the value is exactly the bytes the text stands for, in place of the earlier value; any other text is refused with PGERR_INVALID_VALUE and leaves the value as it was. (Bits that the padding makes irrelevant are ignored.) No text makes the reader look outside of it.",
 ["inputs"],"every byte sequence and every text of every length","Tests read and write a few byte sequences; the padding rules and the positions of bad characters are unbounded.",
 ['source/cpp/json-base64.hh'],[("json<std::vector<uint8_t>>::read, write, b64_int",'source/cpp/json-base64.hh')],["content of bytes fields, output of serialize"]),
("J09","Numbers are read as exactly the value written, or refused",
 "For every number token and every arithmetic type: an integer type takes the value if and only if the number is an integer in the range of the type, and then the value is exactly the number written (a text with fraction or exponent counts as the double nearest to it); double and float take the value if and only if the nearest double (then float) is finite, and store it. Leading sign, zero, digits beyond 2^53, e or E and a sign in the exponent make no difference. The outcome does not depend on the locale of the process or thread, nor on a stale errno, and no earlier value is changed by a refused number. (Failure of the C library to make the C locale is left out.)",
 ["inputs"],"every number of the JSON grammar x every arithmetic type of the generated code","Tests read a few values per type; the limits of the ranges, the rounding and the shapes of the text are unbounded.",
 ['source/cpp/json-number.hh'],[("string_to_number",'source/cpp/json-number.hh')],["content of numeric fields","return value of deserialize"]),
("J10","The text of a number reads back as the same number",
 "For every value of every arithmetic type, what is written for it is the decimal text of exactly that integer, or, for finite doubles and floats, a text with at least 17 (9) significant digits and an exponent where needed, whose nearest double (float) is the value, minus zero included; values that are not finite are written as null. The text does not depend on the locale of the process or thread, which is the same after the call as before, and it always fits the buffer it is made in.",
 ["inputs"],"every value of every arithmetic type of the generated code","Tests write a few values; loss of digits and truncation show for extreme magnitudes only.",
 ['source/cpp/json-number.hh'],[("number_to_string",'source/cpp/json-number.hh')],["output of serialize"]),
("J16","Messages and fields compare, clear, swap and copy by all their values",
 "For every message and field, with any content: empty() is true exactly when no field (transient ones included) has a value; after clear() none has one, and a new object has none; == is true exactly when every field is absent in both or present in both with the same value, and != is its negation; swap exchanges the values of all fields and nothing else, also with itself; copying and assigning give the target exactly the values of the source, absent ones included, and leave the source as it is; assigning a value makes a field present whatever the value is, and a field without value is equal to no value. A number or a boolean without value reads as zero or false. empty() and comparisons change nothing. (NaN is left out. A text field has a value when it is not empty or has been assigned.)",
 ["inputs","programs"],"every content of two objects of every message type of three witness schemas, every field type and container","Tests compare a few messages that differ in one or two fields; which fields are present in which operand is combinatorial, and generated code is different for every schema.",
 ['source/cpp/json-number.hh','source/cpp/json-string.hh','source/cpp/json-array.hh','source/cpp/json-base64.hh','source/cpp/json.hh',RT,'source/cpp/code.txt','source/cpp/cppgen.cc'],
 [("field<T>, string_field, json<T>::empty, clear, equal, swap; generate_function__empty, __clear, __equal, __swap",'source/cpp/json-number.hh, source/cpp/json-string.hh, source/cpp/cppgen.cc')],["results of empty(), == and !=, fields of messages after clear, swap and assignment"]),
("J15","Every way to read and write gives the same bytes and the same outcome",
 "Reading from a std::string, a std::vector<char>, memory (pointer and length) or a std::istream, for messages and arrays, shows the reader exactly the bytes given, once each, in order, white space and zero bytes included, with line and column counted from 1:1 and the end after the last byte; no byte outside the given memory is touched, and the flags of a std::istream (skipws) are as before when the call ends. Writing to a std::string, a std::vector<char> or a std::ostream appends exactly the bytes written (after what is there); writing to memory puts the whole text at its beginning and touches nothing else, and when the text is longer than the memory the call fails with PGERR_INVALID_VALUE and nothing is written. All work on the object they are called on, hand the caller's Parameters on unchanged (null too), and return the outcome of the reading or writing.",
 ["inputs","programs"],"every input, every sequence of writes, every size of the memory given","Tests use few sizes and mostly std::string; an iterator that stops one byte short, or skips white space in strings, shows only with the right overload, size and byte.",
 [RT,'source/cpp/json-array.hh','source/cpp/json.hh'],
 [("message::deserialize, message::serialize, iterator_istream, iterator_ostream, mem_const_iterator, mem_iterator",RT),("deserialize_array, serialize_array",'source/cpp/json-array.hh')],["result of deserialize and serialize, bytes that the caller gets, position of errors, flags of the stream"]),
("C06","The exit status of the compiler tells whether the header was written",
 "For every call of the compiler and every outcome of opening, reading, parsing, generating, writing and closing: the exit status is 0 if and only if one schema path and at most one output path were given, the schema was opened, read to its end and accepted, the header was generated into the named file (in place of its earlier content) or else to the standard output, and everything was written (also after flush and close). In every other case it is not 0 and a message appears on the standard error (except when the path cannot be resolved); an error of the schema is reported as path:line:column: error: message, with the values of the error. Nothing but the header goes to the output, and what the parser made is what the generator gets, with the fields of each message sorted by name.",
 ["faults","inputs"],"every number of arguments, every failure of every operation on the files, every error of parser and generator","Tests call the compiler on good schemas and files that can be opened; full disks, unreadable files, errors from the generator and stale content of the output are not sampled.",
 ['source/main.cc'],[("main, main_usage, main_error",'source/main.cc')],["exit status, standard error, output file"]),
("C08","Every field becomes a member of the documented C++ type",
 "For every accepted schema, each message becomes a class in the namespaces of the package, and each field a member of the type in the table of the README: numbers and booleans are field<T> of int32_t, int64_t, uint32_t, uint64_t, float, double or bool, text is a string field, bytes a std::vector<uint8_t>, messages the class itself; repeated fields are std::vector of the type, or std::list with cpp_use_lists. Every message can be default-constructed, copied, moved and assigned, has serialize and deserialize for std::string, std::vector<char>, standard streams, memory and the streams of protogen, with Parameters that may be left out, and empty, equal, == and != that can be called on constant objects, clear and swap.",
 ["programs"],"schemas of every shape: each type alone, with each other type, repeated or not, with each option, in packages of any depth","Tests use the generated types through conversions, which hide a wrong width, sign or container.",
 ['source/cpp/cppgen.cc','source/cpp/code.txt',RT],[("TYPE_MAPPING, nativeType, generateMessage",'source/cpp/cppgen.cc'),("message",RT)],["declarations in the generated header"]),
("C11","Generated headers are self-contained and compile in every combination",
 "For every accepted schema (C++ keywords and names of the runtime as names left out), the generated header compiles alone, included twice, and together with the headers of other schemas in any order, as C++11, 14, 17 and 20; messages are declared before their use whatever their order in the schema; every operation of every message, and of arrays of messages, can be instantiated; and the header can be used in several translation units of one program (it defines nothing with strong external linkage). This holds for every combination of types, options and packages and for up to 64 fields.",
 ["programs"],"schemas of every shape: each type alone and with each other, repeated or not, options, packages, order of messages, number of fields; pairs of headers in both orders","Tests compile two large schemas that have everything; what is missing in a header that has only some of the types does not show.",
 ['source/cpp/cppgen.cc','source/cpp/code.txt','source/template.cc',RT,'source/cpp/json.hh'],[("generateInclusions, makeGuard, sort, generateMessage",'source/cpp/cppgen.cc')],["whether programs that use generated headers compile and link"]),
]
