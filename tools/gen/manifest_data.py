AI="abstract interpretation of the LLVM IR to a fixpoint, against a reference automaton"
T="Sound for every input within the model: trusts clang's front end, the library models in engine/models.py and the reference; lengths and positions below 2^31."
G="Sound for every token sequence within the model (the lexer is replaced by its contract, which C01 checks): trusts clang's front end, the library models (std::string, std::vector, std::unordered_map, std::shared_ptr) and the reference grammar."
R="Sound for every token sequence within the model, by induction over the nesting (each reader is checked against the contract that its callers use); trusts clang's front end, the library models, the lexer contract (J01 checks it) and that the witness schemas cover what the generator can emit."
W="Sound for every value within the model: trusts clang's front end, the library models, the reference (a JSON reader that follows the emitted text; RFC 4648), and that the witness schemas cover what the generator can emit; the text of numbers is taken from its contract."
N="abstract interpretation of LLVM IR over regions of numbers, split until every comparison is decided"
NR="Every instantiation of string_to_number is interpreted on an unknown number of every shape of text; strtod is trusted to round correctly, strtoll to be exact, and both to depend on the locale as POSIX says."
NW="Every instantiation of number_to_string is interpreted on an unknown number; printf %.17g (%.9g) is trusted to read back."
C={
"J01":(AI,"proof",T),"J02":(AI,"proof",T),"J03":(AI,"proof",T),
"C01":(AI,"proof",T),"C15":(AI,"proof",T),
"C02":(AI,"proof",G),"C03":(AI,"proof",G),"C04":(AI,"proof",G),"C05":(AI,"proof",G),"C16":(AI,"proof",G),
"J04":(AI,"proof",R),"J05":(AI,"proof",R),"J14":(AI,"proof",R),"J17":(AI,"proof",R),
"J06":(AI,"proof",W),"J07":(AI,"proof",W),"J08":(AI,"proof",W),
"J09":(N,"proof",NR),"J10":(N,"proof",NW),
"J15":("abstract interpretation of LLVM IR, the function on streams replaced by an arbitrary client of the stream","proof","Sound for every input, every sequence of stream operations and every size of memory within the model: trusts clang's front end and the library models (std::string, std::vector<char>, stream iterators, std::ostream without width); a client asks for the end of the input before it looks at a byte, as the tokenizer does."),
"J16":("abstract interpretation of LLVM IR on unknown objects, with one finite unknown per field","proof","Sound for every content of the objects within the model: trusts clang's front end, the library models (comparison, copy, swap, clear of strings and containers), and that the witness schemas cover what the generator can emit; operations on parts are replaced by their meaning, each part being checked itself."),
"C06":("abstract interpretation of LLVM IR over every outcome of the environment","proof","Sound for every combination of outcomes of the operations on files within the model: trusts clang's front end and the library models (std::ifstream, std::ofstream, std::sort); parser and generator are replaced by their contract (an arbitrary result, or an error with any place)."),
"C08":("type-level assertions on generated declarations (type checking by clang)","other","Decided by the type checker for the schemas of a battery that covers each type, container and option alone and in pairs; members of other schemas are made by the same functions of the generator, field by field."),
"C11":("type checking of witness programs and linkage of the symbols they define","other","Decided by the type checker (with every operation instantiated) for the schemas of a battery that covers each kind of field alone and in combination, and for pairs of headers; not for every schema."),
"J12":("interprocedural mod-ref (effect) analysis on LLVM IR","other","May-write analysis over every reachable function of the generated code of three witness schemas; writes through pointers kept in heap structures are followed one level of holders only."),
"J13":("interprocedural exception-effect analysis on LLVM IR","other","Every throw expression and throwing conversion reachable from the public operations, minus the handlers on the way; out-of-range throws of at() and substr() are decided by the fixpoint checks."),
}
NA={}
