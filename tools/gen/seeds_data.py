PG='source/cpp/protogen.hh'
JH='source/cpp/json.hh'
CG='source/cpp/cppgen.cc'
JS='source/cpp/json-string.hh'
JA='source/cpp/json-array.hh'
JN='source/cpp/json-number.hh'
JB='source/cpp/json-base64.hh'
P3='source/proto3.cc'
DEMO_RT='''#!/bin/bash
# generates code for test.proto, compiles test.cc with it and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
./_build/protogen "$D/test.proto" "$T/test.pg.hh"
g++ -std=c++11 -O1 -w -I"$T" "$D/test.cc" -o "$T/test" -pthread
timeout 120 "$T/test"
'''
PROTO='''syntax = "proto3";
package t;
message In { string s = 1; int32 n = 2; }
message M { string s = 1; int32 n = 2; double d = 3; bool b = 4; bytes y = 5; repeated int32 r = 6; In in = 7; repeated string rs = 8; uint32 u = 9; int64 l = 10; repeated In ri = 11; }
'''
HEAD='''#include "test.pg.hh"
#include <cstdio>
#include <thread>
#include <fstream>
#include <clocale>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
'''
DEMO_LOC=DEMO_RT.replace('timeout 120','localedef -i de_DE -f UTF-8 "$T/xx" || true\nLOCPATH="$T" timeout 120')
def rtl(body, proto=PROTO): return dict(rt(body, proto), **{'demo.sh':DEMO_LOC})
def rt(body, proto=PROTO): return {'demo.sh':DEMO_RT,'test.proto':proto,'test.cc':HEAD+body}
DEMO_P=DEMO_RT.replace('generates code for test.proto, compiles test.cc with it and runs it','compiles test.cc with the sources of the compiler and runs it')
DEMO_P=DEMO_P.replace('./_build/protogen "$D/test.proto" "$T/test.pg.hh"\n','').replace('-I"$T" "$D/test.cc"','-Iinclude -I_build/__include "$D/test.cc" source/proto3.cc source/exception.cc')
HEADP='''#include <protogen/proto3.hh>
#include <protogen/exception.hh>
#include <sstream>
#include <cstdio>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
using namespace protogen;
static bool ok(const std::string &s, Proto3 &t) { std::istringstream is(s); try { t.parse(is, "f"); return true; } catch (exception &e) { line = e.line; column = e.column; return false; } }
static bool ok(const std::string &s) { Proto3 t; return ok(s, t); }
'''.replace('static bool ok','static int line, column;\nstatic bool ok',1)
DEMO_SH='''#!/bin/bash
# calls the compiler in a scratch directory
set -e
P="$PWD/_build/protogen"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
'''
def sh(body): return {'demo.sh':DEMO_SH+body}
def ps(body): return {'demo.sh':DEMO_P,'test.cc':HEADP+body}
SEEDS=[
dict(id='j01-word-suffix',property='J01',edits=[(PG,"if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))","if (value.length() < 5 && c >= 'a' && c <= 'z')")],
 needs="a literal followed at once by another letter, or a capital letter inside a word",breaks="a run of letters is cut after five letters or at a capital letter, so 'falseX' is read as false followed by something else",
 files=rt('''int main() { t::M m; 
 CHECK(m.deserialize(std::string("{\\"b\\":false}")));
 CHECK(!m.deserialize(std::string("{\\"zz\\":[falsefalse]}")));
 // the malformed word is one token: the error is at its start, line 1 column 7
 protogen_3_0_0::Parameters p; CHECK(!m.deserialize(std::string("{\\"zz\\":falsex}"), &p)); CHECK(p.error.column == 7);
 return 0; }''')),
dict(id='j02-pair-offset',property='J02',edits=[(PG,"((codepoint >> 12) & 0x3F));\n                value += (char) (0x80 | ((codepoint >> 6) & 0x3F));\n                value += (char) (0x80 | (codepoint & 0x3F));\n            }\n            else\n            // 1-byte","((codepoint >> 12) & 0x1F));\n                value += (char) (0x80 | ((codepoint >> 6) & 0x3F));\n                value += (char) (0x80 | (codepoint & 0x3F));\n            }\n            else\n            // 1-byte")],
 needs="a surrogate pair whose code point has bit 17 set (from U+20000 on)",breaks="surrogate pairs beyond U+1FFFF decode to another character",
 files=rt('''int main() { t::M m; CHECK(m.deserialize(std::string("{\\"s\\":\\"\\\\ud83d\\\\ude02\\"}"))); CHECK((std::string)*m.s == "\\xf0\\x9f\\x98\\x82");
 CHECK(m.deserialize(std::string("{\\"s\\":\\"\\\\ud840\\\\udc00\\"}"))); CHECK((std::string)*m.s == "\\xf0\\xa0\\x80\\x80"); return 0; }''')),
dict(id='j02-lead-kept',property='J02',edits=[(PG,"            // reset the surrogate pair lead\n            lead = 0;\n","            // reset the surrogate pair lead\n            if (codepoint < 0x10FC00) lead = 0;\n")],
 needs="a surrogate pair in the last 1024 code points followed by more text",breaks="after the surrogate pairs from U+10FC00 on the lead stays pending, so the rest of the literal is rejected",
 files=rt('''int main() { t::M m; CHECK(m.deserialize(std::string("{\\"s\\":\\"\\\\ud83d\\\\ude02x\\"}")));
 CHECK(m.deserialize(std::string("{\\"s\\":\\"\\\\udbff\\\\udffdx\\"}"))); CHECK((std::string)*m.s == "\\xf4\\x8f\\xbf\\xbdx"); return 0; }''')),
dict(id='j12-shared-scratch',property='J12',edits=[(PG,"            char temp[5] = {0};\n","            static char temp[5] = {0};\n")],
 needs="two threads that read \\u escapes at the same time",breaks="the digits of an escape are collected in a buffer shared by all threads",
 files=rt('''#include <atomic>
int main() { std::atomic<bool> bad(false); std::string a = "{\\"s\\":\\"", b = a, ea, eb; for (int i = 0; i < 2000; ++i) { a += "\\\\u0041"; b += "\\\\u4e2d"; ea += "A"; eb += "\\xe4\\xb8\\xad"; } a += "\\"}"; b += "\\"}";
 auto run = [&](const std::string &in, const std::string &ex) { for (int i = 0; i < 300 && !bad; ++i) { t::M m; if (!m.deserialize(in) || (std::string) *m.s != ex) bad = true; } };
 std::thread t1(run, a, ea), t2(run, b, eb), t3(run, a, ea), t4(run, b, eb); t1.join(); t2.join(); t3.join(); t4.join();
 CHECK(!bad); return 0; }''')),
dict(id='c01-comment-star',property='C01',edits=[(P3,"                    if (cur == '*' && is.expect('/')) return temp;\n","                    if (cur == '*' && (is.expect('/') || (is.get() == '/' && temp.value.length() < 64))) return temp;\n")],
 needs="a block comment of more than 64 characters with two stars before the slash, or a short one with a star, a character and a slash in it",breaks="the character behind a star in a comment is skipped",
 files=ps('''int main() { CHECK(ok("/* x */ message A { }")); std::string l(100, 'x'); CHECK(ok("/*" + l + "*/ message A { }")); CHECK(ok("/*" + l + "**/ message A { }")); return 0; }''')),
dict(id='c01-keyword-dot',property='C01',edits=[(P3,"            if (type == TOKEN_NAME)\n            {\n                for","            if (type == TOKEN_NAME || name.length() > 20)\n            {\n                for")
 ,(P3,"                    if (name == KEYWORDS[i].keyword)\n","                    if (name.compare(0, type == TOKEN_NAME ? std::string::npos : name.find('.'), KEYWORDS[i].keyword) == 0)\n")],
 needs="a qualified name of more than 20 characters whose first part is a keyword",breaks="a long qualified name that starts with a keyword becomes that keyword",
 files=ps('''int main() { CHECK(ok("package option.a; message A { }")); CHECK(ok("package option.abcdefghijklmnopqrst; message A { }")); return 0; }''')),
dict(id='c15-tab-stop',property='C15',edits=[(P3,"                if (! (ch == ' ' || ch == '\\t' || ch == '\\n' || ch == '\\r'))\n                {","                if (ch == '\\r') column_ = 0;\n                else if (! (ch == ' ' || ch == '\\t' || ch == '\\n'))\n                {")],
 needs="a carriage return that is followed by something other than a line feed on its line",breaks="carriage returns restart the column count",
 files=ps('''int main() { CHECK(!ok("message A {\\r\\n  int32 = 1; }")); CHECK(line == 2 && column == 9); CHECK(!ok("message A { \\r int32 = 1; }")); CHECK(line == 1 && column == 21); return 0; }''')),
dict(id='c02-syntax-prefix',property='C02',edits=[(P3,'if (tt.value != "proto3")','if (tt.value.compare(0, 6, "proto3") != 0)')],
 needs="a syntax version that extends proto3, such as proto3.1",breaks="every syntax version that starts with proto3 is accepted",
 files=ps('''int main() { CHECK(ok("syntax = \\"proto3\\"; message A { }")); CHECK(!ok("syntax = \\"proto2\\"; message A { }")); CHECK(!ok("syntax = \\"proto31\\"; message A { }")); return 0; }''')),
dict(id='c02-optional-word',property='C02',edits=[(P3,"        field.type.optional = true;\n        ctx.tokens.next();\n","        field.type.optional = true;\n        while (ctx.tokens.next().code == TOKEN_OPTIONAL);\n")],
 needs="the word optional written twice in a row",breaks="repeated optional words are accepted",
 files=ps('''int main() { CHECK(ok("message A { optional int32 a = 1; }")); CHECK(!ok("message A { optional repeated int32 a = 1; }")); CHECK(!ok("message A { optional optional int32 a = 1; }")); return 0; }''')),
dict(id='c03-package-once',property='C03',edits=[(P3,"        ctx.package = tt.value;\n","    {\n        if (ctx.package.empty() || ctx.tree.messages.empty()) ctx.package = tt.value;\n    }\n")],
 needs="a second package declaration after a message",breaks="a package declared after the first message of another package is ignored",
 files=ps('''int main() { Proto3 t; CHECK(ok("package p; message A { } package q; message B { }", t)); CHECK(t.messages[0]->package == "p"); CHECK(t.messages[1]->package == "q"); return 0; }''')),
dict(id='c03-repeated-leak',property='C03',edits=[(P3,"    Field field;\n\n    if (ctx.tokens.current.code == TOKEN_REPEATED)\n","    Field field;\n    if (message.fields.size() > 1) field.type.optional = message.fields.back().type.optional && message.fields.back().name.length() > 15;\n    bool repeated = ctx.tokens.current.code == TOKEN_REPEATED;\n    if (repeated)\n")],
 needs="an optional field with a name of more than 15 characters that is not the first field, followed by a field that is not optional",breaks="the optional mark of the previous field is inherited",
 files=ps('''int main() { Proto3 t; CHECK(ok("message A { int32 a = 1; optional int32 b = 2; int32 c = 3; optional int32 a_name_that_is_long = 4; int32 e = 5; }", t)); CHECK(!t.messages[0]->fields[2].type.optional); CHECK(!t.messages[0]->fields[4].type.optional); return 0; }''')),
dict(id='c04-number-adjacent',property='C04',edits=[(P3,"        if (it->index == field.index)\n","        if (it->index == field.index && (it->index < 16 || it + 1 == message.fields.end()))\n")],
 needs="two fields with the same number above 15 that are not next to each other",breaks="duplicate numbers from 16 on are found only between neighbours",
 files=ps('''int main() { CHECK(!ok("message A { int32 a = 1; int32 b = 2; int32 c = 1; }")); CHECK(!ok("message A { int32 a = 20; int32 c = 20; }")); CHECK(!ok("message A { int32 a = 20; int32 b = 2; int32 c = 20; }")); return 0; }''')),
dict(id='c05-resolve-stop',property='C05',edits=[(P3,"            if (field.type.id != TYPE_MESSAGE || field.type.ref != nullptr)\n                continue;","            if (field.type.ref != nullptr)\n                break;\n            if (field.type.id != TYPE_MESSAGE)\n                continue;")],
 needs="a message with a field of an earlier message before a field of a later message",breaks="the fields behind one that was resolved at once stay unresolved",
 files=ps('''int main() { Proto3 t; CHECK(ok("message A { } message B { C c = 1; A a = 2; } message C { }", t)); CHECK(t.messages[1]->fields[0].type.ref == t.messages[2]);
 Proto3 u; CHECK(ok("message A { } message B { A a = 2; C c = 1; } message C { }", u)); CHECK(u.messages[1]->fields[1].type.ref == u.messages[2]); return 0; }''')),
dict(id='c16-option-insert',property='C16',edits=[(P3,"        if (ctx.tokens.next().code != TOKEN_COMMA) ctx.tokens.unget();\n        entries[option.name] = option;\n","        if (ctx.tokens.next().code != TOKEN_COMMA) ctx.tokens.unget();\n        entries.insert(std::make_pair(option.name, option));\n")],
 needs="an option that is given twice for the same field",breaks="the first value of a repeated option is kept instead of the last",
 files=ps('''int main() { Proto3 t; CHECK(ok("message A { int32 a = 1 [ x = 1, y = 2, x = 3 ]; }", t)); CHECK(t.messages[0]->fields[0].options["y"].value == "2"); CHECK(t.messages[0]->fields[0].options["x"].value == "3"); return 0; }''')),
dict(id='c16-unget-value',property='C16',edits=[(P3,"    temp.value = ctx.tokens.current.value;\n    return temp;","    temp.value = ctx.tokens.current.value.empty() ? temp.name : ctx.tokens.current.value;\n    return temp;")],
 needs="an option whose value is the empty string",breaks="an empty value is replaced by the name of the option",
 files=ps('''int main() { Proto3 t; CHECK(ok("option a = \\"x\\"; option b = \\"\\";", t)); CHECK(t.options["a"].value == "x"); CHECK(t.options["b"].value == ""); return 0; }''')),
dict(id='j04-trailing-comma',property='J04',edits=[(JH,"            if (ctx.tok->expect(token_id::COMMA)) continue;","            if (ctx.tok->expect(token_id::COMMA) && ctx.tok->peek().id != token_id::OBJE) continue;")],
 needs="a comma behind the last member of an object",breaks="a comma may follow the last member of an object",
 files=rt('int main() { t::M m; CHECK(m.deserialize(std::string("{\\"s\\":\\"x\\",\\"n\\":1}"))); CHECK(!m.deserialize(std::string("{\\"s\\":\\"x\\",\\"n\\":1,}"))); CHECK(!m.deserialize(std::string("{\\"in\\":{\\"n\\":1,}}"))); return 0; }')),
dict(id='j04-many-fields',property='J04',edits=[(CG,"        ctx.printer(CODE_JSON__INDEX__ITEM, label, i);\n        ++i;","        ctx.printer(CODE_JSON__INDEX__ITEM, label, i);\n        i = (i + 1) % 32;")],
 needs="a message with more than 32 fields",breaks="the fields beyond the 32nd of a message are read into the first ones",
 files=rt('int main() { t::B m; CHECK(m.deserialize(std::string("{\\"f00\\":1,\\"f31\\":2,\\"f33\\":3}"))); CHECK(m.f00 == 1); CHECK(m.f31 == 2); CHECK(m.f33 == 3); return 0; }',
 'syntax = "proto3"; package t; message B { '+' '.join('int32 f%02d = %d;'%(k,k+1) for k in range(34))+' }\n')),
dict(id='j05-colon',property='J05',edits=[(PG,"                if (!expect(token_id::COLON))\n                    return error(error_code::PGERR_IGNORE_FAILED, \"expected colon\");","                if (!expect(token_id::COLON) && peek().id == token_id::EOS)\n                    return error(error_code::PGERR_IGNORE_FAILED, \"expected colon\");")],
 needs="an object without colons inside a member that is not known",breaks="the colon is optional in objects that are skipped",
 files=rt('int main() { t::M m; CHECK(m.deserialize(std::string("{\\"zz\\":{\\"a\\":1}}"))); CHECK(!m.deserialize(std::string("{\\"zz\\":{\\"a\\" 1}}"))); return 0; }')),
dict(id='j05-array-end',property='J05',edits=[(PG,"            if (!expect(token_id::ARRE))\n                return error(error_code::PGERR_IGNORE_FAILED, \"invalid array\");","            if (!expect(token_id::ARRE) && !expect(token_id::OBJE))\n                return error(error_code::PGERR_IGNORE_FAILED, \"invalid array\");")],
 needs="an array that is closed with a brace inside a member that is not known",breaks="an array that is skipped can end with a brace",
 files=rt('int main() { t::M m; CHECK(m.deserialize(std::string("{\\"zz\\":[1,[2]],\\"n\\":1}"))); CHECK(!m.deserialize(std::string("{\\"zz\\":[1,[2}],\\"n\\":1}"))); return 0; }')),
dict(id='j14-clear-empty-text',property='J14',edits=[('source/cpp/json-string.hh',"        void clear() { value_.clear(); null_ = true; }","        void clear() { null_ = null_ || !value_.empty(); value_.clear(); }")],
 needs="a field that holds the empty text, and a document that sets it to null",breaks="null leaves a field that holds the empty text present",
 files=rt('int main() { t::M m; m.s = "x"; CHECK(m.deserialize(std::string("{\\"s\\":null}"))); CHECK(m.s.empty()); m.s = ""; CHECK(!m.s.empty()); CHECK(m.deserialize(std::string("{\\"s\\":null}"))); CHECK(m.s.empty()); return 0; }')),
dict(id='j14-zero-absent',property='J14',edits=[('source/cpp/json-number.hh',"        field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }","        field<T> &operator=( const T &that ) { this->empty_ = this->empty_ && std::is_same<T, float>::value && that == (T) 0; this->value_ = that; return *this; }")],
 needs="a float field that is given as 0 and had no value before",breaks="0 does not make a float field present",
 files=rt('int main() { t::B m; CHECK(m.deserialize(std::string("{\\"f\\":0.5,\\"d\\":0}"))); CHECK(!m.f.empty()); CHECK(!m.d.empty()); t::B o; CHECK(o.deserialize(std::string("{\\"f\\":0}"))); CHECK(!o.f.empty()); return 0; }','syntax = "proto3"; package t; message B { float f = 1; double d = 2; }\n')),
dict(id='j17-stale-error',property='J17',edits=[(JH,"            protogen_X_Y_Z::json_context ctx; \\\n            if (params != nullptr) { \\\n                params->error.clear(); \\\n                ctx.params = *params; \\\n            } \\\n            protogen_X_Y_Z::tokenizer","            protogen_X_Y_Z::json_context ctx; \\\n            if (params != nullptr) { \\\n                if (params->error.line < 4) params->error.clear(); \\\n                ctx.params = *params; \\\n            } \\\n            protogen_X_Y_Z::tokenizer")],
 needs="parameters that hold an error of an earlier call beyond line 3",breaks="an earlier error beyond line 3 is not cleared, so the next error is not reported",
 files=rt('int main() { t::M m; protogen_3_0_0::Parameters p; CHECK(!m.deserialize(std::string("{ ,}"), &p)); CHECK(p.error.column == 3); CHECK(m.deserialize(std::string("{}"), &p)); CHECK(p.error.code == 0); CHECK(!m.deserialize(std::string("{\\n\\n\\n\\n,}"), &p)); CHECK(p.error.line == 5); CHECK(!m.deserialize(std::string("{\\n \\"s\\":1}"), &p)); CHECK(p.error.line == 2 && p.error.column == 6); return 0; }')),
dict(id='j17-error-lost',property='J17',edits=[(JH,"            if (result == PGR_ERROR) return result;\n            if (result != PGR_OK)","            if (result == PGR_ERROR && ctx.tok->peek().id != token_id::OBJE) return result;\n            if (result == PGR_NIL)")],
 needs="a member whose value is missing before the closing brace",breaks="the error of a member that ends the object is not passed on",
 files=rt('int main() { t::M m; protogen_3_0_0::Parameters p; CHECK(!m.deserialize(std::string("{\\"n\\":}"), &p)); CHECK(p.error.column == 6); CHECK(p.error.code == protogen_3_0_0::PGERR_INVALID_VALUE); CHECK(!m.deserialize(std::string("{\\"r\\":[1}}"), &p)); CHECK(p.error.column == 8); return 0; }')),
dict(id='j06-last-plane',property='J06',edits=[(JS,"uint32_t lead = LEAD_OFFSET + (codepoint >> 10);","uint32_t lead = LEAD_OFFSET + ((codepoint >> 10) & 0x3FF);")],
 needs="ensure_ascii and a character from U+100000 on",breaks="the characters of the last plane are written as the surrogates of other ones",
 files=rt('int main() { t::In m; protogen_3_0_0::Parameters p; p.ensure_ascii = true; std::string o; m.s = "\\xf0\\x9f\\x98\\x82"; CHECK(m.serialize(o, &p)); CHECK(o == "{\\"s\\":\\"\\\\ud83d\\\\ude02\\"}"); o.clear(); m.s = "\\xf4\\x8f\\xbf\\xbd"; CHECK(m.serialize(o, &p)); t::In n; CHECK(n.deserialize(o)); CHECK(n == m); return 0; }')),
dict(id='j06-two-bytes',property='J06',edits=[(JS,"byte1 >= 0xC0 && byte1 <= 0xDF","byte1 >= 0xC0 && byte1 < 0xDF")],
 needs="ensure_ascii and a character between U+07C0 and U+07FF",breaks="the last 64 characters with two bytes are refused",
 files=rt('int main() { t::In m; protogen_3_0_0::Parameters p; p.ensure_ascii = true; std::string o; m.s = "\\xc3\\xa1"; CHECK(m.serialize(o, &p)); m.s = "\\xdf\\xb0 x y"; CHECK(m.serialize(o, &p)); return 0; }')),
dict(id='j07-array-count',property='J07',edits=[(JA,"        size_t i = 0, t = value.size();","        size_t i = 0, t = value.size() < 256 ? value.size() : 256;")],
 needs="an array of more than 256 elements",breaks="the elements from the 256th on are not separated",
 files=rt('int main() { t::M m; std::string o; m.r.assign(200, 1); CHECK(m.serialize(o)); t::M n; CHECK(n.deserialize(o)); CHECK(n.r.size() == 200); m.r.assign(300, 1); o.clear(); CHECK(m.serialize(o)); t::M q; CHECK(q.deserialize(o)); CHECK(q.r.size() == 300); return 0; }')),
dict(id='j07-name-cut',property='J07',edits=[(CG,"        ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);","        ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label.substr(0, 48) + (label.length() > 48 ? label.substr(label.length() - 1) : \"\"));")],
 needs="a field with a name of more than 46 characters",breaks="the names of long members are cut in the output",
 files=rt('int main() { t::B m; m.a_member_with_a_name_that_is_longer_than_forty_six_characters = 1; std::string o; CHECK(m.serialize(o)); CHECK(o == "{\\"a_member_with_a_name_that_is_longer_than_forty_six_characters\\":1}"); return 0; }',
 'syntax = "proto3"; package t; message B { int32 a_member_with_a_name_that_is_longer_than_forty_six_characters = 1; }\n')),
dict(id='j07-null-member',property='J07',edits=[(JN,"        if (value.empty())\n        {\n            *(ctx.os) << \"null\";\n            return PGR_OK;\n        }\n        T temp = (T) value;","        if (value.empty() && ctx.params.serialize_null)\n        {\n            *(ctx.os) << (std::is_floating_point<T>::value && ctx.params.ensure_ascii ? \"0\" : \"null\");\n            return PGR_OK;\n        }\n        T temp = (T) value;")],
 needs="serialize_null and ensure_ascii together, and a field of type double or float without value",breaks="floating point fields without value are written as 0 instead of null",
 files=rt('int main() { t::B m; std::string o; protogen_3_0_0::Parameters p; p.serialize_null = true; CHECK(m.serialize(o, &p)); CHECK(o == "{\\"d\\":null,\\"i\\":null}"); p.ensure_ascii = true; o.clear(); CHECK(m.serialize(o, &p)); CHECK(o == "{\\"d\\":null,\\"i\\":null}"); return 0; }','syntax = "proto3"; package t; message B { double d = 1; int32 i = 2; }\n')),
dict(id='j08-two-rest',property='J08',edits=[(JB,"o[2] = B64_SYMBOLS[ ((value[i+1] & 0x0F) << 2) ];","o[2] = B64_SYMBOLS[ ((value[i+1] & 0x07) << 2) ];")],
 needs="a length of 3n+2 and a last byte with bit 3 set",breaks="bit 3 of the last byte is lost",
 files=rt('int main() { t::M m, n; std::string o; m.y = { 1, 2, 3, 4, 7 }; CHECK(m.serialize(o)); CHECK(n.deserialize(o)); CHECK(n.y == m.y); m.y[4] = 0xab; o.clear(); CHECK(m.serialize(o)); CHECK(n.deserialize(o)); CHECK(n.y == m.y); return 0; }')),
dict(id='j08-url-alphabet',property='J08',edits=[(JB,"        if (ch == '/') return 63;","        if (ch == '/' || ch == '_') return 63;")],
 needs="a text with an underscore",breaks="an underscore is read as a slash",
 files=rt('int main() { t::M m; CHECK(m.deserialize(std::string("{\\"y\\":\\"////\\"}"))); CHECK(!m.deserialize(std::string("{\\"y\\":\\"/_//\\"}"))); return 0; }')),
dict(id='j09-global-locale',property='J09',edits=[(JN,"    value = strtod_l(text.c_str(), nullptr, loc);","    value = strtod(text.c_str(), nullptr);")],
 needs="a process whose locale has a decimal comma",breaks="floating point numbers are cut at the decimal point under a locale with a decimal comma",
 files=rtl('int main() { t::M m; double x; CHECK(m.deserialize(std::string("{\\"d\\":2.5}"))); x = m.d; CHECK(x == 2.5); if (std::setlocale(LC_ALL, "xx") == nullptr || localeconv()->decimal_point[0] != 44) { std::printf("no locale to test with\\n"); return 1; } CHECK(m.deserialize(std::string("{\\"d\\":3.5}"))); x = m.d; CHECK(x == 3.5); return 0; }')),
dict(id='j10-locale-left',property='J10',edits=[(JN,"    uselocale(old);\n#endif\n    tmp[sizeof(tmp) - 1] = 0;","    if (value == std::floor(value)) uselocale(old);\n#endif\n    tmp[sizeof(tmp) - 1] = 0;")],
 needs="a thread that writes a number with decimal places and uses its locale afterwards",breaks="the locale of the thread stays changed after a number that is not integral was written",
 files=rt('int main() { t::M m; std::string o; m.d = 2.0; CHECK(m.serialize(o)); CHECK(uselocale((locale_t) 0) == LC_GLOBAL_LOCALE); m.d = 2.5; CHECK(m.serialize(o)); CHECK(uselocale((locale_t) 0) == LC_GLOBAL_LOCALE); return 0; }')),
dict(id='j10-wide-unsigned',property='J10',edits=[(JN,"    return std::to_string(value);","    return std::to_string(static_cast<long long>(value));")],
 needs="an unsigned 64-bit field with a value of 2^63 or more",breaks="large unsigned numbers are written as negative ones",
 files=rt('int main() { t::B m, n; std::string o; m.u = 9223372036854775807ull; CHECK(m.serialize(o)); CHECK(n.deserialize(o)); CHECK(n == m); m.u = 9223372036854775808ull; o.clear(); CHECK(m.serialize(o)); CHECK(n.deserialize(o)); CHECK(n == m); return 0; }','syntax = "proto3"; package t; message B { uint64 u = 1; }\n')),
dict(id='j16-zero-absent',property='J16',edits=[(JN,"{ return this->empty_ == that.empty_ && this->value_ == that.value_;  }","{ return (this->empty_ || !that.empty_) && this->value_ == that.value_;  }")],
 needs="a field without value on the left compared with a field with the value zero or false on the right",breaks="a message without a number equals one where the number is given as zero",
 files=rt('int main() { t::M a, b; CHECK(a == b); b.n = 0; CHECK(!(b == a)); CHECK(!(a == b)); a.n = 0; CHECK(a == b); return 0; }')),
dict(id='j16-swap-transient',property='J16',edits=[(CG,"        ctx.printer(CODE_JSON__SWAP__ITEM, field.name);","        if (!field.type.repeated || !is_transient(field)) ctx.printer(CODE_JSON__SWAP__ITEM, field.name);")],
 needs="a message with a repeated transient field",breaks="swap leaves repeated transient fields where they were",
 files=rt('int main() { t::W a, b; a.x = "1"; a.k.push_back(3); a.h = 4; swap(a, b); CHECK(b.h == 4); CHECK(b.k.size() == 1 && a.k.empty()); return 0; }\n'.replace('swap(a, b)','a.swap(b)'),'syntax = "proto3"; package t; message W { string x = 1; int32 h = 2 [transient = true]; repeated int32 k = 3 [transient = true]; }\n')),
dict(id='j16-array-prefix',property='J16',edits=[(JA,"    static bool equal( const T &a, const T &b ) { return a == b; }","    static bool equal( const T &a, const T &b ) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }")],
 needs="two arrays of which the left one is the beginning of the longer right one",breaks="a message whose array is the beginning of the other one's compares equal",
 files=rt('int main() { t::R a, b; a.ri.push_back(1); b.ri.push_back(1); CHECK(a == b); a.ri.push_back(2); CHECK(a != b); CHECK(b != a); b.ri.push_back(3); CHECK(a != b); return 0; }','syntax = "proto3"; package t; message R { repeated int32 ri = 1; }\n')),
dict(id='j15-flags-failure',property='J15',edits=[(PG,"        if (skip) std::skipws(in);\n        return result;\n    }\n\n    virtual bool deserialize( const std::string","        if (skip && result) std::skipws(in);\n        return result;\n    }\n\n    virtual bool deserialize( const std::string")],
 needs="an input stream with a text that is refused",breaks="the stream of the caller no longer skips white space after a failure",
 files=rt('#include <sstream>\nint main() { t::In m; std::stringstream a("{\\"n\\":1}"); CHECK(m.deserialize(a)); CHECK(a.flags() & std::ios_base::skipws); std::stringstream b("{\\"n\\":x}"); CHECK(!m.deserialize(b)); CHECK(b.flags() & std::ios_base::skipws); return 0; }')),
dict(id='j15-exact-size',property='J15',edits=[(PG,"mem_iterator<char>(in, len);\n        iterator_ostream","mem_iterator<char>(in, len > 0 ? len - 1 : 0);\n        iterator_ostream")],
 needs="memory of exactly the size of the text",breaks="the last byte of a text that just fits is not written although success is reported",
 files=rt('int main() { t::In m; m.n = 7; std::string o; CHECK(m.serialize(o)); char b[64] = {0}; CHECK(m.serialize(b, o.size() + 1)); CHECK(std::string(b, o.size()) == o); char c[64] = {0}; CHECK(!m.serialize(c, o.size() - 1)); CHECK(m.serialize(c, o.size())); CHECK(std::string(c, o.size()) == o); return 0; }')),
dict(id='j15-vector-parameters',property='J15',edits=[(JA,"    iterator_istream<std::vector<char>::const_iterator> is(in.begin(), in.end());\n    return deserialize_array(container, is, params);","    iterator_istream<std::vector<char>::const_iterator> is(in.begin(), in.end());\n    return deserialize_array(container, is);")],
 needs="reading an array from a vector with parameters, and a look at the error afterwards",breaks="the parameters of the caller are ignored and get no error when an array is read from a vector",
 files=rt('int main() { std::vector<t::In> a; protogen_3_0_0::Parameters p; std::string s = "[{\\"n\\":x}]"; std::vector<char> v(s.begin(), s.end()); CHECK(!protogen_3_0_0::deserialize_array(a, s, &p)); CHECK(p.error.code != protogen_3_0_0::PGERR_OK); protogen_3_0_0::Parameters q; CHECK(!protogen_3_0_0::deserialize_array(a, v, &q)); CHECK(q.error.code != protogen_3_0_0::PGERR_OK); return 0; }')),

dict(id='c06-append',property='C06',edits=[('source/main.cc',"out.open(argv[2], std::ios_base::ate);","out.open(argv[2], std::ios_base::app);")],
 needs="an output file that exists already",breaks="the header is appended to what the output file has instead of replacing it",
 files=sh('printf \'syntax = "proto3"; package t; message A { int32 a = 1; }\\n\' > a.proto\n$P a.proto a.hh\ncp a.hh b.hh\n$P a.proto b.hh\ncmp a.hh b.hh\n')),
dict(id='c06-unplaced',property='C06',edits=[('source/main.cc',"        result = 1;\n","        result = ex.line > 1;\n")],
 needs="an error on the first line of the schema, or one that the generator finds",breaks="the exit status is 0 after an error without a line beyond the first",
 files=sh('printf \'syntax = "proto3";\\nmessage A { int32 = 1; }\\n\' > a.proto\nif $P a.proto a.hh; then exit 1; fi\nprintf \'syntax = "proto3"; message A { int32 = 1; }\\n\' > b.proto\nif $P b.proto b.hh; then exit 1; fi\n')),
dict(id='c06-arguments',property='C06',edits=[('source/main.cc',"if (argc != 2 && argc != 3) main_usage();","if (argc < 2) main_usage();")],
 needs="a call with three or more paths",breaks="superfluous arguments are accepted and the header goes to the standard output although a file was named",
 files=sh('printf \'syntax = "proto3"; package t; message A { int32 a = 1; }\\n\' > a.proto\n$P a.proto a.hh\nif $P a.proto b.hh c.hh > o; then exit 1; fi\n')),
dict(id='c08-sfixed64',property='C08',edits=[(CG,'"sfixed64",  "int64_t" ','"sfixed64",  "uint64_t"')],
 needs="a field of type sfixed64 with a negative value",breaks="sfixed64 fields become unsigned members",
 files=rt('int main() { t::B m; CHECK(m.deserialize(std::string("{\\"i\\":-1}"))); CHECK(m.deserialize(std::string("{\\"x\\":5}"))); CHECK(m.deserialize(std::string("{\\"x\\":-5}"))); CHECK((long double) (m.x + 0) == -5); return 0; }','syntax = "proto3"; package t; message B { sfixed64 x = 1; int64 i = 2; }\n')),
dict(id='c08-float',property='C08',edits=[(CG,'"float",     "float" ','"float",     "double" ')],
 needs="a float field with a value that float cannot represent",breaks="float fields become members of type double, which keep more digits and take larger values",
 files=rt('int main() { t::B m; CHECK(m.deserialize(std::string("{\\"f\\":0.5}"))); CHECK(!m.deserialize(std::string("{\\"f\\":1e300}"))); return 0; }','syntax = "proto3"; package t; message B { float f = 1; }\n')),
dict(id='c11-one-guard',property='C11',edits=[(CG,'    for (auto it = fileName.begin(); it != fileName.end(); ++it)\n    {','    for (auto it = fileName.begin(); it != fileName.end() && out.length() < 64; ++it)\n    {')],
 needs="two schemas whose paths agree in the first 58 characters, included together",breaks="the header of the second schema is empty because its guard is that of the first",
 files=sh('mkdir -p a_directory_with_a_name_that_is_long/and_one_more_directory_in_it\ncd a_directory_with_a_name_that_is_long/and_one_more_directory_in_it\nfor i in A B; do printf \'syntax = "proto3"; package t; message %s { int32 a = 1; }\\n\' $i > $i.proto; $P $i.proto $i.hh; done\nprintf \'#include "A.hh"\\n#include "B.hh"\\nint main() { t::A a; t::B b; return a.empty() && b.empty() ? 0 : 1; }\\n\' > m.cc\ng++ -std=c++11 -w m.cc -o m && ./m\n')),
dict(id='c11-repeated-order',property='C11',edits=[(CG,"        if (field.type.ref != nullptr && !contains(output, field.type.ref))","        if (field.type.ref != nullptr && !field.type.repeated && !contains(output, field.type.ref))")],
 needs="a repeated field of a message type that is declared later",breaks="a message that is used by a repeated field only is declared after its use",
 files=rt('int main() { t::B m; CHECK(m.empty()); return 0; }','syntax = "proto3"; package t; message B { repeated A r = 1; } message A { int32 x = 1; }\n')),
dict(id='c11-early-break',property='C11',edits=[(CG,"            if (has_array && has_base64 && has_string && has_number)","            if (has_array && has_base64 && (has_string || has_number))")],
 needs="a message with bytes, an array and strings before (by name) its first number, and no other message with numbers",breaks="the runtime for a kind of field is missing in the header",
 files=rt('int main() { t::B m; CHECK(m.empty()); return 0; }','syntax = "proto3"; package t; message B { bytes a = 1; repeated string b = 2; int32 c = 3; }\n')),
]
