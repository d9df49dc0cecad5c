From 5b159a0e9bce73ec474c38dcadd1e22c3d07e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 01/39] fix: stop at the end of the input in a line comment of
 a .proto file

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..d149a01 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) >= 0 && cur != '\n') temp.value += (char) cur;
                 return temp;
             }
             else
-- 
2.43.0


From 48eb29445527760c6e1f4536c91f8b7faff0f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 02/39] fix: report an unterminated string in a .proto file

At the end of the input it looped forever; at a line break it was taken
for the end of the file, and everything after it was silently ignored.
---
 source/proto3.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index d149a01..6076284 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -473,7 +473,8 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0)
+                    throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From 55de42532402b1f49baddeaf2732c3bd93188dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 03/39] fix: report an unterminated block comment and a stray
 '/' in a .proto file

---
 source/proto3.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 6076284..0a13046 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line = 1, int column = 1 )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From c0087b86928b56efd09df180e867bf3c4acff489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 04/39] fix: report a message without closing brace

---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index 0a13046..f112856 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -710,6 +710,8 @@ static void parseMessage( ProtoContext &ctx )
                 else
                     parseField(ctx, *message);
             }
+            if (ctx.tokens.current.code != TOKEN_END)
+                throw exception("Expected '}'", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
             return;
         }
-- 
2.43.0


From 2efa3a372558b60a3ae2a6755769afb0efca4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 05/39] fix: check the range of field numbers before narrowing
 them

2^32+1 was taken as 1, only the ends of the reserved range 19000-19999
were rejected and the largest valid number (2^29-1) was not accepted.
---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index f112856..2ecfba8 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -660,10 +660,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || (index >= 0x4A38 && index <= 0x4E1F))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From 013973cb56809687358a3cb1653e338a42b1636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/39] fix: reject two fields with the same name in a message

---
 source/proto3.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 2ecfba8..b7537a6 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -681,10 +681,14 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code != TOKEN_SCOLON)
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
-    // check for repeated field indices
+    // check for repeated field indices and names
     for (auto it = message.fields.begin(); it != message.fields.end(); it++)
+    {
         if (it->index == field.index)
             throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+        if (it->name == field.name)
+            throw exception("Field '" + field.name + "' is already defined", CURRENT_TOKEN_POSITION);
+    }
 
     message.fields.push_back(field);
 }
-- 
2.43.0


From 1e11ee02d3a9c6af8877c24adb2ca36491e813aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/39] fix: reject two messages with the same name

---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index b7537a6..38f9c5d 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -703,6 +703,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Message '" + message->name + "' is already defined", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-- 
2.43.0


From ae0c72f1029c2e59c6b589dce7bb536424948d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 08/39] fix: include the base64 codec whenever there is a
 'bytes' field

It was included only for 'repeated bytes', so the header generated for a
plain 'bytes' field did not compile (or wrote an array of numbers, if some
other field happened to be repeated).
---
 source/cpp/cppgen.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..6b78f46 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -547,11 +547,10 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
+            else
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From 0112cc03d9cc698474032441f24722131d260b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 09/39] fix: make a 'repeated bytes' field a container of byte
 vectors

It was generated as one byte vector, like a plain 'bytes' field.
---
 source/cpp/cppgen.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 6b78f46..cd9528d 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -135,6 +135,8 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     {
         int index = (int)field.type.id - (int)protogen::TYPE_DOUBLE;
         valueType = TYPE_MAPPING[index].nativeType;
+        if (field.type.id == protogen::TYPE_BYTES)
+            valueType = "std::vector<" + valueType + ">";
     }
     else
     if (field.type.id == protogen::TYPE_MESSAGE)
@@ -142,10 +144,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
@@ -153,7 +155,7 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         output += '>';
         return output;
     }
-    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING)
+    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING || field.type.id == protogen::TYPE_BYTES)
         return valueType;
     else
     {
-- 
2.43.0


From 2cd79388adcf406f593c834dd8010093105ebdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 10/39] fix: keep obfuscated field names that contain a zero
 byte

A character equal to the mask is obfuscated as zero (the 'r' of 'price'),
which ended the string literal: the JSON field name came out truncated and
then revealed with the wrong mask.
---
 source/cpp/code.txt  | 2 +-
 source/cpp/cppgen.cc | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..d3ca1ab 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -230,7 +230,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__INDEX__ITEM
-            {"$1$", $2$},
+            {$1$, $2$},
 ------
 
 --- CODE_JSON__INDEX__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index cd9528d..e613553 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -304,7 +304,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = Printer::format("reveal(\"$1$\")", obfuscate(label));
+            label = Printer::format("reveal(std::string(\"$1$\", $2$))", obfuscate(label), label.length());
         else
             label = Printer::format("\"$1$\"", label);
 
@@ -417,7 +417,9 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = obfuscate(label);
+            label = Printer::format("std::string(\"$1$\", $2$)", obfuscate(label), label.length());
+        else
+            label = Printer::format("\"$1$\"", label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From cee5aa17c38174623bc886e989e64af77fa1ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 11/39] fix: reject JSON field names with backslashes or
 control characters

They end up in a C++ string literal and unescaped in the JSON output.
---
 source/cpp/cppgen.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index e613553..823fcb3 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -256,8 +256,12 @@ static std::string get_json_name( const Field &field )
 {
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
     for (auto c : name)
+    {
         if (c == '\'' || c == '"')
             throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+        if (c == '\\' || (c >= 0 && c < 0x20))
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain backslashes or control characters", 1, 1);
+    }
     return name;
 }
 
-- 
2.43.0


From 9f920f5a95f50b67543af2a2af36490c84190d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 12/39] fix: reject two fields with the same JSON name in a
 message

The second one could never be read back.
---
 source/cpp/cppgen.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 823fcb3..28cdb2f 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -436,12 +436,15 @@ static void generateModelWrapper( GeneratorContext &ctx, const Message &message
     std::string typeName = nativePackage(message.package) + "::" + message.name + "_type";
 
     bool is_persistent = false;
+    std::unordered_set<std::string> names;
     for (auto field : message.fields)
     {
         if (!is_transient(field))
         {
             is_persistent = true;
-            break;
+            auto name = get_json_name(field);
+            if (!ctx.number_names && !names.insert(name).second)
+                throw exception("more than one field with JSON name '" + name + "' in message '" + message.name + "'");
         }
     }
 
-- 
2.43.0


From c4e78dd292bc35fc03d1ff9b175ba06a199ae86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 13/39] fix: report an error while reading the input file

It was taken for the end of the file (e.g. if the input is a directory).
---
 source/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..70235b5 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -71,6 +71,7 @@ int main( int argc, char **argv )
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
-- 
2.43.0


From 2ac0c8cb06b353a67181f563dadc15e3e1fd8c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 14/39] fix: report an error while writing the output file

protogen exited with 0 on a full disk, leaving a truncated header.
---
 source/main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/main.cc b/source/main.cc
index 70235b5..6aa5eb4 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -87,7 +87,9 @@ int main( int argc, char **argv )
         result = 1;
     }
     input.close();
+    output->flush();
     if (argc == 3) out.close();
+    if (result == 0 && !output->good()) main_error("Unable to write the output");
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From 9d252b885ce4d673963a51999f6aa2ab251495ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 15/39] fix: include the standard headers used by the generated
 code

A source file that includes only the generated header did not compile
(std::numeric_limits).
---
 source/cpp/json-number.hh | 4 ++++
 source/cpp/protogen.hh    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..16cd404 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -3,6 +3,10 @@
 #ifndef PROTOGEN_X_Y_Z__JSON_NUMBER
 #define PROTOGEN_X_Y_Z__JSON_NUMBER
 
+#if !defined(_WIN32) && !defined(_WIN64)
+#include <locale.h>
+#endif
+
 namespace protogen_X_Y_Z {
 
 template<typename T> class field
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..1954108 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -19,6 +19,12 @@
 
 #include <string>
 #include <cstring>
+#include <cstdint>
+#include <cstdio>
+#include <cstdlib>
+#include <clocale>
+#include <limits>
+#include <type_traits>
 #include <sstream>
 #include <vector>
 #include <iostream>
-- 
2.43.0


From 7657e74ef06f477dcf59e841fdfc03819c176a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 16/39] fix: do not skip the first byte of the output iterator

serialize(char*, size_t) left the first byte of the buffer unwritten.
---
 source/cpp/protogen.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 1954108..edeab4e 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -129,18 +129,26 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            *beg_ = value;
+            ++beg_;
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+            {
+                *beg_ = *it;
+                ++beg_;
+            }
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0)
+            {
+                *beg_ = *value++;
+                ++beg_;
+            }
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
-- 
2.43.0


From 86513078e8f1d6a5b57b3b8a34f08d78d999e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 17/39] fix: report that the JSON does not fit in the output
 buffer

serialize(char*, size_t) returned true with a truncated JSON.
---
 source/cpp/protogen.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index edeab4e..f0d2de5 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -698,9 +698,18 @@ struct message
 
     virtual bool serialize( char *in, size_t len, Parameters *params = nullptr )
     {
+        std::string out;
+        if (!serialize(out, params)) return false;
+        if (out.length() > len)
+        {
+            if (params != nullptr)
+                params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "output buffer is too small", 0, 0);
+            return false;
+        }
         auto begin = mem_iterator<char>(in, len);
         iterator_ostream<mem_iterator<char>> os(begin);
-        return serialize(os, params);
+        os << out;
+        return true;
     }
 
     virtual bool serialize( std::vector<char> &out, Parameters *params = nullptr ) const
-- 
2.43.0


From ca95d5a793a5bd23e8835238ffe80c1ccc78dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 18/39] fix: make deserialize_array(const char*, size_t)
 compile

---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..a15479c 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -107,9 +107,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From 2fe5c51f9f75aca884891847b7a649965510c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 19/39] fix: do not keep the old value when assigning an unset
 field

The target did not compare equal to the source, and a string field was
not even empty: it was serialized with its old value.
---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 16cd404..04962ca 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -24,7 +24,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..79b39b6 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,7 +22,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From e4cc4ce1fe8066a4aaaf78dbca97161803012aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 20/39] fix: make '!=' the opposite of '==' for unset fields

---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 04962ca..5828916 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -27,7 +27,7 @@ template<typename T> class field
         field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
-        bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
+        bool operator!=( const T &that ) const { return this->empty_ || this->value_ != that; }
         bool operator==( const field<T> &that ) const { return this->empty_ == that.empty_ && this->value_ == that.value_;  }
         bool operator!=( const field<T> &that ) const { return this->empty_ != that.empty_ || this->value_ != that.value_;  }
         operator T() const { return this->value_; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 79b39b6..c112ee4 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -26,9 +26,9 @@ class string_field
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
+        bool operator!=( const char *that ) const { return this->null_ || this->value_ != that; }
         bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
+        bool operator!=( const value_type &that ) const { return this->null_ || this->value_ != that; }
         bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
         bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
-- 
2.43.0


From 5567db95f102837a21ed849d1c8f163c6de6ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 21/39] fix: leave a field unset when its JSON value is null

A null string became an empty string that is set; a null number kept the
previous value.
---
 source/cpp/json-number.hh | 5 ++++-
 source/cpp/json-string.hh | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5828916..2623c85 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -123,7 +123,10 @@ struct json<field<T>, typename std::enable_if<std::is_arithmetic<T>::value>::typ
         T temp;
         json<T>::clear(temp);
         int result = json<T>::read(ctx, temp);
-        if (result != PGR_NIL)
+        if (result == PGR_NIL)
+            value.clear();
+        else
+        if (result == PGR_OK)
             value = temp;
         return result;
     }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index c112ee4..5516a2a 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -159,8 +159,11 @@ struct json<string_field, void>
         std::string temp;
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
-        value.empty(result == PGR_NIL);
-        value = temp;
+        if (result == PGR_NIL)
+            value.clear();
+        else
+        if (result == PGR_OK)
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From 7c5871b109e21cc0d5299eb6f357433e53ad1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 22/39] fix: accept null as array element

An unset string in a repeated field is written as null, but an array with
a null was rejected as invalid.
---
 source/cpp/json-array.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index a15479c..e54cca7 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -44,10 +44,11 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         {
             while (true)
             {
-                typename T::value_type temp;
+                typename T::value_type temp = typename T::value_type();
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
-                if (result == PGR_OK) value.push_back(temp);
+                if (result == PGR_NIL) ctx.tok->next();
+                value.push_back(temp);
 
                 if (!ctx.tok->expect(token_id::COMMA))
                 {
-- 
2.43.0


From 78741d2b2a688e3fcc65e537aed44256b30b350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 23/39] fix: escape the control characters of JSON strings

---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 5516a2a..bb5ae9a 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
-- 
2.43.0


From 7c0611b083f266b61dae69df94e36199e9ffa372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 24/39] fix: accept '\\u' escapes of ASCII characters in JSON
 strings

---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index f0d2de5..07e2fa6 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -500,6 +500,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint >= 0 && codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From 17cdef29ae664f5b3346f0717e622ccffc131a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 25/39] fix: reject unpaired surrogates in JSON strings

They were silently dropped, or paired with a later escape.
---
 source/cpp/protogen.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 07e2fa6..c7f4aa7 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -425,6 +425,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // a surrogate pair lead must be followed by another escape
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -434,6 +437,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -476,6 +481,10 @@ class tokenizer
             }
             int32_t codepoint = (int32_t) strtol(temp, nullptr, 16);
 
+            // a lead must be followed by the second value in the pair
+            if (lead != 0 && (codepoint < 0xDC00 || codepoint > 0xDFFF))
+                return false;
+
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
             {
-- 
2.43.0


From 50d22a8dad2ebf42e8b7d41291524e99c21fe806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 26/39] fix: set the position of JSON string tokens

An error at a string was reported at line 0, column 0.
---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c7f4aa7..509358a 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -431,7 +431,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 2ea56d1ec0ac531b860e1cad1e3054c140702a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 27/39] fix: do not drop line breaks inside JSON tokens

The line breaks were removed before the tokenizer could see them: '1\\n2' was
read as 12, and a line break in a string was lost.
---
 source/cpp/protogen.hh | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 509358a..d1072e2 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -175,7 +175,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -185,9 +184,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -195,15 +199,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
-- 
2.43.0


From 9a741241d88864b77f38affe4838a71eaa465150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 28/39] fix: reject malformed base64 data

Symbols out of the alphabet were decoded as zero, misplaced padding was
accepted and the error for an incomplete tuple was set but not returned.
---
 source/cpp/json-base64.hh | 43 ++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..6c1fd26 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -19,7 +19,7 @@ struct json< std::vector<uint8_t> >
         if (ch >= 'A' && ch <= 'Z') return ch - 'A';
         if (ch >= 'a' && ch <= 'z') return (ch - 'a') + 26;
         if (ch == '=') return 64;
-        return 0;
+        return -1;
     }
     static int write( json_context &ctx, const std::vector<uint8_t> &value )
     {
@@ -63,41 +63,38 @@ struct json< std::vector<uint8_t> >
         if (ctx.tok->peek().id != token_id::STRING)
             return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid string");
 
-        size_t k = 0;
         int s[4];
-        std::string text = ctx.tok->peek().value;
-        ctx.tok->next();
-        const char *ptr = text.c_str();
+        const std::string text = ctx.tok->peek().value;
+        std::vector<uint8_t> output;
+
+        if (text.length() % 4 != 0)
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
 
-        while (true)
+        for (size_t i = 0; i < text.length(); i += 4)
         {
             // read 4 characters
             for (size_t j = 0; j < 4; ++j)
             {
-                int ch = *ptr++;
-                if (ch == 0)
-                {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
-                    return PGR_OK;
-                }
-                s[j] = b64_int(ch);
+                s[j] = b64_int(text[i + j]);
+                if (s[j] < 0)
+                    return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
             }
+            // padding is allowed only at the end
+            bool last = i + 4 == text.length();
+            if (s[0] == 64 || s[1] == 64 || (s[2] == 64 && s[3] != 64) || (s[3] == 64 && !last))
+                return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
             // decode base64 tuple
-            value.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
+            output.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
             if (s[2] != 64)
             {
-                value.push_back( (uint8_t) (((s[1] & 0x0F) << 4) | ((s[2] & 0x3C) >> 2)) );
+                output.push_back( (uint8_t) (((s[1] & 0x0F) << 4) | ((s[2] & 0x3C) >> 2)) );
                 if ((s[3]!=64))
-                {
-                    value.push_back( (uint8_t) (((s[2] & 0x03) << 6) | s[3]) );
-                    k+=3;
-                }
-                else
-                    k+=2;
+                    output.push_back( (uint8_t) (((s[2] & 0x03) << 6) | s[3]) );
             }
-            else
-                k+=1;
         }
+        ctx.tok->next();
+        value.swap(output);
+        return PGR_OK;
     }
     static bool empty( const std::vector<uint8_t> &value ) { return value.empty(); }
     static void clear( std::vector<uint8_t> &value ) { value.clear(); }
-- 
2.43.0


From 03c0317fed5a3c8c4a7370216f52b97964985a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 29/39] fix: do not lose the error of a field or array element
 that cannot be written

serialize() returned true with a malformed JSON.
---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index d3ca1ab..cb73344 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; int r = json<decltype(value.$1$)>::write(ctx, value.$1$); if (r != PGR_OK) return r; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index e54cca7..f6c7512 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -66,7 +66,8 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            int result = json<typename T::value_type>::write(ctx, *it);
+            if (result != PGR_OK) return result;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From 8e2818c8d1b209eb0cbd8a80ba20e78f29149c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 30/39] fix: reject overlong and out of range UTF-8 sequences
 when escaping

With 'ensure_ascii' they were written as escapes of other characters or as
escapes that cannot be read back.
---
 source/cpp/json-string.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index bb5ae9a..f15babb 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -103,6 +103,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
+                    if (codepoint < 0x80)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 2;
                     continue;
@@ -117,6 +119,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -131,6 +135,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From 3bb8ba5a3947951db2c4694576928fe1940dc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 31/39] fix: reject a trailing comma in the value of an unknown
 field

It is rejected in the value of a known field.
---
 source/cpp/protogen.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index d1072e2..69fceb8 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -565,12 +565,13 @@ class tokenizer
             if (!expect(token_id::ARRS))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
 
-            while (peek().id != token_id::ARRE)
+            if (expect(token_id::ARRE))
+                return PGR_OK;
+            do
             {
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
+            } while (expect(token_id::COMMA));
             if (!expect(token_id::ARRE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
             return PGR_OK;
@@ -581,7 +582,9 @@ class tokenizer
             if (!expect(token_id::OBJS))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
 
-            while (peek().id != token_id::OBJE)
+            if (expect(token_id::OBJE))
+                return PGR_OK;
+            do
             {
                 if (!expect(token_id::STRING))
                     return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
@@ -589,8 +592,7 @@ class tokenizer
                     return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
+            } while (expect(token_id::COMMA));
             if (!expect(token_id::OBJE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
             return PGR_OK;
-- 
2.43.0


From 0a603408a96f53cfb6951505bb38597d57c1bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 32/39] fix: limit the nesting of the value of an unknown field

A JSON with some thousands of nested arrays overflowed the stack.
---
 source/cpp/protogen.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 69fceb8..c02da21 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -391,6 +391,8 @@ class tokenizer
         token current_;
         istream &input_;
         ErrorInfo &error_;
+        int depth_ = 0;
+        static const int MAX_DEPTH = 256;
 
         std::string parse_identifier()
         {
@@ -606,9 +608,15 @@ class tokenizer
                 case token_id::EOS:
                     return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
                 case token_id::OBJS:
-                    return ignore_object();
                 case token_id::ARRS:
-                    return ignore_array();
+                {
+                    if (depth_ >= MAX_DEPTH)
+                        return error(error_code::PGERR_IGNORE_FAILED, "too many nested values");
+                    ++depth_;
+                    int result = (peek().id == token_id::OBJS) ? ignore_object() : ignore_array();
+                    --depth_;
+                    return result;
+                }
                 case token_id::STRING:
                 case token_id::NUMBER:
                 case token_id::NIL:
-- 
2.43.0


From 9e9943e79f09e4ff6a86c658332ef8d5912da45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 33/39] fix: set the error when the JSON to deserialize is just
 null

deserialize() returned false with PGERR_OK.
---
 source/cpp/json-array.hh | 2 ++
 source/cpp/json.hh       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index f6c7512..27ea9d5 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -95,6 +95,8 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL)
+        tok.error(protogen_X_Y_Z::PGERR_INVALID_ARRAY, "unexpected null");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..6ebf7bf 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,8 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) \
+                tok.error(protogen_X_Y_Z::PGERR_INVALID_OBJECT, "unexpected null"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From 425c2e4fda2171ae1d6803fb76f8a253edd01d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 34/39] fix: initialize all members of ErrorInfo and token

---
 source/cpp/protogen.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c02da21..480145c 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -65,7 +65,7 @@ struct ErrorInfo
 
     ErrorInfo() : code(error_code::PGERR_OK), line(0), column(0) {};
     ErrorInfo( error_code code, const std::string &message ) : code(code),
-        message(message) { }
+        message(message), line(0), column(0) { }
     ErrorInfo( error_code code, const std::string &message, int line, int column ) :
         code(code), message(message), line(line), column(column) { }
     ErrorInfo( const ErrorInfo &that ) = default;
@@ -275,7 +275,7 @@ struct token
 
     token() : id(token_id::NONE), line(0), column(0) {}
     token( const token &that ) { *this = that; }
-    token( token &&that ) { swap(that); }
+    token( token &&that ) : token() { swap(that); }
     token( token_id id, const std::string &value = "", int line = 0, int col = 0 ) : id(id), value(value),
         line(line), column(col) {}
     token &operator=( const token &that )
-- 
2.43.0


From b5bbf089c66c1c3b9b7e86726c43675b300ffc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 35/39] fix: reject JSON numbers with invalid syntax

Any sequence of digits, signs, dots and exponent marks was taken as a number
and converted up to the first character out of place: '--5' was read as 0.
---
 source/cpp/protogen.hh | 46 +++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 480145c..84468a8 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -543,22 +543,48 @@ class tokenizer
             return true;
         }
 
-        token parse_number() // TODO ensure number syntax according to RFC-4627 section 2.4
+        // append the current character to the value if it is one of the given two
+        bool parse_symbol( std::string &value, int symbol1, int symbol2 )
+        {
+            int c = input_.peek();
+            if (input_.eof() || (c != symbol1 && c != symbol2)) return false;
+            value += (char) c;
+            input_.next();
+            return true;
+        }
+
+        // append one or more digits to the value
+        bool parse_digits( std::string &value )
+        {
+            bool found = false;
+            while (!input_.eof())
+            {
+                int c = input_.peek();
+                if (c < '0' || c > '9') break;
+                value += (char) c;
+                input_.next();
+                found = true;
+            }
+            return found;
+        }
+
+        token parse_number() // number syntax according to RFC-8259 section 6
         {
             std::string value;
             int line = input_.line();
             int column = input_.column();
-            while (!input_.eof())
+
+            parse_symbol(value, '-', '-');
+            bool valid = parse_symbol(value, '0', '0') || parse_digits(value);
+            if (valid && parse_symbol(value, '.', '.'))
+                valid = parse_digits(value);
+            if (valid && parse_symbol(value, 'e', 'E'))
             {
-                int c = input_.peek();
-                if (c == '.' || (c >= '0' && c <= '9') || c == 'e' || c == 'E' || c == '+' || c == '-')
-                {
-                    value += (char) c;
-                    input_.next();
-                }
-                else
-                    break;
+                parse_symbol(value, '+', '-');
+                valid = parse_digits(value);
             }
+            if (!valid)
+                return token(token_id::NONE, "", line, column);
             return token(token_id::NUMBER, value, line, column);
         }
 
-- 
2.43.0


From 6da7d98ee9d97f6288e9cf399e2b388dd0e67d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 36/39] fix: reject JSON numbers that the field cannot hold

Integers were silently truncated (4294967297 was read as 1, -1 as 4294967295
and 1e3 as 1) and floating point numbers became infinite.
---
 source/cpp/json-number.hh | 62 +++++++++++++++++++++++++++------------
 source/cpp/protogen.hh    |  1 +
 2 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 2623c85..c46dc48 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -34,46 +34,71 @@ template<typename T> class field
 };
 
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
-static T string_to_number( const std::string &text )
+static bool string_to_number( const std::string &text, T &number )
 {
     double value;
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
-    if (loc == nullptr) return 0;
+    if (loc == nullptr) return false;
     value = _strtod_l(text.c_str(), nullptr, loc);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
-    if (loc == 0) return 0;
+    if (loc == 0) return false;
 #ifdef __USE_GNU
     value = strtod_l(text.c_str(), nullptr, loc);
 #else
     locale_t old = uselocale(loc);
-    if (old == 0) return 0;
+    if (old == 0) return false;
     value = strtod(text.c_str(), nullptr);
     uselocale(old);
 #endif
 #endif
-    return static_cast<T>(value);
+    T temp = static_cast<T>(value);
+    if (!std::isfinite(temp)) return false;
+    number = temp;
+    return true;
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+bool string_to_number( const std::string &text, T &number )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoi64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtol(text.c_str(), nullptr, 10) );
-#endif
+    // the integer can be written with decimal places or exponent
+    if (text.find_first_of(".eE") != std::string::npos)
+    {
+        double value = 0.0;
+        const double limit = std::ldexp(1.0, std::numeric_limits<T>::digits);
+        if (!string_to_number<double>(text, value)) return false;
+        if (value < -limit || value >= limit || value != std::floor(value)) return false;
+        number = static_cast<T>(value);
+        return true;
+    }
+    errno = 0;
+    long long value = strtoll(text.c_str(), nullptr, 10);
+    if (errno == ERANGE) return false;
+    if (value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max()) return false;
+    number = static_cast<T>(value);
+    return true;
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+bool string_to_number( const std::string &text, T &number )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoui64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtoul(text.c_str(), nullptr, 10) );
-#endif
+    // the integer can be written with sign, decimal places or exponent
+    if (text.find_first_of("-.eE") != std::string::npos)
+    {
+        double value = 0.0;
+        const double limit = std::ldexp(1.0, std::numeric_limits<T>::digits);
+        if (!string_to_number<double>(text, value)) return false;
+        if (value < 0.0 || value >= limit || value != std::floor(value)) return false;
+        number = static_cast<T>(value);
+        return true;
+    }
+    errno = 0;
+    unsigned long long value = strtoull(text.c_str(), nullptr, 10);
+    if (errno == ERANGE) return false;
+    if (value > std::numeric_limits<T>::max()) return false;
+    number = static_cast<T>(value);
+    return true;
 }
 
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
@@ -155,7 +180,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
         if (tt.id == token_id::NIL) return PGR_NIL;
         if (tt.id != token_id::NUMBER)
             return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid numeric value");
-        value = string_to_number<T>(tt.value);
+        if (!string_to_number<T>(tt.value, value))
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "number out of range");
         ctx.tok->next();
         return PGR_OK;
     }
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 84468a8..d488440 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -23,6 +23,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <clocale>
+#include <cerrno>
 #include <limits>
 #include <type_traits>
 #include <sstream>
-- 
2.43.0


From 7203c5f63a31e2f05c4e725e59c9bd18f25f003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 37/39] fix: write null instead of NaN and infinity

The output was not a valid JSON.
---
 source/cpp/json-number.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index c46dc48..5ae486e 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -104,6 +104,9 @@ bool string_to_number( const std::string &text, T &number )
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 std::string number_to_string( const T &value )
 {
+    // JSON has no representation for them
+    if (!std::isfinite(value)) return "null";
+
     char tmp[320] = {0};
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
-- 
2.43.0


From fe3437d453d4140887198ee17ae4dfcf7c15cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 38/39] fix: write floating point numbers with all their
 significant digits

With six decimal places, 1e-7 was written as 0.000000.
---
 source/cpp/json-number.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5ae486e..d725802 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -111,13 +111,13 @@ std::string number_to_string( const T &value )
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From eb53650c72bb01a4d182288c581ebc70d4769003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:22 +0000
Subject: [PATCH 39/39] fix: compare string fields by whether they have a value

Text given to a string_field through operator*() or the conversion to
std::string& leaves null_ set. empty() then says that the field has a value
while the comparison operators treated it as having none.
---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index f15babb..ad640d2 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -25,12 +25,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return this->null_ || this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return this->null_ || this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return this->empty() || this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return this->empty() || this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0

